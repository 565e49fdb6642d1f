"""Values of the formulas sympy prints as LaTeX: parse(text) -> a function of an environment of named values."""
import re, math
TOK = re.compile(r'\s+|\\left\||\\right\||\\left|\\right|\\operatorname\{[a-zA-Z]+\}|\\[a-zA-Z]+|\\[ ,;!]|\d+\.\d*(?:[eE][-+]?\d+)?|\d+|[A-Za-z]+|[-+*/^_(){}\[\],|&=]|\\\\')


class Bad(Exception):
    pass


def tokens(s):
    i, r = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Bad('unexpected %r in %r' % (s[i:i + 10], s[:80]))
        t = m.group()
        i = m.end()
        if t.strip() and t not in (r'\left', r'\right', r'\,', r'\;', r'\!', '\\ ', r'\limits', r'\cdot', r'\displaystyle'): r.append(t)
    return r


FUN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
       'sign': lambda v: (v > 0) - (v < 0), 'atan2': math.atan2}
GREEK = {'alpha', 'beta', 'gamma', 'delta', 'theta', 'phi', 'psi', 'lambda', 'mu', 'sigma', 'omega'}


class P:
    def __init__(self, s, name):
        self.t, self.i, self.name = tokens(s), 0, name

    def peek(self): return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        t = self.peek()
        if t is None or (x is not None and t != x): raise Bad('expected %s, found %s' % (x, t))
        self.i += 1
        return t

    def expr(self):
        neg = False
        if self.peek() in ('-', '+'): neg = self.take() == '-'
        a = self.term()
        r = [(-1 if neg else 1, a)]
        while self.peek() in ('+', '-'):
            s = -1 if self.take() == '-' else 1
            r.append((s, self.term()))
        return lambda e: math.fsum(s * f(e) for s, f in r)

    def term(self):
        r = [self.factor()]
        while self.peek() not in (None, '+', '-', ')', '}', ']', ',', '|', r'\right|', '&', '='):
            r.append(self.factor())
        def f(e):
            v = 1.0
            for g in r: v *= g(e)
            return v
        return f

    def factor(self):
        b = self.base()
        if self.peek() == '^':
            self.take(); p = self.group()
            return lambda e: b(e) ** p(e)
        return b

    def group(self):
        if self.peek() == '{':
            self.take(); r = self.expr(); self.take('}')
            return r
        return self.base()

    def raw(self):
        """the text of a braced group"""
        if self.peek() != '{': return self.take()
        self.take(); r = ''
        while self.peek() != '}': r += self.take()
        self.take()
        return r

    def args(self):
        br = self.peek() == '{'
        if br: self.take()
        par = self.peek() == '('
        if par: self.take()
        a = [self.expr()]
        while self.peek() == ',': self.take(); a.append(self.expr())
        if par: self.take(')')
        if br: self.take('}')
        return a

    def base(self):
        t = self.take()
        if re.fullmatch(r'\d+(\.\d*([eE][-+]?\d+)?)?', t):
            v = float(t)
            return lambda e: v
        if t == '(':
            r = self.expr(); self.take(')')
            return r
        if t in ('|', r'\left|'):
            r = self.expr(); self.take(r'\right|' if t != '|' else '|')
            return lambda e: abs(r(e))
        if t == '{':
            r = self.expr(); self.take('}')
            return r
        if t == r'\pi': return lambda e: math.pi
        if t == r'\frac':
            a, b = self.group(), self.group()
            return lambda e: a(e) / b(e)
        if t == r'\sqrt':
            n = None
            if self.peek() == '[':
                self.take(); n = self.expr(); self.take(']')
            a = self.group()
            return (lambda e: math.sqrt(a(e))) if n is None else lambda e: a(e) ** (1 / n(e))
        m = re.fullmatch(r'\\operatorname\{(\w+)\}|\\(sin|cos|tan|arcsin|arccos|arctan)', t)
        if m:
            fn = m.group(1) or m.group(2)
            if self.peek() == '_':
                self.take(); fn += self.raw()
            if fn == 'atan2' or fn in FUN:
                p = None
                if self.peek() == '^':
                    self.take(); p = self.group()
                a = self.args()
                g = FUN[fn]
                if p is None: return lambda e: g(*[x(e) for x in a])
                return lambda e: g(*[x(e) for x in a]) ** p(e)
            raise Bad('function ' + fn)
        if t == 'atan' and self.peek() == '2':       # the report's way to write atan2
            self.take(); a = self.args()
            return lambda e: math.atan2(*[x(e) for x in a])
        if re.fullmatch(r'[A-Za-z]+', t) or t.lstrip('\\') in GREEK:
            n = 'th' if t == r'\theta' else t.lstrip('\\')
            if self.peek() == '_':
                self.take(); n += '_' + self.raw()
            return self.name(n)
        raise Bad('unexpected ' + t)


def parse(s, name):
    p = P(s, name)
    r = p.expr()
    if p.peek() is not None: raise Bad('rest %s of %r' % (p.t[p.i:p.i + 4], s[:80]))
    return r


def key(n):
    """names compare without underscores and subscripts' braces: A_{s1} and As_{1} are the name As1"""
    return re.sub(r'[_{}\\]', '', n.replace(r'\theta', 'th'))
