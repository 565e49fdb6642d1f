"""A generated report as the sequence of events spec/Report reads, and what it should state."""
import re, math, random
import sympy as sp
import latexval as lv
from rows import ev, Out, setup, dh_rows
S = 10000


def fix(x):
    if not math.isfinite(x): return 2000001
    return max(-2000000, min(2000000, int(round(float(x) * S))))


def balance(t):
    """[lowest brace depth, net depth, lowest left/right depth, net, dollars] of a piece of text"""
    b = lr = mb = ml = d = 0
    for m in re.finditer(r'\\\\|\\left(?![a-z])|\\right(?![a-z])|\\.|[{}$]', t, re.S):
        x = m.group()
        if x == '{': b += 1
        elif x == '}': b -= 1
        elif x == r'\left': lr += 1
        elif x == r'\right': lr -= 1
        elif x == '$': d += 1
        mb, ml = min(mb, b), min(ml, lr)
    return [mb, b, ml, lr, d]


def rowsof(body, cut):
    """split at a separator outside braces and parentheses"""
    r, cur, depth, i = [], '', 0, 0
    while i < len(body):
        if body.startswith(cut, i) and depth == 0:
            r.append(cur); cur = ''; i += len(cut); continue
        c = body[i]
        if c == '\\' and i + 1 < len(body):
            cur += body[i:i + 2]; i += 2; continue
        if c in '{(': depth += 1
        if c in '})': depth -= 1
        cur += c; i += 1
    return r + [cur]


class Doc:
    def __init__(self, text, env):
        self.env, self.ev, self.errs = env, [], []
        if r'\begin{document}' in text:
            pre, text = text.split(r'\begin{document}', 1)
            self.add('class' if r'\documentclass' in pre else 'text', '', [0] * 5)
            text = r'\begin{document}' + text
        self.scan(text)

    def add(self, k, n='', v=(), s=()): self.ev.append({'k': k, 'n': n, 'v': list(v), 's': list(s)})

    def name(self, n):
        k = lv.key(n)
        if k in self.env: return lambda e: e[k]
        m = re.fullmatch(r'([cs])(\d)(\d?)', k)
        if m:
            js = [lv.key('th_' + d) for d in m.groups()[1:] if d]
            if all(j in self.env for j in js):
                f = math.cos if m.group(1) == 'c' else math.sin
                return lambda e: f(sum(e[j] for j in js))
        raise lv.Bad('unknown name ' + n)

    def value(self, t):
        return lv.parse(t, self.name)(self.env)

    def scan(self, t):
        i, env = 0, []
        pat = re.compile(r'\\(begin|end|section|subsection)\*?\s*\{([^{}]*(?:\{[^{}]*\}[^{}]*)*)\}|\\item')
        if True:
            text = ''
            while i < len(t):
                if env and env[-1] == 'verbatim':
                    j = t.find(r'\end{verbatim}', i)
                    if j < 0: j = len(t)
                    self.verb(t[i:j])
                    i = j
                m = pat.search(t, i)
                piece = t[i:m.start()] if m else t[i:]
                piece = re.sub(r'(?m)(?<!\\)%.*$', '', piece)
                self.add('text', '', balance(piece))
                if env and env[-1] == 'tabular': self.tab(piece)
                if not m: break
                i = m.end()
                k, a = m.group(1), m.group(2)
                if k == 'begin':
                    self.add('begin', a)
                    env.append(a)
                    e = t.find(r'\end{%s}' % a, i)
                    body = t[i:e] if e >= 0 else t[i:]
                    if a == 'matrix': self.matrix(body)
                    if a in ('align', 'dmath', 'align*', 'equation'): self.eqs(body, a)
                elif k == 'end':
                    self.add('end', a)
                    if env: env.pop()
                elif k in ('section', 'subsection'):
                    self.add(k, '')
                    self.add('text', '', balance(a))
                else:
                    m2 = re.match(r'\s*\{?\s*\$([^$]*)\$', t[i:])
                    self.add('item', lv.key(m2.group(1).strip()) if m2 else '?')

    def matrix(self, body):
        rows = [[c.strip() for c in rowsof(r, '&')] for r in rowsof(body, r'\\')]
        w = len(rows[0])
        if any(len(r) != w for r in rows): self.add('matrix', 'ragged'); return
        try: v = [[self.value(c) for c in r] for r in rows]
        except (lv.Bad, ArithmeticError, ValueError) as ex:
            self.errs.append(str(ex)); self.add('matrix', 'unreadable'); return
        if w == 4 and len(rows) == 6:
            out = []
            for a, b, c, d in v: out += [fix(math.cos(a)), fix(math.sin(a)), fix(b), fix(c), fix(math.cos(d)), fix(math.sin(d))]
        else: out = [fix(x) for r in v for x in r]
        self.add('matrix', '%dx%d' % (len(rows), w), out)

    def eqs(self, body, a):
        if r'\begin{matrix}' in body: return
        for q in rowsof(body, r'\\'):
            if '=' not in q: continue
            l, r = q.replace('&', ' ').split('=', 1)
            try: v = fix(self.value(r.strip()))
            except (lv.Bad, ArithmeticError, ValueError) as ex:
                self.errs.append('%s: %s' % (ex, q[:200])); v = 2000002 if isinstance(ex, lv.Bad) else 2000001
            self.add('eq', lv.key(l.strip()), [v])

    def verb(self, body):
        for x, y in re.findall(r'\((\S+?)\s*-->\s*(\S+?)\)', body): self.add('edge', '', (), [lv.key(x), lv.key(y)])
        for l in body.split('\n'):
            l = l.strip()
            if l.startswith('(') and l.endswith(')') and '-->' not in l:
                self.add('row', 'set', (), [lv.key(x.strip().strip("'\"")) for x in l[1:-1].split(',') if x.strip()])

    def tab(self, body):
        for r in body.split(r'\\'):
            c = re.findall(r'\$([^$]*)\$', r)
            if c: self.add('row', 'table', (), [lv.key(x.strip()) for x in c])


def world(dh, js, R, seed):
    env, rows, T = setup(dh, js, R.params, dict(R.Mech.pvals), random.Random('report %s' % seed))
    return env, rows, T


def base_item(dh, js, vv, R, seed):
    env, drows, T = world(dh, js, R, seed)
    links = [[fix(math.cos(a)), fix(math.sin(a)), fix(b), fix(c), fix(math.cos(t)), fix(math.sin(t))] for a, b, c, t in drows]
    names = {lv.key(str(s)): v for s, v in env.items() if isinstance(v, (int, float))}
    return env, names, {'links': links, 'vv': [int(v) for v in vv], 'order': [], 'eqs': [], 'edges': [], 'rows': [], 'ik': 0}


def ik_report(r, dh, js, vv, seed, path):
    R = r.robot
    if not R.solution_nodes: return None
    env, names, x = base_item(dh, js, vv, R, seed)
    x['ik'] = 1
    rng = random.Random('names %s %s' % (r.name, seed))
    us = sorted([u for u in r.unknowns if u.solved], key=lambda u: u.solveorder)
    forms = [(str(n), sp.sympify(e)) for u in us for n, e in zip(u.solutionNames, u.solutions)]
    forms += [(str(q.LHS), sp.sympify(q.RHS)) for row in R.FinalEqnMatrix for q in row]
    # the pose entries, unknowns and versions any values at which the formulas have a value
    free = sorted(set(s for _, e in forms for s in e.free_symbols if s not in R.params), key=str)
    best = None
    for t in range(40):
        e = dict(env)
        for s in free: e[s] = rng.uniform(0.15, 1.4) * rng.choice((1, -1)) if t < 30 else env.get(s, rng.uniform(-3, 3))
        vals, bad = [], 0
        for _, f in forms:
            try:
                v = ev(f, e)
                if abs(v) > 150: raise Out('large')
                for a in f.atoms(sp.asin, sp.acos):
                    if abs(ev(a.args[0], e)) > 1: raise Out('range')
                vals.append(v)
            except Out: vals.append(None); bad += 1
        if best is None or bad < best[0]: best = (bad, e, vals)
        if not bad: break
    _, e, vals = best
    x['undefined'] = best[0]
    # the links at this assignment are those of env: the matrices of the report use joint values, not the solutions'
    x['order'] = [lv.key(str(u.symbol)) for u in us]
    x['eqs'] = [[lv.key(n), 0 if v is None else 1, 0 if v is None else fix(v)] for (n, _), v in zip(forms, vals)]
    x['edges'] = sorted([lv.key(str(u.symbol)), lv.key(str(w.symbol))] for u in us for w in r.unknowns if any(s.has(w.symbol) for s in u.solutions))
    x['rows'] = [[lv.key(str(v)) for v in row] for row in R.solListMatrix]
    text = open(path).read()
    head, sep, tail = text.partition(r'\section{Unknown Variables')
    # two assignments: the matrices at a true pose, the equations where they have values
    d1 = Doc(text, names)
    n2 = dict(names)
    n2.update({lv.key(str(s)): v for s, v in e.items() if isinstance(v, (int, float))})
    d2 = Doc(text, n2)
    doc = [b if a['k'] == 'eq' else a for a, b in zip(d1.ev, d2.ev)]
    x['doc'] = doc
    return x, sorted(set(d2.errs))[:5]


def fk_report(R, name, dh, js, vv, seed, path):
    env, names, x = base_item(dh, js, vv, R, seed)
    d = Doc(open(path).read(), names)
    x['doc'] = d.ev
    return x, d.errs[:5]
