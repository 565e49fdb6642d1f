"""sympy expressions -> straight-line programs of spec/GF.tla."""
import random
import memo
import sympy as sp

P = 46273
assert sp.isprime(P) and P % 24 == 1


class Unsupported(Exception):
    pass


def linear(e):
    """e = k*pi/12 + sum c_i*sym_i with integer k, c_i -> (k, {sym: c}), or None"""
    if e.has(sp.Float): e = sp.nsimplify(e, rational=True)
    e = sp.expand(e)
    k, t = 0, {}
    for term in sp.Add.make_args(e):
        c, r = term.as_coeff_Mul()
        if r == sp.pi or (term.is_number and term != 0):
            q = term / sp.pi * 12
            if not (q is not None and q.is_Integer):
                return None
            k += int(q)
        elif term == 0:
            continue
        elif r.is_Symbol and c.is_Integer:
            t[r] = t.get(r, 0) + int(c)
        else:
            return None
    return k, {s: c for s, c in t.items() if c}


class Enc:
    def __init__(self):
        self.prog, self.forms, self.syms = [], [], []
        self._m, self._f, self._s = {}, {}, {}
        self.pseudo = {}        # numeric angle (not k*pi/12) -> symbol

    def sym(self, s):
        s = str(s)
        if s not in self._s:
            self.syms.append(s)
            self._s[s] = len(self.syms)
        return self._s[s]

    def form(self, e):
        e = sp.sympify(e)
        l = linear(e)
        if l is None:
            if e.is_number:
                key = sp.srepr(e)
                if key not in self.pseudo:
                    self.pseudo[key] = 'angle!%d' % len(self.pseudo)
                l = (0, {sp.Symbol(self.pseudo[key]): 1})
            else:
                raise Unsupported('angle %s' % e)
        k, t = l
        key = (k % 24 if False else k, tuple(sorted((str(s), c) for s, c in t.items())))
        if key not in self._f:
            if any(abs(c) > 40 for _, c in key[1]) or abs(k) > 1000: raise Unsupported('angle %s' % e)
            self.forms.append({'k': k, 't': [[self.sym(s), c] for s, c in key[1]]})
            self._f[key] = len(self.forms)
        return self._f[key]

    def emit(self, *ins):
        ins = tuple(list(ins) + [0] * (3 - len(ins)))
        if ins not in self._m:
            self.prog.append(list(ins))
            self._m[ins] = len(self.prog)
        return self._m[ins]

    def const(self, q):
        q = sp.Rational(q)
        if q.q % P == 0: raise Unsupported('constant')
        return self.emit(0, int(q.p) * pow(int(q.q), -1, P) % P)

    def __call__(self, e):
        """index of the value of e"""
        e = sp.sympify(e)
        key = ('e', e)
        if key in self._m:
            return self._m[key]
        r = self._m[key] = self.enc(e)
        return r

    def chain(self, op, xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.emit(op, r, x)
        return r

    def enc(self, e):
        if e.is_Rational: return self.const(e)
        if e.is_Float:
            r = sp.nsimplify(e, rational=True)
            return self.const(r)
        if e == sp.pi: return self.emit(8)
        if e.is_Symbol: return self.emit(1, self.sym(e))
        if e.is_Add: return self.chain(4, [self(a) for a in e.args])
        if e.is_Mul: return self.chain(5, [self(a) for a in e.args])
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                n = abs(int(x))
                if n > 12: raise Unsupported('power')
                r = self.chain(5, [self(b)] * n)
                return r if x > 0 else self.emit(6, r)
            if x == sp.Rational(1, 2) and b in (2, 3): return self.emit(7, int(b))
            if x == -sp.Rational(1, 2) and b in (2, 3): return self.emit(6, self.emit(7, int(b)))
            if x == sp.Rational(1, 2) and b == 6: return self.emit(5, self.emit(7, 2), self.emit(7, 3))
            raise Unsupported('power %s' % e)
        if isinstance(e, sp.cos): return self.emit(2, self.form(e.args[0]))
        if isinstance(e, sp.sin): return self.emit(3, self.form(e.args[0]))
        if isinstance(e, sp.tan):
            f = self.form(e.args[0])
            return self.emit(5, self.emit(3, f), self.emit(6, self.emit(2, f)))
        raise Unsupported(str(type(e)))


def circle(rng):
    while True:
        t = rng.randrange(P)
        n = (1 + t * t) % P
        if n:
            i = pow(n, -1, P)
            return [(1 - t * t) * i % P, 2 * t * i % P]


def _twelfth():
    # an element of order 24 of the circle group: c+ i s with i^2 = -1 in GF(P)
    g = next(x for x in range(2, P) if all(pow(x, (P - 1) // q, P) != 1 for q in sp.primefactors(P - 1)))
    i = pow(g, (P - 1) // 4, P)
    h2 = pow(2, -1, P)
    for u in range(1, 24):
        z = pow(g, (P - 1) // 24 * u, P)            # z = c + i s
        zi = pow(z, -1, P)
        c, s = (z + zi) * h2 % P, (z - zi) * h2 * pow(i, -1, P) % P
        def turn(a, b): return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)
        d = (1, 0); pw = [d]
        for _ in range(12):
            d = turn(d, (c, s)); pw.append(d)
        if pw[6] == (0, 1) and pw[12] == (P - 1, 0):
            r2 = pow(pw[3][0], -1, P)
            r3 = 2 * pw[2][0] % P
            if r2 * r2 % P == 2 and r3 * r3 % P == 3:
                return [c, s], r2, r3
TWELFTH, R2, R3 = _twelfth()


def point(enc, rng):
    return {'raw': [rng.randrange(1, P) for _ in enc.syms], 'dir': [circle(rng) for _ in enc.syms],
            'twelfth': TWELFTH, 'r2': R2, 'r3': R3, 'pi': rng.randrange(1, P)}
