"""Calls of the rigid-transform library: drv_lib.py OUT.json SEED TIER"""
import sys, json, io, contextlib, random, math, traceback
import memo
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
import numpy as np, sympy as sp
import ikbtbasics.pykinsym as pk
from enc import Enc, point, P, Unsupported

rng = random.Random(seed)
TH = sp.symbols('th_1:7')
LN = sp.symbols('l_1 l_2 l_3 a_2 h d_3')
cases = []
FIVE = 5 ** 6


class Inexact(Exception):
    pass


def angle():
    r = rng.random()
    if r < 0.3: return rng.choice(TH)
    if r < 0.5: return rng.choice(TH) + rng.choice(TH)
    if r < 0.7: return rng.choice(TH) + rng.choice([sp.pi / 2, -sp.pi / 2, sp.pi, sp.pi / 4])
    if r < 0.85: return rng.choice([0, sp.pi / 2, -sp.pi / 2, sp.pi, sp.pi / 3, sp.pi / 12])
    return -rng.choice(TH) + rng.choice(TH)


def length():
    return rng.choice([0, rng.choice(LN), rng.choice(LN) + rng.choice(LN), 3, -rng.choice(LN)])


def pad(M):
    M = sp.Matrix(M)
    return M if M.shape == (4, 4) else M.row_insert(3, sp.zeros(1, 3)).col_insert(3, sp.Matrix([0, 0, 0, 1]))


def symbolic(fn, f, angs, lens, arg=None):
    c = {'scalar': 0, 'fn': fn, 'binds': [], 'what': '%s(%s; %s)' % (f.__name__, angs, lens)}
    cases.append(c)
    try:
        res = pad(f(*([arg] if arg is not None else [angs[0], lens[0], lens[1], angs[1]] if fn == 'link' else [lens] if fn == 'trans' else angs)))
        if res.shape != (4, 4): raise ValueError('shape %s' % (res.shape,))
        e = Enc()
        c['ang'] = [e.form(a) for a in angs]
        c['len'] = [e(l) for l in lens]
        c['arg'] = [e(arg[i, j]) for i in range(4) for j in range(4)] if arg is not None else []
        c['res'] = [e(res[i, j]) for i in range(4) for j in range(4)]
        c['forms'], c['prog'] = e.forms, e.prog
        c['points'] = [point(e, rng)]
    except (Exception, SystemExit) as ex:
        c.update(scalar=1, fn='raised', what=c['what'] + ' ' + traceback.format_exc()[-300:])


# angles with rational sine and cosine, quarter turns among them
def pyth():
    k = rng.randrange(4); b = rng.choice([(5, 0), (3, 4), (4, 3)])
    c, s = b
    for _ in range(k): c, s = -s, c
    return math.atan2(s, c), c, s


def numeric(fn, f, angs, lens, arg=None, wrap=lambda m: m):
    """numeric call; results are multiples of 5^-6 and become field elements"""
    c = {'scalar': 0, 'fn': fn, 'binds': [], 'what': '%s(%s; %s)' % (f.__name__, angs, lens)}
    cases.append(c)
    try:
        fl = [a[0] for a in angs]
        res = np.array(f(*([arg] if arg is not None else [fl[0], lens[0], lens[1], fl[1]] if fn == 'link' else [lens] if fn == 'trans' else fl)), dtype=float)
        if res.shape == (3, 3):
            t = np.eye(4); t[:3, :3] = res; res = t
        if res.shape != (4, 4): raise ValueError('shape %s' % (res.shape,))
        e = Enc()
        syms = sp.symbols('q_1:%d' % (len(angs) + 1)) if angs else []
        c['ang'] = [e.form(s) for s in syms]
        c['len'] = [e(l) for l in lens]
        def rat(x):
            n = round(x * FIVE)
            if abs(x * FIVE - n) > 1e-3: raise ValueError('%r is not the exact value' % x)
            return e.const(sp.Rational(n, FIVE))
        c['arg'] = [rat(float(arg[i, j])) for i in range(4) for j in range(4)] if arg is not None else []
        c['res'] = [rat(res[i, j]) for i in range(4) for j in range(4)]
        c['forms'], c['prog'] = e.forms, e.prog
        pt = point(e, rng)
        i5 = pow(5, -1, P)
        for k, s in enumerate(syms):
            pt['dir'][e.sym(s) - 1] = [angs[k][1] * i5 % P, angs[k][2] * i5 % P]
        c['points'] = [pt]
    except (Exception, SystemExit) as ex:
        c.update(scalar=1, fn='raised', what=c['what'] + ' ' + traceback.format_exc()[-300:])


def main():
    n = 60 if tier == 'thorough' else 12
    for _ in range(n):
        symbolic('link', pk.Link_S, [angle(), angle()], [length(), length()])
        for ax in 'XYZ':
            symbolic('rot' + ax.lower(), getattr(pk, 'Rot%s_S' % ax), [angle()], [])
            symbolic('rot' + ax.lower(), getattr(pk, 'Rot%s4_S' % ax), [angle()], [])
            numeric('rot' + ax.lower(), getattr(pk, 'Rot%s_N' % ax), [pyth()], [])
            numeric('rot' + ax.lower(), getattr(pk, 'Rot%s4_N' % ax), [pyth()], [])
        for sfx in '34':
            symbolic('rpy', getattr(pk, 'RPY%s_S' % sfx), [angle(), angle(), angle()], [])
            numeric('rpy', getattr(pk, 'RPY%s_N' % sfx), [pyth(), pyth(), pyth()], [])
        symbolic('trans', pk.Trans4_S, [], [length(), length(), length()])
        numeric('trans', pk.Trans4_N, [], [rng.randint(-9, 9) for _ in range(3)])
        numeric('link', pk.Link_N, [pyth(), pyth()], [rng.randint(-9, 9), rng.randint(-9, 9)])
        # inverses of products of links
        T = sp.eye(4)
        for _ in range(rng.randint(1, 3)): T = T * pk.Link_S(angle(), length(), length(), angle())
        symbolic('hinv', pk.H_inv_S, [], [], T)
        A = np.matrix(np.eye(4))
        for _ in range(rng.randint(1, 2)): A = A * np.matrix(pk.Link_N(pyth()[0], rng.randint(-9, 9), rng.randint(-9, 9), pyth()[0]))
        numeric('hinv', pk.H_inv_N, [], [], A)
        # abbreviated display form
        M = sp.Matrix(4, 4, lambda i, j: rng.choice([0, sp.sin(angle()), sp.cos(angle()) * rng.choice(LN), sp.sin(rng.choice(TH)) * sp.cos(rng.choice(TH)),
                                                     sp.cos(TH[0] + TH[1]) + sp.sin(TH[1] + TH[2]), sp.sin(TH[3] + TH[4]) * sp.cos(TH[4] + TH[5])]))
        squeeze(M)
    q = math.pi / 8
    for k in range(-23, 24):
        try:
            r = float(pk.wrap_angle_N({-8: -math.pi, 8: math.pi}.get(k, k * q))) / q
            cases.append({'scalar': 1, 'fn': 'wrap', 'x': k, 'r': round(r) if abs(r - round(r)) < 1e-9 else 9999, 'what': 'wrap_angle_N(%d pi/8) = %s' % (k, r)})
        except (Exception, SystemExit) as ex:
            cases.append({'scalar': 1, 'fn': 'raised', 'what': 'wrap_angle_N(%d pi/8): %s' % (k, ex)})
    for _ in range(40 * n):
        x = rng.randint(-10 ** rng.randint(1, 9), 10 ** rng.randint(1, 9))
        t = max(abs(x) // 1000, 10)
        y = rng.choice([x, x + rng.randint(-2 * t, 2 * t), x + t + rng.choice([-5, 5]), rng.randint(-10 ** 9, 10 ** 9), -x, 0])
        if abs(abs(x - y) - max(max(abs(x), abs(y)) // 1000, 10)) < 3: continue
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = bool(pk.approx_N(x / 1e6, y / 1e6, rng.random() < 0.5))
            cases.append({'scalar': 1, 'fn': 'approx', 'x': x, 'y': y, 'r': int(r), 'what': 'approx_N(%g, %g)' % (x / 1e6, y / 1e6)})
        except (Exception, SystemExit) as ex:
            cases.append({'scalar': 1, 'fn': 'raised', 'what': 'approx_N(%g, %g): %s' % (x / 1e6, y / 1e6, ex)})
    json.dump({'cases': cases}, open(out, 'w'))


ABBR = {'%s_%s' % (f, i): (fn, sum(sp.Symbol('th_' + d) for d in i)) for f, fn in (('c', 'cos'), ('s', 'sin'))
        for i in ('1', '2', '3', '4', '5', '6', '12', '23', '34', '45', '56', '13')}


def squeeze(M):
    c = {'scalar': 0, 'fn': 'same', 'binds': [], 'ang': [], 'len': [], 'what': 'notation_squeeze(%s)' % M.tolist()}
    cases.append(c)
    try:
        R = pk.notation_squeeze(M)
        e = Enc()
        c['arg'] = [e(M[i, j]) for i in range(4) for j in range(4)]
        c['res'] = [e(R[i, j]) for i in range(4) for j in range(4)]
        for s in list(e.syms):
            if s in ABBR:
                fn, f = ABBR[s]
                c['binds'].append({'sym': e.sym(s), 'form': e.form(f), 'fn': fn})
        c['forms'], c['prog'] = e.forms, e.prog
        c['points'] = [point(e, rng)]
    except (Exception, SystemExit) as ex:
        c.update(scalar=1, fn='raised', what=c['what'] + ' ' + traceback.format_exc()[-300:])


main()
