"""What the kinematics drivers share: mechanisms, and encoding of their symbolic results."""
import random, re, math
import numpy as np
import sympy as sp
import enc as E
from enc import Enc, Unsupported, point

POSE = [('r_%d%d' % (i, j), i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + [('Px', 1, 4), ('Py', 2, 4), ('Pz', 3, 4)]


class BadParameter(Exception):
    pass


def parse_num(s, pv=None):
    """numeric value of a parameter given as text such as np.cos(5*pi/12)"""
    if isinstance(s, str):
        env = {str(k): float(v) for k, v in (pv or {}).items() if not isinstance(v, str)}
        env.update({'np': np, 'pi': math.pi, 'sqrt': math.sqrt, '__builtins__': {}})
        return float(eval(s, env))
    return float(sp.N(s))


def item(name, dh, vv, T06=None, eqs=(), J=None, scalars=(), sums=(), declared=(), pvals=None, seed=1, npts=2):
    """one item of KinTrace: expressions are sympy; sums = [(symbol, sum)] in order"""
    rng = random.Random('%s %s' % (name, seed))
    e = Enc()
    x = {'name': name, 'dh': [], 'alphas': [], 'sums': [], 'pose': [], 'vv': [int(v) for v in vv]}
    ed = Enc(); ed._s, ed.syms, ed._f, ed.forms, ed.pseudo = e._s, e.syms, e._f, e.forms, e.pseudo
    n = dh.shape[0]
    for i in range(n):
        x['dh'].append({'al': e.form(dh[i, 0]), 'a': ed(dh[i, 1]), 'd': ed(dh[i, 2]), 'th': e.form(dh[i, 3])})
    x['dhprog'] = ed.prog
    for s, i, j in POSE: x['pose'].append({'sym': e.sym(s), 'i': i, 'j': j})
    mm = lambda M: [e(M[i, j]) for i in range(4) for j in range(4)]
    x['T06'] = mm(T06) if T06 is not None else []
    x['eqs'] = [{'Td': mm(q.Td), 'Ts': mm(q.Ts)} for q in eqs]
    x['J'] = [e(J[i, j]) for i in range(6) for j in range(6)] if J is not None else []
    x['scalars'] = [[e(l), e(r)] for l, r in scalars]
    for s, f in sums: x['sums'].append({'sym': e.sym(s), 'form': e.form(f)})
    # parameters introduced for the cosine / sine of a twist: identified by their value
    known = set(str(s) for s in declared) | set(s for s, _, _ in POSE) | set(str(s) for s, _ in sums)
    for i in range(n): known |= set(str(s) for s in dh[i, :].free_symbols)
    for s in list(e.syms):
        if s in known or s.startswith('angle!') or s.startswith('qd_'): continue
        v = (pvals or {}).get(sp.Symbol(s))
        if v is None: raise BadParameter('symbol %s appears in the results but is no parameter, unknown or pose entry' % s)
        num = {a: b for a, b in (pvals or {}).items() if not isinstance(b, str)}
        val = parse_num(v, num)
        for i in range(n):
            al, sal = dh[i, 0].subs(num), dh[i, 0]
            if not al.is_number: continue
            if abs(val - math.cos(al)) < 1e-9 and (s.startswith('c') or abs(val - math.sin(al)) > 1e-9):
                x['alphas'].append({'sym': e.sym(s), 'form': e.form(sal), 'fn': 'cos'}); break
            if abs(val - math.sin(al)) < 1e-9:
                x['alphas'].append({'sym': e.sym(s), 'form': e.form(sal), 'fn': 'sin'}); break
        else:
            raise BadParameter('parameter %s = %s is no cosine or sine of a link twist' % (s, v))
    x['forms'], x['prog'] = e.forms, e.prog
    x['points'] = [point(e, rng) for _ in range(npts)]
    return x


def random_mechanism(rng, hard=False):
    """a small random serial mechanism: DH table, joint types, parameters, unknown symbols"""
    n = rng.choice([2, 3, 3, 4, 4, 5, 6] if hard else [2, 2, 3, 3, 4])
    alphas = [0, sp.pi / 2, -sp.pi / 2, sp.pi, 0, sp.pi / 2]
    odd = [sp.pi / 3, 5 * sp.pi / 12, -sp.pi / 4, sp.Rational(2, 7) * sp.pi, sp.pi / 6]
    params, vv, unks, rows = set(), [], [], []
    usedodd = 0
    for i in range(6):
        al = rng.choice(alphas)
        if usedodd < 1 and rng.random() < 0.08: al = rng.choice(odd); usedodd += 1
        a = rng.choice([0, 0, 0, sp.Symbol('a_%d' % (i + 1)), sp.Symbol('l_%d' % (i + 1)), 2])
        if i >= n:
            rows.append([0, 0, 0, 0]); vv.append(1)
            continue
        if rng.random() < 0.75:
            th = sp.Symbol('th_%d' % (i + 1)); unks.append((th, i + 1)); vv.append(1)
            d = rng.choice([0, 0, sp.Symbol('d_%d' % (i + 1)), sp.Symbol('l_%d' % (i + 2)), sp.Symbol('h'), 3])
            if rng.random() < 0.15: th = th + rng.choice([sp.pi / 2, -sp.pi / 2, sp.pi])
        else:
            d = sp.Symbol('d_%d' % (i + 1)); unks.append((d, i + 1)); vv.append(0)
            th = rng.choice([0, sp.pi / 2, -sp.pi / 2, sp.pi, 0])
            if rng.random() < 0.2: d = d + sp.Symbol('l_%d' % (i + 1))
        rows.append([al, a, d, th])
    dh = sp.Matrix(rows)
    us = set(s for s, _ in unks)
    params = sorted((s for s in dh.free_symbols if s not in us), key=str)
    return dh, vv, params, unks
