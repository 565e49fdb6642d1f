"""Numeric forward kinematics at poses with rational sines and cosines: drv_num.py OUT.json robots|random SEED [ROBOT...]"""
import sys, json, io, contextlib, random, math, traceback
import memo
out, mode, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
import sympy as sp, numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    import ikbtfunctions.ik_robots as ir
    import ikbtbasics.kin_cl as kc
import kinlib as K
from enc import P
rng = random.Random(seed)
res = []
FIVE = 5 ** 6


def pyth():
    c, s = rng.choice([(5, 0), (3, 4), (4, 3)])
    for _ in range(rng.randrange(4)): c, s = -s, c
    return math.atan2(s, c), c, s


def one(name, dh, vv, params, unks):
    # twists by quarter turns only; every other constant an integer
    for i in range(6):
        q = sp.nsimplify(dh[i, 0], rational=True) / (sp.pi / 2)
        if not q.is_Integer: return
        for j in (1, 2):
            for t in dh[i, j].atoms(sp.Number):
                if t != int(t): return
    r = {'name': name, 'err': '', 'item': None, 'skip': ''}
    res.append(r)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m = kc.mechanism(dh.copy(), list(params), list(vv))
            m.forward_kinematics()
            pose, pv, dirs, raws = {}, {}, {}, {}
            for u in unks:
                s = u.symbol if hasattr(u, 'symbol') else u[0]
                if s in dh[:, 3].free_symbols: pose[s], *dirs[s] = pyth()
                else: pose[s] = raws[s] = rng.randint(-6, 6)
            for s in params: pv[s] = raws[s] = rng.randint(-6, 6)
            T = np.array(kc.forward_kinematics_N(m, pose, pv), dtype=float)
        if T.shape != (4, 4): raise ValueError('shape')
        M = sp.zeros(4)
        for i in range(4):
            for j in range(4):
                n = round(T[i, j] * FIVE)
                if abs(T[i, j] * FIVE - n) > 1e-2: raise ValueError('pose entry %d,%d = %r is not the exact value' % (i, j, T[i, j]))
                M[i, j] = sp.Rational(n, FIVE)
        name = r['name'] = '%s at %s %s' % (name, pose, pv)
        it = K.item(name, dh, vv, M, (), None, declared=list(params) + list(pose), pvals={}, npts=1)
        i5 = pow(5, -1, P)
        syms = {}
        # symbol order of the item: rebuild it from the DH table
        e = K.Enc()
        for i in range(6): e.form(dh[i, 0]); e(dh[i, 1]); e(dh[i, 2]); e.form(dh[i, 3])
        pt = it['points'][0]
        for s, (c, q) in dirs.items():
            if str(s) in e.syms: pt['dir'][e.sym(s) - 1] = [c * i5 % P, q * i5 % P]
        for s, v in raws.items():
            if str(s) in e.syms: pt['raw'][e.sym(s) - 1] = v % P
        r['item'] = it
    except K.Unsupported as ex:
        r['skip'] = str(ex)
    except (Exception, SystemExit) as ex:
        r['err'] = '%s: %s' % (type(ex).__name__, traceback.format_exc()[-700:])


if mode == 'random':
    for i in range(6):
        dh, vv, params, unks = K.random_mechanism(rng)
        one('random %d/%d %s' % (seed, i, dh.tolist()), dh, vv, params, unks)
else:
    for name in sys.argv[4:]:
        with contextlib.redirect_stdout(io.StringIO()):
            dh, vv, params, pvals, unks = ir.robot_params(name)
        one(name, dh, vv, params, unks)
json.dump(res, open(out, 'w'))
