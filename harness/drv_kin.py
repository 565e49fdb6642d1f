"""Symbolic forward kinematics of the implementation: drv_kin.py OUT.json ROBOT... | random SEED N"""
import sys, json, io, contextlib, random, traceback
import memo
out = sys.argv[1]
import sympy as sp
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
    import ikbtfunctions.ik_robots as ir
    import ikbtbasics.kin_cl as kc
import kinlib as K

res = []


def one(name, dh, vv, params, seed, pvals=None):
    r = {'name': name, 'err': '', 'item': None, 'skip': ''}
    res.append(r)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m = kc.mechanism(dh.copy(), list(params), list(vv))
            m.pvals = dict(pvals or {})
            m.forward_kinematics()
            T, J = m.T_06, m.J66
            eqs = m.get_mequation_set()
    except (Exception, SystemExit) as ex:
        r['err'] = '%s: %s' % (type(ex).__name__, traceback.format_exc()[-700:])
        return
    try:
        r['item'] = K.item(name, dh, vv, T, eqs, J, declared=params, pvals=m.pvals, seed=seed)
    except K.BadParameter as ex:
        r['err'] = str(ex)
    except K.Unsupported as ex:
        r['skip'] = str(ex)


if sys.argv[2] == 'random':
    rng = random.Random(int(sys.argv[3]))
    for i in range(int(sys.argv[4])):
        dh, vv, params, unks = K.random_mechanism(rng)
        one('random %s/%d: %s vv=%s' % (sys.argv[3], i, dh.tolist(), vv), dh, vv, params, i)
else:
    for name in sys.argv[2:]:
        with contextlib.redirect_stdout(io.StringIO()):
            dh, vv, params, pvals, unks = ir.robot_params(name)
        one(name, dh, vv, params, 1, pvals)
json.dump(res, open(out, 'w'))
