"""The real search (tree of ikSolver.py, assigner, ranking, refresh, completion test, solution set) with
scripted methods: drv_script.py OUT.json SEED COUNT
drv_script.py OUT.json graph N FROM STEP: solution sets of all dependency structures of N unknowns (every STEP-th from FROM)"""
import sys, os, json, random, io, contextlib, tempfile, shutil, pickle
out = sys.argv[1]
if sys.argv[2] != 'graph': seed, count = int(sys.argv[2]), int(sys.argv[3])
import pipe
from setobs import sets
import sympy as sp
with contextlib.redirect_stdout(io.StringIO()):
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
d = tempfile.mkdtemp(prefix='script.')
os.chdir(d)
pipe.prepare()


class Rob(ic.Robot):
    pass


def episode(k):
    rng = random.Random('script %d %d' % (seed, k))
    n = rng.randrange(1, 7)
    with contextlib.redirect_stdout(io.StringIO()):
        us = []
        for i in range(n):
            u = kc.unknown(sp.Symbol('th_%d' % (i + 1))); u.n = i + 1; us.append(u)
    dh = sp.Matrix([[0, 0, 0, us[i].symbol if i < n else 0] for i in range(6)])
    if n < 2: dh[1, 2] = sp.Symbol('l_2')
    p = rng.choice([0.0, 0.05, 0.15, 0.3, 0.6, 1.0])
    weight = {m: rng.choice([0.0, 0.5, 1.0, 1.0]) for m in ('algebra', 'tan', 'sincos', 'simu', 'sac', 'x2z2')}
    shy = rng.random() < 0.3          # identification succeeds, solving may not
    pose = sp.symbols('r_11 r_12 Px Pz')
    extra = [0]

    def expr(bb, u):
        e = rng.choice(pose) + rng.randrange(5)
        for v in bb.get('unknowns'):
            if v.solved and v is not u and rng.random() < 0.4: e = e + sp.sin(v.symbol)
        return e
    def iden(m):
        def tick(self, t):
            u = t.blackboard.get('curr_unk')
            return b3.SUCCESS if not u.solved and rng.random() < p * weight[m] else b3.FAILURE
        return tick
    def give(m):
        def tick(self, t):
            bb = t.blackboard
            u = bb.get('curr_unk')
            if u.solved or (shy and rng.random() < 0.5): return b3.FAILURE
            sols = [expr(bb, u) for _ in range(rng.choice([1, 2] if m != 'simu' else [1]))]
            u.solvemethod = m
            eq = kc.kequation(sp.Integer(0), u.symbol)
            u.eqntosolve = eq
            if m == 'tan': u.tan_solutions = list(sols); u.tan_eqnlist = [eq, eq]; u.solutions = list(u.solutions) + sols
            elif m == 'sincos': u.sincos_solutions = list(sols); u.sincos_eqnlist = [eq]; u.solutions = list(u.solutions) + sols
            else:
                u.solutions = sols; u.nsolutions = len(sols)
                u.set_solved(bb.get('Robot'), bb.get('unknowns'))
            return b3.SUCCESS
        return tick
    def x2z2(self, t):
        u = t.blackboard.get('curr_unk')
        return give('x2z2')(self, t) if not u.solved and rng.random() < p * weight['x2z2'] else b3.FAILURE
    def sums(self, t):
        us = t.blackboard.get('unknowns')
        if extra[0] < 2 and n < 6 and rng.random() < 0.1:
            extra[0] += 1
            v = kc.unknown(sp.Symbol('th_%d%d' % (extra[0], extra[0] + 1))); v.n = 11 * extra[0] + 1
            us.append(v); t.blackboard.set('unknowns', us)
        return b3.SUCCESS
    script = {'algebra_id': iden('algebra'), 'algebra_solve': give('algebra'), 'tan_id': iden('tan'), 'tan_solve': give('tan'),
              'sincos_id': iden('sincos'), 'sincos_solve': give('sincos'), 'simu_id': iden('simu'), 'simu_solver': give('simu'),
              'sinandcos_id': iden('sac'), 'sinandcos_solve': give('sac'), 'x2z2_transform': x2z2, 'sum_id': sums,
              'sub_transform': lambda self, t: b3.SUCCESS}
    class M: pass
    def kp(rname, dh_, constants, pvals, vv, unks, test):
        m = M(); m.DH, m.params, m.pvals, m.vv = dh_, [], {}, vv
        R = ic.Robot(None, rname); R.Mech = m
        R.mequation_list = [kc.matrix_equation(sp.eye(4), sp.eye(4))]
        return [m, R, unks]
    noop = lambda *a, **k: None
    def latex(R, *a, **k):            # the report makes the version equations
        if not R.FinalEqnMatrix: R.make_LHS_versions()
    r = pipe.run('Scripted', mech=(dh, [1] * 6, [], {}, us), keep_lists=False, cached=True, script=script,
                 patches=[('kinematics_pickle', kp), ('output_latex_solution', latex), ('output_python_code', noop), ('output_cpp_code', noop)])
    return {'name': 'script %d' % k, 'err': r.err, 'ev': r.events, 'done': 1 if r.done else 0, 'nothing': 1 if r.nothing else 0,
            'reported': r.reported, 'sets': sets(r) if not r.err and r.robot is not None else None, 'tail': r.out.getvalue()[-300:]}


def graphs(n, first, step):
    """dependency structures of n unknowns in solving order, with 1 or 2 branches each"""
    import itertools
    pose = sp.symbols('r_11 r_12 r_13 Px Py Pz')
    res = []
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for k, bits in enumerate(itertools.product([0, 1], repeat=len(pairs) + n)):
        if k % step != first: continue
        with contextlib.redirect_stdout(io.StringIO()):
            us = [kc.unknown(sp.Symbol('th_%d' % (i + 1))) for i in range(n)]
            R = ic.Robot(None, 'graph')
            for i, u in enumerate(us):
                deps = [j for (a, j), b in zip(pairs, bits) if a == i and b]
                base = pose[i] + sum(sp.cos(us[j].symbol) for j in deps)
                u.solutions = [base] if not bits[len(pairs) + i] else [sp.asin(base), sp.pi - sp.asin(base)]
                u.solvemethod = 'graph'
                u.set_solved(R, us)
            R.create_solution_set()
            if not R.FinalEqnMatrix: R.make_LHS_versions()
        class r: robot, unknowns = R, us
        res.append({'name': 'graph %s' % (bits,), 'err': '', 'sets': sets(r)})
    return res


try:
    if sys.argv[2] == 'graph': res = graphs(*map(int, sys.argv[3:6]))
    else: res = [episode(k) for k in range(count)]
finally:
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
json.dump(res, open(out, 'w'))
