"""Scans of synthetic equation sets: drv_scan.py OUT.json SEED COUNT"""
import sys, os, json, random, io, contextlib
import memo
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
import sympy as sp
from scanobs import Table
with contextlib.redirect_stdout(io.StringIO()):
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
    from ikbtleaves.updateL import updateL
res = []
POSE = sp.symbols('r_11 r_12 r_23 Px Pz l_1 a_2')
for k in range(count):
    rng = random.Random('scan %d %d' % (seed, k))
    n = rng.randrange(1, 8)
    syms = [sp.Symbol(s) for s in rng.sample(['th_1', 'th_2', 'd_3', 'th_4', 'th_5', 'th_6', 'th_23', 'th_11', 'd_1', 'th_123'], n)]
    item = {'name': 'synthetic %d' % k, 'err': '', 'eqs': [], 'calls': []}
    with contextlib.redirect_stdout(io.StringIO()):
        us = [kc.unknown(s) for s in syms]
    for u in us: u.solved = rng.random() < rng.choice([0.1, 0.5, 0.9])
    def atom():
        s = rng.choice(syms)
        return rng.choice([s, sp.sin(s), sp.cos(s), sp.sin(s) * rng.choice(POSE), rng.choice(POSE), sp.Integer(rng.randrange(-2, 3)), sp.cos(s + rng.choice(syms)),
                           sp.sqrt(s), sp.tan(s) / rng.choice(POSE), 1 / s])
    def expr(m):
        e = atom()
        for _ in range(rng.randrange(m)):
            e = e + atom() if rng.random() < 0.6 else e * atom()
        return e
    pool = [expr(rng.choice([1, 2, 3, 6])) for _ in range(rng.choice([4, 10, 30]))] + [sp.Integer(0)] + list(POSE)
    def matrix():
        a, b = sp.zeros(4), sp.zeros(4)
        for i in range(3):
            for j in range(4): a[i, j], b[i, j] = rng.choice(pool), rng.choice(pool)
        if rng.random() < 0.3: a, b = b, a
        return kc.matrix_equation(a, b)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            R = ic.Robot(None, 'scan')
            R.mequation_list = [matrix() for _ in range(rng.choice([1, 2, 4]))]
            if rng.random() < 0.3: R.mequation_list.append(R.mequation_list[0])
            if n >= 2 and rng.random() < 0.6:
                for _ in range(rng.randrange(1, 3)):
                    m = rng.sample(syms, min(n, rng.choice([2, 3, 4])))
                    R.kequation_aux_list.append(kc.kequation(m[0], sum(m[1:])))
            # equations already sorted are sorted again while unknowns get solved
            states = []
            order = [u for u in us if not u.solved]
            rng.shuffle(order)
            for step in range(len(order) + 1):
                if step: order[step - 1].solved = True
                if step and rng.random() < 0.5: continue
                L = [[(e.LHS, e.RHS) for e in l] for l in R.scan_for_equations(us)]
                states.append((0, [(u.symbol, bool(u.solved)) for u in us], L, None))
                bb = b3.Blackboard()
                bb.set('Robot', R); bb.set('unknowns', us); bb.set('curr_unk', us[0])
                t = b3.BehaviorTree(); t.root = updateL(); t.tick('', bb)
                L = [[(e.LHS, e.RHS) for e in bb.get(x)] for x in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]
                states.append((1, [(u.symbol, bool(u.solved)) for u in us], L, None))
                mi = rng.randrange(len(R.mequation_list))
                mq = R.mequation_list[mi]
                L = [[(e.LHS, e.RHS) for e in l] for l in R.scan_Mequation(mq, us)]
                states.append((3, [(u.symbol, bool(u.solved)) for u in us], L, mq))
        t = Table(syms)
        aux = [(e.LHS, e.RHS) for e in R.kequation_aux_list]
        for kind, sol, L, mq in states:
            if kind == 3: item['calls'].append(t.call(0, [(mq.Td, mq.Ts)], [], sol, L))
            else: item['calls'].append(t.call(kind, [(q.Td, q.Ts) for q in R.mequation_list], aux, sol, L))
        item['eqs'], item['text'] = t.rows, t.text
    except Exception as ex:
        item['err'] = repr(ex)[:400]
    res.append(item)
json.dump(res, open(out, 'w'))
