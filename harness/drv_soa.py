"""Sums of angles: drv_soa.py OUT.json SEED COUNT — the three places that replace them, on generated expressions"""
import sys, os, json, random, io, contextlib, re
import memo
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
import sympy as sp
import kinlib
from soaobs import state, trig_sums
with contextlib.redirect_stdout(io.StringIO()):
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
    from ikbtleaves.sum_id import sum_id
TH = sp.symbols('th_1:7')
PAR = sp.symbols('l_1 a_2 Px Py r_11 r_23')
res = []
for k in range(count):
    rng = random.Random('soa %d %d' % (seed, k))
    mode = ['sub', 'sub', 'matrix', 'leaf'][k % 4]
    it = {'name': '%s %d' % (mode, k), 'err': '', 'states': [], 'item': None, 'text': []}
    nj = rng.randrange(3, 7)
    with contextlib.redirect_stdout(io.StringIO()):
        us = []
        for i in range(nj):
            u = kc.unknown(TH[i]); u.n = i + 1; us.append(u)
        if rng.random() < 0.3 and nj < 6:
            u = kc.unknown(sp.Symbol('d_%d' % (nj + 1))); u.n = nj + 1; us.insert(rng.randrange(len(us) + 1), u)
        R = ic.Robot(None, 'soa')
    ths = list(TH[:nj])
    digits = lambda s: str(s)[3:]
    def asum():
        m = rng.choice([2, 2, 3])
        if rng.random() < 0.6:
            a = rng.randrange(nj - m + 1); return sum(ths[a:a + m])
        pool = ths + ([u.symbol for u in us if str(u.symbol).startswith('th_') and len(digits(u.symbol)) > 1] if mode == 'sub' else [])
        while True:
            c = rng.sample(pool, min(m, len(pool)))
            d = ''.join(map(digits, c))
            if len(set(d)) == len(d): return sum(c)
            m = 2
    def factor():
        r = rng.random()
        f = rng.choice([sp.sin, sp.cos])
        if r < 0.35: return f(asum())
        if r < 0.42:                     # not sums in the sense of the code: to be left alone
            a, b = rng.sample(ths, 2)
            return f(rng.choice([a - b, a + sp.pi / 4, a + b + sp.pi / 6, 2 * a + b]))
        if r < 0.7: return f(rng.choice(ths))
        if r < 0.8: return sp.Integer(rng.randrange(-3, 4) or 2)
        return rng.choice(PAR)
    def expr():
        if mode == 'matrix':      # the code simplifies first: distinct coefficients, or other forms than sums would arise
            return sum((p * rng.choice([sp.sin, sp.cos])(asum() if rng.random() < 0.6 else rng.choice(ths)) for p in rng.sample(PAR, rng.randrange(1, 4))), sp.Integer(0))
        e = sp.Integer(0)
        for _ in range(rng.randrange(1, 4)):
            t = sp.Integer(1)
            for _ in range(rng.randrange(1, 3)): t = t * factor()
            e = e + t
        return e
    pairs = []
    def solve():                          # meanwhile some unknowns get solved
        for u in us:
            if not u.solved and rng.random() < 0.35:
                u.solved, u.nsolutions, u.solutions = True, 1, [sp.atan2(*sp.symbols('r_21 r_11'))]
                u.solveorder = sum(v.solved for v in us)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if mode == 'sub':
                for _ in range(rng.randrange(2, 9)):
                    e = expr()
                    o = ic.sum_of_angles_sub(R, e, us)[0]
                    it['text'].append('%s -> %s' % (e, o))
                    pairs.append((e, o))
                    it['states'].append(state(R, us, [o], [e]))
                    solve()
            else:
                R.mequation_list = []
                for _ in range(rng.randrange(1, 3)):
                    a, b = sp.zeros(4), sp.zeros(4)
                    for _ in range(rng.randrange(1, 4)): b[rng.randrange(3), rng.randrange(4)] = expr()
                    if rng.random() < 0.5: a[rng.randrange(3), rng.randrange(4)] = expr()
                    R.mequation_list.append(kc.matrix_equation(a, b))
                if rng.random() < 0.3: R.mequation_list.append(kc.matrix_equation(b, a))
                ent = lambda: [x for q in R.mequation_list for m in (q.Td, q.Ts) for x in m]
                for _ in range(2):        # the second time nothing is left to replace
                    e0 = ent()
                    if mode == 'matrix':
                        R.sum_of_angles_transform(us)
                    else:
                        bb = b3.Blackboard()
                        L = R.scan_for_equations(us)
                        for n, l in zip(('eqns_1u', 'eqns_2u', 'eqns_3pu'), L): bb.set(n, l)
                        bb.set('Robot', R); bb.set('unknowns', us); bb.set('curr_unk', us[0])
                        t = b3.BehaviorTree(); t.root = sum_id(); t.tick('', bb)
                        us, R = bb.get('unknowns'), bb.get('Robot')
                    e1 = ent()
                    pairs += list(zip(e0, e1))
                    it['text'].append('%s -> %s' % (e0, e1))
                    it['states'].append(state(R, us, e1, e0 if mode == 'leaf' else None))
                    solve()
                    if rng.random() < 0.5:          # the same sums turn up again
                        q = rng.choice(R.mequation_list)
                        q.Ts[rng.randrange(3), rng.randrange(4)] = expr()
        dh = sp.Matrix([[0, 0, 0, t] for t in TH])
        sums = [(e.LHS, e.RHS) for e in R.kequation_aux_list]
        keep = [p for p in dict.fromkeys(pairs) if p[0] != p[1]]
        it['item'] = kinlib.item(it['name'], dh, [1] * 6, scalars=keep, sums=sums, declared=list(PAR) + list(TH) + [u.symbol for u in us], pvals={}, seed=seed, npts=2)
    except Exception as ex:
        import traceback
        it['err'] = traceback.format_exc()[-700:]
    res.append(it)
json.dump(res, open(out, 'w'))
