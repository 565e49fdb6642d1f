"""The ranking leaf on all small pairs of outcomes: drv_rank.py OUT.json MAXSOL MAXVAR"""
import sys, os, json, io, contextlib, itertools
import memo
out, maxsol, maxvar = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
import sympy as sp
with contextlib.redirect_stdout(io.StringIO()):
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
    from ikbtleaves.rank_leaf import rank
cases = []
syms = sp.symbols('th_2 th_3 th_4 th_5 th_6')
for nsc, ntan, vsc, vtan, shared, first in itertools.product(range(maxsol + 1), range(maxsol + 1), range(maxvar + 1), range(maxvar + 1), (0, 1), (0, 1)):
    if (nsc == 0 and vsc) or (ntan == 0 and vtan): continue
    c = {'nsc': nsc, 'ntan': ntan, 'vsc': vsc, 'vtan': vtan, 'err': ''}
    with contextlib.redirect_stdout(io.StringIO()):
        u = kc.unknown(sp.Symbol('th_1'))
        us = [u] + [kc.unknown(s) for s in syms]
        for v in us[1:]: v.solved, v.nsolutions = True, 1
        e = [kc.kequation(sp.Integer(i), u.symbol) for i in range(3)]
        # the later branches mention more unknowns than the first: only the first counts
        sc = [sum((sp.sin(s) for s in syms[:vsc]), sp.Integer(10)) + i + (sum((sp.sin(s) for s in syms), sp.Integer(0)) if i else 0) for i in range(nsc)]
        tn = [sum((sp.cos(s) for s in (syms if shared else syms[::-1])[:vtan]), sp.Integer(20)) + i + (sum((sp.sin(s) for s in syms), sp.Integer(0)) if i else 0) for i in range(ntan)]
        u.sincos_solutions, u.tan_solutions = list(sc), list(tn)
        u.sincos_eqnlist, u.tan_eqnlist = [e[0]], [e[1], e[2]]
        u.solutions = (tn + sc) if first else (sc + tn)
        if ntan and not nsc: u.eqntosolve, u.secondeqn = e[1], e[2]
        if nsc and not ntan: u.eqntosolve = e[0]
        u.nsolutions = len(u.solutions)
        R = ic.Robot(None, 'rank'); R.solveN = 5
        bb = b3.Blackboard(); bb.set('curr_unk', u); bb.set('unknowns', us); bb.set('Robot', R)
        t = b3.BehaviorTree(); t.root = rank()
        try:
            c['st'] = int(t.tick('', bb))
        except Exception as ex:
            c['err'] = repr(ex)[:200]; c['st'] = 0
    sols = list(u.solutions or [])
    c['took'] = 'sc' if sols == sc and sc else 'tan' if sols == tn and tn else 'none' if not sols else 'other'
    c['solved'] = 1 if u.solved else 0
    c['eq'] = 'sc' if u.eqntosolve is e[0] else 'tan' if u.eqntosolve is e[1] and u.secondeqn is e[2] else 'none' if u.eqntosolve is None else 'other'
    c['n'] = int(u.nsolutions or 0) if u.solved else 0
    c['nodes'] = len(R.solution_nodes)
    c['cur'] = 1 if bb.get('curr_unk') is u else 0
    cases.append(c)
json.dump(cases, open(out, 'w'))
