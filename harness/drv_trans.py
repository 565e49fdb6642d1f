"""The equation transforms on random mechanisms, in random orders and with random unknowns solved:
drv_trans.py OUT.json SEED COUNT BUDGET(s) [small]"""
import sys, os, json, random, io, contextlib, tempfile, shutil, traceback
import memo
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
budget = float(sys.argv[4])
small = len(sys.argv) > 5
import sympy as sp
import kinlib
from soaobs import state
with contextlib.redirect_stdout(io.StringIO()):
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
    from ikbtleaves.sum_id import sum_id
    from ikbtleaves.sub_transform import sub_transform
    from ikbtleaves.x2y2_transform import x2z2_transform
    from ikbtleaves.updateL import updateL
S = sp.Symbol


def elbow(rng):
    """an arm with two parallel axes after the first, as the squared sums need"""
    n = 3 if small else rng.choice([3, 3, 4])
    rows, us, vv = [], [], []
    off = rng.randrange(2)
    for i in range(6):
        al = [0, rng.choice([sp.pi / 2, -sp.pi / 2]), 0, rng.choice([0, sp.pi / 2])][i] if i < n else 0
        a = [0, rng.choice([0, S('a_2')]), S('a_3'), rng.choice([0, S('a_4')])][i] if i < n else (S('l_5') if i == n and rng.random() < 0.8 else 0)
        d = rng.choice([0, S('l_%d' % (i + 1))]) if i < n else (rng.choice([0, S('l_6')]) if i == n else 0)
        th = 0
        if i < n:
            th = S('th_%d' % (i + 1)); us.append((th, i + 1))
        vv.append(1)
        rows.append([al, a, d, th])
    dh = sp.Matrix(rows)
    s = set(u for u, _ in us)
    return dh, vv, sorted((x for x in dh.free_symbols if x not in s), key=str), us


def mechanism(rng):
    if rng.random() < 0.5: return elbow(rng)
    while True:
        dh, vv, params, us = kinlib.random_mechanism(rng)
        if small and len(us) > 3: continue
        if not any(dh[i, 2] != 0 or dh[i, 3] != 0 for i in range(6)): continue
        if sum(1 for s, n in us if str(s).startswith('th')) >= 4 and all(dh[i, 0] == 0 for i in range(1, 4)): continue
        return dh, vv, params, us


res = []
cwd = os.getcwd()
import time
start = time.time()
for k in range(count):
    if time.time() - start > budget: break
    rng = random.Random('trans %d %d' % (seed, k))
    it = {'name': 'trans %d %d' % (seed, k), 'err': '', 'item': None, 'soa': [], 'text': []}
    d = tempfile.mkdtemp(prefix='tr.')
    os.chdir(d)
    try:
        dh, vv, params, us = mechanism(rng)
        declared = list(params)
        pvals = {q: 0.3 + 0.41 * i for i, q in enumerate(params)}
        it['text'].append('%s %s' % (dh.tolist(), vv))
        pairs, seen, notes = [], set(), []
        with contextlib.redirect_stdout(io.StringIO()):
            unks = []
            for s, n in us:
                u = kc.unknown(s); u.n = n; unks.append(u)
            M, R, unks = ic.kinematics_pickle('Random', dh, params, pvals, vv, unks, False)
            bb = b3.Blackboard()
            bb.set('Robot', R); bb.set('unknowns', unks)
            def lists(L):
                for n, l in zip(('eqns_1u', 'eqns_2u', 'eqns_3pu'), L): bb.set(n, l)
            def note(where):
                eq = [(q.Td[i, j], q.Ts[i, j]) for q in R.mequation_list for i in range(3) for j in range(4)]
                eq += [(e.LHS, e.RHS) for e in R.kequation_aux_list]
                for n in ('eqns_1u', 'eqns_2u', 'eqns_3pu'): eq += [(e.LHS, e.RHS) for e in bb.get(n) or []]
                for a, b in eq:
                    a, b = sp.sympify(a), sp.sympify(b)
                    if (a, b) not in seen:
                        seen.add((a, b)); pairs.append((a, b)); notes.append('%s: %s = %s' % (where, a, b))
            note('derivation')
            lists(R.scan_for_equations(unks))
            for step in range(rng.randrange(3, 7)):
                for u in unks:
                    if not u.solved and rng.random() < 0.3: u.solved = True; it['text'].append('solved %s' % u.symbol)
                open_ = [u for u in unks if not u.solved]
                bb.set('curr_unk', rng.choice(open_ or unks))
                op = rng.choice(['sub', 'x2z2', 'x2z2', 'sum', 'update', 'scan'])
                if op == 'scan': lists(R.scan_for_equations(unks)); note('scan'); continue
                if op == 'x2z2':
                    c = [u for u in unks if str(u.symbol) in ('th_2', 'th_3')]
                    if c: bb.set('curr_unk', rng.choice(c))
                leaf = {'sub': sub_transform, 'x2z2': x2z2_transform, 'sum': sum_id, 'update': updateL}[op]()
                t = b3.BehaviorTree(); t.root = leaf
                st = t.tick('', bb)
                unks, R = bb.get('unknowns'), bb.get('Robot')
                it['text'].append('%s -> %s' % (op, st))
                note(op)
                it['soa'].append(state(R, unks, [x for q in R.mequation_list for m in (q.Td, q.Ts) for x in m], None))
        sums = [(e.LHS, e.RHS) for e in R.kequation_aux_list if getattr(e.LHS, 'is_Symbol', False) and str(e.LHS) in [str(u.symbol) for u in unks]]
        it['item'] = kinlib.item(it['name'], dh, vv, scalars=pairs, sums=sums, declared=declared + [u.symbol for u in unks], pvals=M.pvals, seed=seed, npts=2)
        it['item']['notes'] = notes
    except kinlib.Unsupported as ex:
        it['text'].append('skipped: %s' % ex)
    except Exception as ex:
        it['err'] = '%s: %s' % (it['text'], traceback.format_exc()[-900:])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    res.append(it)
json.dump(res, open(out, 'w'))
