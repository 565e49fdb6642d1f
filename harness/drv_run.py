"""Run the solver on robots and write what the specifications need.
drv_run.py OUT.json SEED WHAT NAME [NAME ...]     WHAT: comma separated of proc,sets,rows[,deep],scan,eqs,soa,code
NAME: a robot of the table, or a made one (see table)"""
import sys, os, json, random, math, io, contextlib, tempfile, shutil, traceback, re
out, seed, what, names = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(','), sys.argv[4:]
import numpy as np
import sympy as sp
import pipe, kinlib, scanobs, soaobs
from rows import *
from setobs import sets
with contextlib.redirect_stdout(io.StringIO()):
    import ikbtfunctions.ik_robots as ir
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
S = 10000


def table(name):
    if name.startswith('random:'):                    # every kind of joint, twist and offset
        rng = random.Random('mech %s' % name)
        while True:
            dh, vv, params, us = kinlib.random_mechanism(rng)
            if any(dh[i, 0] == sp.pi for i in range(6)): continue        # differences of angles are not supported
            if not (dh[0, 2] != 0 or dh[0, 3] != 0): continue
            n = len(us)
            if not all(dh[i, 2] != 0 or dh[i, 3] != 0 for i in range(n)): continue
            if any(dh[i, 2] != 0 or dh[i, 3] != 0 for i in range(n, 6)): continue
            break
        unks = []
        with contextlib.redirect_stdout(io.StringIO()):
            for s, n in us:
                u = kc.unknown(s); u.n = n; unks.append(u)
        return dh, vv, params, {q: round(0.5 + 0.37 * i + rng.random(), 3) for i, q in enumerate(params)}, unks
    if name.startswith('fold:'):                      # a slide and two parallel joints: one angle from a single sine or cosine with any coefficient
        k = int(name[5:])
        off = [0, sp.pi / 2, sp.pi, -sp.pi / 2][k % 4]
        a3 = [1, 2, sp.Symbol('l_3')][k // 4 % 3]
        tw = [sp.pi / 2, -sp.pi / 2][k // 12 % 2]
        rows = [[[0, sp.pi / 6, 0][k % 3], [2, 0, 1][(k + k // 4) % 3], sp.Symbol('d_1'), 0], [tw, [2, 0, 1][k // 2 % 3], [1, 0, 3][(k + k // 3) % 3], sp.Symbol('th_2') + off], [0, a3, 0, sp.Symbol('th_3')]]
        if rows[0][0] == 0 and k % 5 < 2: rows[0][1] = 2
        unks = []
        with contextlib.redirect_stdout(io.StringIO()):
            for i, q in enumerate(('d_1', 'th_2', 'th_3')):
                u = kc.unknown(sp.Symbol(q)); u.n = i + 1; unks.append(u)
        dh = sp.Matrix(rows + [[0, 0, 0, 0]] * 3)
        params = sorted((s for s in dh.free_symbols if str(s) == 'l_3'), key=str)
        return dh, [0, 1, 1, 1, 1, 1], params, {s: 1.7 for s in params}, unks
    if name.startswith('twist:'):                     # arms with twists of every size and sign (forward kinematics only)
        dh, vv, params, pvals, unks = table('random:' + name[6:])
        rng = random.Random(name)
        odd = [sp.Float(-0.4), -sp.pi / 3, sp.Float(2.2), -2 * sp.pi / 3, -sp.pi / 5, 3 * sp.pi / 4, sp.pi / 7, -3 * sp.pi / 4, sp.Symbol('La_1'), sp.pi / 3, sp.Float(1.1)]
        k = int(name[6:]) % len(odd)
        dh = dh.copy()
        for i, al in zip(sorted(rng.sample(range(len(unks)), min(2, len(unks)))), (odd[k], odd[(3 * k + 4) % len(odd)])): dh[i, 0] = al
        if dh.has(sp.Symbol('La_1')): params = list(params) + [sp.Symbol('La_1')]; pvals = dict(pvals, **{}); pvals[sp.Symbol('La_1')] = -0.7
        return dh, vv, params, pvals, unks
    if name.startswith('alt:'):                       # what a description may say about the values of its parameters
        k = int(name[4:])
        dh, vv, params, pvals, unks = table('random:%d' % k if k % 2 else 'twist:%d' % k)
        rng = random.Random(name)
        other = [-1.3, sp.Rational(-3, 7), sp.sqrt(2), -2, np.float64(0.81), -sp.pi / 3, 1e-3, 250]
        v = {q: other[(i + k) % len(other)] for i, q in enumerate(sorted(pvals, key=str))}
        if k % 3 == 0: v = {}                         # nothing
        if k % 3 == 1:                                # not everything
            for q in sorted(v, key=str)[k % 2::2]: del v[q]
        return dh, vv, params, v, unks
    with contextlib.redirect_stdout(io.StringIO()):
        return ir.robot_params(name)


def fix(x):
    x = float(x)
    return max(-2000000, min(2000000, int(round(x * S))))


def poses(r, dh, js, angles, npose, rng):
    R = r.robot
    pv = dict(R.Mech.pvals)
    res = []
    vers = getattr(R, 'FinalEqnMatrix', [])
    for _ in range(npose):
        for tries in range(60):          # away from singular positions
            env, drows, T = setup(dh, js, R.params, pv, rng)
            sv = singular(dh, js, env)
            if sv > 0.05 or (sv < 1e-7 and tries > 5): break
        e = dict(env)
        for u in r.unknowns: e[u.symbol] = None
        for s in js: e[s] = None
        todo = [q for row in vers for q in row]
        for q in todo: e[q.LHS] = None
        # every version by its own equation, in dependency order
        progress = True
        status = {}
        while progress and todo:
            progress = False
            for q in list(todo):
                if all(str(s) in status or s not in [p.LHS for p in todo] for s in q.RHS.free_symbols):
                    todo.remove(q); progress = True
                    try: e[q.LHS] = ev(sp.sympify(q.RHS), e); status[str(q.LHS)] = ''
                    except Out as ex: e[q.LHS] = None; status[str(q.LHS)] = str(ex)
        rows = []
        for nm in R.solListMatrix:
            d = {}
            for v in nm:
                d[str(v).rsplit('v', 1)[0]] = e.get(sp.Symbol(str(v)))
            row = {'real': 1, 'q': [], 'soa': [], 'links': []}
            e2 = dict(env)
            for s in js: e2[s] = d.get(str(s))
            if any(e2[s] is None for s in js) or any(x is None for x in d.values()):
                row['real'] = 0
            else:
                row['links'] = [[fix(math.cos(a)), fix(math.sin(a)), fix(b), fix(c), fix(math.cos(t)), fix(math.sin(t))]
                                for a, b, c, t in dh_rows(dh, e2)]
                row['q'] = [[1, fix(math.cos(e2[s])), fix(math.sin(e2[s]))] if s in angles else [0, fix(e2[s]), 0] for s in js]
                for l, x in R.kequation_aux_pairs:
                    try: val = ev(x, {**e2, **{sp.Symbol(k): v for k, v in d.items()}})
                    except Out: continue
                    if d.get(str(l)) is not None:
                        row['soa'].append([fix(math.cos(d[str(l)])), fix(math.sin(d[str(l)])), fix(math.cos(val)), fix(math.sin(val))])
            rows.append(row)
        res.append({'true': [[1, fix(math.cos(env[s])), fix(math.sin(env[s]))] if s in angles else [0, fix(env[s]), 0] for s in js],
                    'links': [[fix(math.cos(a)), fix(math.sin(a)), fix(b), fix(c), fix(math.cos(t)), fix(math.sin(t))] for a, b, c, t in drows],
                    'pose': [fix(T[i, j]) for i in range(3) for j in range(4)], 'rows': rows,
                    'indep': 1 if sv > 1e-6 else 0, 'text': ', '.join('%s=%.4f' % (s, env[s]) for s in js)})
    return res


def scan_record(r):
    """every call of scan_for_equations: what went in and what came out"""
    calls = []
    orig = ic.Robot.scan_for_equations
    def scan(self, variables):
        M = [(q.Td.copy(), q.Ts.copy()) for q in self.mequation_list]
        aux = [(e.LHS, e.RHS) for e in self.kequation_aux_list]
        sol = [(u.symbol, bool(u.solved)) for u in variables]
        L = orig(self, variables)
        calls.append((M, aux, sol, [[(e.LHS, e.RHS) for e in l] for l in L], 'scan'))
        return L
    ic.Robot.scan_for_equations = scan
    return calls, orig


def one(name):
    x = {'name': name, 'err': '', 'skip': ''}
    d = tempfile.mkdtemp(prefix='run.')
    cwd = os.getcwd()
    os.chdir(d)
    calls, orig = scan_record(None)
    try:
        dh, vv, params, pvals, unks = table(name)
        x['dh'] = [[str(dh[i, j]) for j in range(4)] for i in range(6)]
        js = [u.symbol for u in unks if any(u.symbol in dh[i, j].free_symbols for i in range(6) for j in range(4))]
        angles = [s for s in js if any(s in dh[i, 3].free_symbols for i in range(6))]
        x['joints'] = [str(s) for s in js]
        rname = name.replace('random:', 'Random').replace('fold:', 'Fold').replace('alt:', 'Alt')
        r = pipe.run(rname, mech=(dh, vv, params, pvals, unks) if ':' in name else None, keep_lists=any(w in what for w in ('eqs', 'scan', 'soa')))
        if r.err: x['err'] = r.err; return x
        R = r.robot
        if R is None:
            x['err'] = 'the solver did not start: %s %s' % (r.exit, r.out.getvalue()[-300:]); return x
        R.kequation_aux_pairs = [(e.LHS, e.RHS) for e in R.kequation_aux_list if getattr(e.LHS, 'is_Symbol', False) and str(e.LHS) in [str(u.symbol) for u in r.unknowns]]
        x['bt'] = int(r.bt) if r.bt in (1, 2, 3, 4) else 0
        x['exit'] = r.exit or ''
        x['done'] = r.done
        x['unknowns'] = [str(u.symbol) for u in r.unknowns]
        x['declared'] = len(js)
        x['solvedall'] = all(u.solved for u in r.unknowns)
        x['final'] = [[1 if u.solved else 0, int(u.solveorder), int(u.nsolutions), len(u.solutions)] for u in r.unknowns]
        if 'proc' in what:
            x['events'] = r.events
            x['nothing'], x['reported'] = r.nothing, r.reported
        if 'sets' in what:
            x['sets'] = sets(r)
        if 'rows' in what and getattr(R, 'FinalEqnMatrix', None) and all(R_solved(r, s) for s in js):
            rng = random.Random('%s %d' % (name, seed))
            x['poses'] = poses(r, dh, js, angles, 12 if 'deep' in what else 4, rng)
        if 'scan' in what:
            x['scan'] = scanobs.encode(calls, r)
        if 'eqs' in what:
            x['item'] = eqs(r, dh, vv, calls, params, name)
        if 'soa' in what:
            x['soa'] = []
            for st in [r.first] + [y['after'] for y in r.lists]:
                q = soaobs.state_of(st['aux'], st['syms'], [e for m in st['M'] for t in m for e in t])
                if q not in x['soa']: x['soa'].append(q)
        if 'report' in what and getattr(R, 'FinalEqnMatrix', None):
            import reportobs
            y = reportobs.ik_report(r, dh, js, vv, seed, 'LaTex/ik_solution_%s.tex' % rname)
            if y: x['report'], x['notes'] = y
        if 'code' in what:
            import codeobs
            x['code'] = codeobs.observe(r, dh, js, angles, seed, what)
        return x
    except kinlib.Unsupported as ex:
        x['skip'] = str(ex)
    except (Exception, SystemExit) as ex:
        x['err'] = 'harness: %s' % traceback.format_exc()[-1500:]
    finally:
        ic.Robot.scan_for_equations = orig
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return x


def R_solved(r, s):
    return any(u.symbol == s and u.solved for u in r.unknowns)


def eqs(r, dh, vv, calls, params, name):
    """all equations of the run, each once, in order of appearance"""
    R = r.robot
    pairs, seen, note = [], set(), []
    def add(l, rr, where):
        l, rr = sp.sympify(l), sp.sympify(rr)
        k = (l, rr)
        if k in seen: return
        seen.add(k); pairs.append(k); note.append('%s: %s = %s' % (where, l, rr))
    for M, aux, sol, L, nm in calls:
        for q in M:
            for i in range(3):
                for j in range(4): add(q[0][i, j], q[1][i, j], 'matrix equation')
        for l in L:
            for a, b in l: add(a, b, 'scan')
    for s in [{'after': r.first, 'leaf': 'first'}] + r.lists:
        for l in s['after']['L']:
            for a, b in l: add(a, b, 'list after ' + s['leaf'])
        for a, b in s['after']['aux']: add(a, b, 'aux after ' + s['leaf'])
        for q in s['after']['M']:
            for i in range(3):
                for j in range(4): add(q[0][i, j], q[1][i, j], 'matrix equation after ' + s['leaf'])
    for u in r.unknowns:
        for e in (u.eqntosolve, u.secondeqn):
            if e is not None: add(e.LHS, e.RHS, 'equation solved for %s' % u.symbol)
    sums = [(l, x) for l, x in R.kequation_aux_pairs]
    it = kinlib.item(name, dh, vv, scalars=pairs, sums=sums, declared=list(params) + [u.symbol for u in r.unknowns],
                     pvals=R.Mech.pvals, seed=seed, npts=2)
    it['notes'] = note
    return it


res = [one(n) for n in names]
json.dump(res, open(out, 'w'))
