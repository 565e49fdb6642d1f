"""The solving methods on generated equations: drv_roots.py OUT.json SEED COUNT"""
import sys, os, json, random, io, contextlib, math, traceback
import memo
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
import sympy as sp
from rows import ev, Out
with contextlib.redirect_stdout(io.StringIO()):
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
    from ikbtleaves.algebra_solver import algebra_id, algebra_solve
    from ikbtleaves.tan_solver import tan_id, tan_solve
    from ikbtleaves.sincos_solver import sincos_id, sincos_solve
    from ikbtleaves.sinANDcos_solver import sinandcos_id, sinandcos_solve
    from ikbtleaves.two_eqn_m7 import simu_id, simu_solver
LEAVES = {1: (algebra_id, algebra_solve), 2: (tan_id, tan_solve), 3: (sincos_id, sincos_solve),
          4: (sinandcos_id, sinandcos_solve), 5: (simu_id, simu_solver)}
S = 4000
sin, cos = sp.sin, sp.cos
POSE = sp.symbols('r_11 r_12 r_13 r_21 r_22 r_23 r_31 r_32 r_33 Px Py Pz')
PAR = sp.symbols('l_1 l_2 a_2 a_3 h')


def fix(x): return max(-90000, min(90000, int(round(x * S))))


def lin(expr, u, angle, env):
    """coefficients of the unknown at a point; lin = 0 if the equation is of another form there"""
    z = {'A': 0, 'B': 0, 'C': 0, 'K': 0, 'lin': 0}
    f = lambda v: ev(expr, {**env, u: v})
    try:
        if angle:
            a, b, c = f(0.0), f(math.pi), f(math.pi / 2)
            K, B = (a + b) / 2, (a - b) / 2
            A = c - K
            if any(abs(f(v) - (A * math.sin(v) + B * math.cos(v) + K)) > 1e-7 for v in (1.1, -2.3, 2.9, -0.4)): return z
            co = {'A': A, 'B': B, 'C': 0, 'K': K}
        else:
            K = f(0.0); C = f(1.0) - K
            if any(abs(f(v) - (C * v + K)) > 1e-7 for v in (2.3, 0.7, 3.1)): return z
            co = {'A': 0, 'B': 0, 'C': C, 'K': K}
    except Out:
        return z
    if max(abs(x) for x in co.values()) > 20:
        m = max(abs(x) for x in co.values()) / 20
        co = {k: x / m for k, x in co.items()}
    d = {k: fix(x) for k, x in co.items()}
    d['lin'] = 1 if max(abs(x) for x in d.values()) > 4 else 0
    return d


def clear(e):
    return e['lin'] == 1 and (abs(e['C']) > 600 or e['A'] ** 2 + e['B'] ** 2 - e['K'] ** 2 > 0.1 * (e['A'] ** 2 + e['B'] ** 2) and e['A'] ** 2 + e['B'] ** 2 > 360000)


def case(k):
    rng = random.Random('roots %d %d' % (seed, k))
    method = k % 5 + 1
    angle = 0 if method == 1 and rng.random() < 0.5 else 1
    names = rng.sample(['th_1', 'th_2', 'th_3', 'th_4', 'th_5', 'th_23', 'd_1', 'd_4'], rng.randrange(2, 6))
    uname = rng.choice(['th_1', 'th_3', 'th_6', 'th_23', 'th_234'] if angle else ['d_1', 'd_3', 'd_6'])
    names = [n for n in names if n != uname]
    names.insert(rng.randrange(len(names) + 1), uname)
    syms = [sp.Symbol(n) for n in names]
    u = sp.Symbol(uname)
    with contextlib.redirect_stdout(io.StringIO()):
        us = [kc.unknown(s) for s in syms]
    for i, x in enumerate(us): x.n = int(str(x.symbol).split('_')[1])
    U = us[syms.index(u)]
    other = [x for x in us if x is not U]
    for x in other:
        if rng.random() < 0.6: x.solved = True; x.solutions = [POSE[0]]; x.nsolutions = 1; x.solveorder = 1
    solved = [x.symbol for x in other if x.solved]
    open_ = [x.symbol for x in other if not x.solved]
    was = rng.random() < 0.06
    plain = not was and rng.random() < 0.6
    free = list(POSE); rng.shuffle(free)
    coefs, free = free[:2], free[2:]
    defs = []                     # pose symbols and what they are
    def fn(s): return rng.choice([sin(s), cos(s)]) if str(s).startswith('th') else s
    def known():
        r = rng.random()
        if r < 0.25: return sp.Integer(rng.choice([1, 2, 3, -1, -2, 1]))
        if r < 0.5: return rng.choice(PAR) * rng.choice([1, 1, -1, 2])
        if r < 0.65 and solved: return fn(rng.choice(solved)) * rng.choice([1, -1, rng.choice(PAR)])
        if r < 0.75: return rng.choice(PAR) + rng.choice(PAR)
        if r < 0.85 and solved: return rng.choice(PAR) * fn(rng.choice(solved)) - rng.choice(PAR)
        if r < 0.93: return sp.Rational(rng.choice([1, 3, 5]), 2)
        return rng.choice(coefs) + rng.choice(PAR)          # a pose entry as a coefficient
    def like(A):                                            # related to the other coefficient or not
        B = rng.choice([A, -A, A, -A, 2 * A, A + rng.choice(PAR)]) if rng.random() < 0.35 else known()
        return B if B != 0 else A
    def eq(e, left=0.0):
        """an equation saying that e is what it is; the unknown on the right side"""
        p = free.pop(0)
        defs.append((p, e))
        if rng.random() < 0.25:
            q = known()
            if not q.has(u): l, r = p - q, e - q
            else: l, r = p, e
        else: l, r = p, e
        if rng.random() < 0.3: l, r = -l, -r
        if rng.random() < 0.2: l, r = sp.Integer(0), r - l
        if rng.random() < left: l, r = r, l
        return l, r
    def offset(): return known() if rng.random() < 0.4 else sp.Integer(0)
    eqs, sure = [], 0
    s, c = sin(u), cos(u)
    f = None
    if method == 1:
        if angle: eqs.append((sp.Integer(0), u + rng.choice([1, -1]) * sum(x for x in solved if str(x).startswith('th')) - sp.Symbol('th_9')))
        else: eqs.append(eq(known() * u + offset(), 0.15))
        sure = 1
    elif method == 2:
        f = fn(rng.choice(open_)) if open_ and rng.random() < 0.4 else sp.Integer(1)
        if f != 1:
            A = known()
            eqs += [eq(f * A * s), eq(f * like(A) * c)]
        else:
            A = known()
            eqs += [eq(A * s + offset()), eq(like(A) * c + offset())]
        sure = 1 if f == 1 else 0
    elif method == 3:
        eqs.append(eq(known() * rng.choice([s, c]) + offset())); sure = 1
    elif method == 4:
        A = known()
        B = like(A)
        if rng.random() < 0.2:
            B = free.pop(0); defs.append((B, -A * s / c)); eqs.append((sp.Integer(0), A * s + B * c))
        else: eqs.append(eq(A * s + B * c + offset(), 0.15))
        sure = 1
    else:
        A = known()
        B = like(A)
        e1, e2 = A * s + B * c + offset(), A * c - B * s + offset()
        if rng.random() < 0.3: e1 = -e1
        if rng.random() < 0.3: e2 = -e2
        eqs += [eq(e1), eq(e2)]
        if rng.random() < 0.5: eqs.reverse()
        sure = 1
    if not plain:
        sure = 0
        for _ in range(rng.randrange(1, 3)):
            v = rng.choice(solved or PAR)
            eqs.insert(rng.randrange(len(eqs) + 1), eq(rng.choice([
                known() * s ** 2 + known() * c, known() * c ** 2, s * c * known(), u * s if angle else u ** 2, sin(2 * u), sp.tan(u) * known(),
                s + known() * u, c * s + s, s ** 3, known() / (3 + s), sp.sqrt(5 + s), cos(u + (v if str(v).startswith('th') else 1)), u ** 2 * known() + u,
                1 / (u + 7), sp.sqrt(u + 9) * known(), u * known(), known() * s, known() * c, known() * s + known() * c]), 0.2))
    for _ in range(rng.randrange(0, 3)):       # equations of others
        if free:
            v = rng.choice(open_ + solved + [u])
            e = known() * fn(v) + (known() * fn(rng.choice(open_)) if open_ and rng.random() < 0.7 else 0)
            if not e.has(u): eqs.insert(rng.randrange(len(eqs) + 1), eq(e))
    it = {'name': 'method %d, case %d.%d' % (method, seed, k), 'err': '', 'method': method, 'angle': angle, 'sure': 0, 'was': int(was), 'id': 0, 'solve': 0,
          'two': 0, 'own': 0, 'foreign': 0, 'others': 0, 'touched': 0, 'nsol': 0, 'count': 0, 'flag': 0, 'pts': [],
          'text': ['unknown %s, unsolved %s' % (u, open_)] + ['%s = %s' % e for e in eqs]}
    if len(free) < 1 or len(eqs) > 12: return None
    with contextlib.redirect_stdout(io.StringIO()):
        a, b = sp.zeros(4), sp.zeros(4)
        for i, (l, r) in enumerate(eqs): a[i // 4, i % 4], b[i // 4, i % 4] = l, r
        R = ic.Robot(None, 'roots')
        R.mequation_list = [kc.matrix_equation(a, b)]
        R.kequation_aux_list = []
        bb = b3.Blackboard()
        bb.set('Robot', R); bb.set('unknowns', us); bb.set('curr_unk', U); bb.set('Tm', R.mequation_list[0])
        if was: U.solved = True; U.solutions = [POSE[1]]; U.nsolutions = 1; U.solveorder = 1
        L = R.scan_for_equations(us)
        for n, l in zip(('eqns_1u', 'eqns_2u', 'eqns_3pu'), L): bb.set(n, l)
        state = lambda x: (str(x.symbol), x.solved, [str(t) for t in x.solutions], x.nsolutions, x.solveorder, x.solvable_tan, x.solvable_sincos, x.readytosolve)
        before = [state(x) for x in other]
        ubefore = state(U)[:5]
        try:
            t = b3.BehaviorTree(); t.root = LEAVES[method][0]()
            it['id'] = int(t.tick('', bb))
            if it['id'] == 1:
                t = b3.BehaviorTree(); t.root = LEAVES[method][1]()
                it['solve'] = int(t.tick('', bb))
        except Exception as ex:
            it['err'] = '%s: %s' % (it['text'], traceback.format_exc()[-500:])
            return it
    it['sure'] = sure
    it['others'] = 1 if [state(x) for x in other] != before else 0
    it['touched'] = 1 if state(U)[:5] != ubefore else 0
    sols = [] if was else list(U.solutions)
    it['count'], it['flag'] = len(sols), 1 if U.solved and not was else 0
    it['nsol'] = int(U.nsolutions) if it['id'] == 1 and it['solve'] == 1 else len(sols)
    it['text'] += ['solution %s' % x for x in sols] + ['from %s, %s' % (U.eqntosolve, U.secondeqn)]
    it['own'] = 1 if any(x.has(u) for x in sols) else 0
    it['foreign'] = 1 if any(x.has(o) for x in sols for o in open_) else 0
    if method == 2 and len(sols) == 2: it['two'] = 1
    if not (it['id'] == 1 and it['solve'] == 1) or was: return it
    chosen = [U.eqntosolve] + ([U.secondeqn] if method in (2, 5) else [])
    if any(q is None for q in chosen): it['err'] = 'no equation recorded: %s' % it['text']; return it
    ce = [sp.sympify(q.RHS) - sp.sympify(q.LHS) for q in chosen]
    ge = [r - l for l, r in eqs if (r - l).has(u)]
    for _ in range(5):
        for tries in range(200):
            env = {p: rng.choice([-1, 1]) * rng.uniform(0.4, 2.5) for p in POSE}
            env.update({p: rng.choice([1, 1, -1]) * rng.uniform(0.5, 2.5) for p in PAR})
            env.update({x: rng.uniform(-3, 3) if str(x).startswith('th') else rng.uniform(0.5, 2.5) for x in syms + [sp.Symbol('th_9')]})
            if method == 1 and angle: env[sp.Symbol('th_9')] = ev(env_expr(eqs[[i for i, e in enumerate(eqs) if e[1].has(sp.Symbol('th_9'))][0]], u), env)
            try:
                for p, e in defs: env[p] = ev(sp.sympify(e), env)
                g = [lin(e, u, angle, env) for e in ge]
                ch = [lin(e, u, angle, env) for e in ce]
            except Out: continue
            if all(clear(e) for e in ch + g if e['lin'] == 1) and all(abs(math.sin(env[x])) > 0.15 and abs(math.cos(env[x])) > 0.15 for x in syms if str(x).startswith('th')): break
        else: continue
        tv = env[u]
        rec = lambda v: {'s': fix(math.sin(v)), 'c': fix(math.cos(v)), 'u': fix(v) if not angle else 0}
        ps = []
        for x in sols:
            e2 = dict(env); e2[u] = None
            try:
                v = ev(x, e2)
                res = max(abs(ev(q, {**env, u: v})) for q in ce)
                ps.append(dict(rec(v), real=1, res=fix(res)))
            except Out:
                ps.append(dict(rec(0.0), real=0, res=0))
        it['pts'].append({'given': g, 'chosen': ch, 'true': rec(tv), 'sols': ps, 'clear': 1})
    return it


def env_expr(e, u):
    """the value of th_9 that makes the equation true"""
    x = sp.Symbol('th_9')
    return sp.solve(e[1] - e[0], x)[0]


res = []
for k in range(count):
    x = case(k)
    if x is not None: res.append(x)
json.dump(res, open(out, 'w'))
