"""Lookups in the robot table: drv_robots.py OUT.json SEED COUNT"""
import sys, os, json, random, io, contextlib, traceback, re
import memo
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
import numpy as np
import sympy as sp
import kinlib
o = io.StringIO()
with contextlib.redirect_stdout(o):
    import ikbtfunctions.ik_robots as ir


def forked(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try: x = f()
        except BaseException: x = {'fail': traceback.format_exc()[-600:]}
        os.write(w, json.dumps(x).encode()) if len(json.dumps(x)) < 60000 else os.write(w, b'{"fail": "long"}')
        os._exit(0)
    os.close(w)
    b = b''
    while True:
        c = os.read(r, 65536)
        if not c: break
        b += c
    os.waitpid(pid, 0)
    return json.loads(b)


def quiet(f, *a):
    o = io.StringIO()
    with contextlib.redirect_stdout(o): return f(*a)


def listed():
    """the names the refusal of an unknown name prints"""
    o = io.StringIO()
    try:
        with contextlib.redirect_stdout(o): ir.robot_params('no such robot')
    except SystemExit: pass
    return sorted(set(l.strip() for l in o.getvalue().split('\n')[2:] if l.strip()))


def look(name):
    try: x = quiet(ir.robot_params, name)
    except SystemExit: return None
    return x


def digest(x):
    if x is None: return 'refused'
    dh, vv, params, pvals, us = x
    return repr([sp.srepr(sp.Matrix(dh)), [int(v) for v in vv], [str(p) for p in params], sorted((str(k), str(v)) for k, v in pvals.items()),
                 [(str(u.symbol), int(u.n), bool(u.solved), len(u.solutions), int(u.nsolutions)) for u in us]])


def encode(name):
    x = look(name)
    if x is None: return {'ok': 0, 'digest': '', 'rows': [], 'width': 4, 'types': [], 'unknowns': [], 'params': [], 'valued': [], 'numeric': 1}
    dh, vv, params, pvals, us = x
    ids = {}
    num = lambda s: ids.setdefault(str(s), len(ids) + 1)
    syms = lambda e: sorted(num(s) for s in getattr(sp.sympify(e), 'free_symbols', ()))
    rows = [dict(zip(('al', 'a', 'd', 'th'), [syms(dh[i, j]) for j in range(4)])) for i in range(dh.shape[0])]
    numeric = 1
    pv = {str(k): v for k, v in pvals.items()}
    for v in pvals.values():
        try: kinlib.parse_num(v, {sp.Symbol(k): w for k, w in pv.items()})
        except Exception: numeric = 0
    return {'ok': 1, 'digest': digest(x), 'rows': rows, 'width': int(dh.shape[1]), 'types': [int(v) for v in vv],
            'unknowns': [{'sym': num(u.symbol), 'n': int(u.n), 'solved': int(bool(u.solved)), 'nsol': len(u.solutions), 'letter': re.match('[a-z]*', str(u.symbol)).group()} for u in us],
            'params': [num(p) for p in params], 'valued': sorted(num(k) for k in pvals), 'numeric': numeric}


def spoil(x, rng):
    """what a run does with what it was given"""
    dh, vv, params, pvals, us = x
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(6)
        if k == 0: dh[rng.randrange(6), rng.randrange(4)] = sp.Symbol('spoilt')
        elif k == 1: vv[rng.randrange(len(vv))] = 7
        elif k == 2: params.append(sp.Symbol('ca_1'))
        elif k == 3: pvals[sp.Symbol('l_1')] = 99
        elif k == 4: u = rng.choice(us); u.solved = True; u.solutions = [sp.Symbol('Px')]; u.nsolutions = 1
        else: us.append(us[0])


names = forked(listed)
res = {'names': names, 'err': ''}
tabs = [forked(lambda n=n: encode(n)) for n in names]
for n, t in zip(names, tabs):
    if 'fail' in t: res['err'] += '%s: %s; ' % (n, t['fail'])
wrong = ['puma', 'Pum', 'Puma ', '', 'UR', 'Wris', 'Unknown', 'wrist', 'KR6', 'PumaOffset', 'Arm_', 'Raven', 'Chair', ' Wrist']
if not res['err']:
    dig = [t.pop('digest') for t in tabs]
    rep = [dig.index(d) + 1 for d in dig]
    rng = random.Random('robots %d' % seed)
    def history(k):
        r = random.Random('robots %d %d' % (seed, k))
        def f():
            h = []
            order = names[:] if k % 3 else [r.choice(names) for _ in range(30)]
            r.shuffle(order)
            if k % 3 == 2: order = [n for n in order for _ in range(2)]
            if k % 4 == 0: order = [n for n in order for n in ([n, r.choice(wrong)] if r.random() < 0.3 else [n])]
            for n in order:
                x = look(n)
                d = digest(x)
                h.append([names.index(n) + 1 if n in names else 0, 0 if d == 'refused' else rep[dig.index(d)] if d in dig else -1])
                if x is not None and r.random() < 0.6: spoil(x, r)
            return h
        return forked(f)
    hs = [history(k) for k in range(count)]
    for h in hs:
        if isinstance(h, dict): res['err'] += h['fail']
    res.update(tables=tabs, rep=rep, histories=[h for h in hs if not isinstance(h, dict)])
json.dump(res, open(out, 'w'))
