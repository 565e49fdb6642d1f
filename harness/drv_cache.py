"""The store of computed kinematics: histories of runs in a real directory, interrupted and interleaved.
drv_cache.py OUT.json SEED COUNT PART PARTS
Every run is a forked process.  Interruptions: it ends before its n-th file operation (audit events of the
interpreter), or when one of its files reaches k bytes (a file size limit: killed, or the write fails).
It is suspended before its n-th file operation while others run."""
import re, sys, os, json, random, io, contextlib, signal, resource, tempfile, shutil, hashlib, traceback, math
out, seed, count, part, parts = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
import sympy as sp
import pipe
from objtext import text
with contextlib.redirect_stdout(io.StringIO()):
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
th_1, d_2, th_2, th_3, l_1, l_2, a_2 = sp.symbols('th_1 d_2 th_2 th_3 l_1 l_2 a_2')
Z = [0, 0, 0, 0]
TABLES = {1: [[0, 0, l_1, th_1], [-sp.pi / 2, 0, d_2, 0]] + [Z] * 4,
          2: [[0, 0, l_1, th_1], [-sp.pi / 2, a_2, d_2, 0]] + [Z] * 4,
          3: [[0, 0, l_1, th_1], [sp.pi / 2, 0, d_2, 0]] + [Z] * 4,
          5: [[0, 0, 0, th_1], [-sp.pi / 2, 0, 0, th_2], [0, l_1, 0, th_3], [0, a_2, 0, 0]] + [Z] * 2,        # a sum of angles
          6: [[0, 0, l_1, th_1], [5 * sp.pi / 12, 0, 0, th_2], [0, a_2, 0, th_3]] + [Z] * 3}                # and a twist with a name
VALUES = {0: {l_1: 1.5, a_2: 0.7}, 1: {l_1: 2.25, a_2: 0.9}, 2: {}, 3: {a_2: 0.4}}       # some descriptions have no values, or not all


def table(t, v):
    dh = sp.Matrix(TABLES[t])
    us = []
    for s, n in ((th_1, 1), (d_2, 2)) if t < 5 else ((th_1, 1), (th_2, 2), (th_3, 3)):
        u = kc.unknown(s); u.n = n; us.append(u)
    ps = [s for s in (l_1, a_2) if dh.has(s)]
    return dh, [1, int(t > 4), 1, 1, 1, 1], ps, {s: VALUES[v][s] for s in ps if s in VALUES[v]}, us


def work(name, t, v):
    """what a run of the programs does first (ikSolver.py, fkOnly.py)"""
    dh, vv, params, pvals, us = table(t, v)
    m, R, us = ic.kinematics_pickle(name, dh, params, pvals, vv, us, False)
    ic.check_the_pickle(m.DH, dh)
    return 'works', hashlib.sha1(('%s|%s|%s' % (text(m), text(R), text(us))).encode()).hexdigest()


def outputs():
    return {os.path.join(d, f): os.stat(os.path.join(d, f)).st_mtime_ns for b in ('CodeGen', 'LaTex') for d, _, fs in os.walk(b) for f in fs}


def solve(name, t, v):
    """the whole solver"""
    dh, vv, params, pvals, us = table(t, v)
    before = outputs()
    r = pipe.run(name, mech=(dh, vv, params, pvals, us), keep_lists=False, cached=True)
    after = outputs()
    made = sorted(f for f in after if name in f)
    if r.err: return 'error', r.err[-300:]
    if r.bt is None: return ('refused', '') if before == after else ('late', str(made))
    R = r.robot
    return 'works', hashlib.sha1(repr([(str(u.symbol), [str(s) for s in u.solutions], u.solveorder) for u in r.unknowns] +
                                      [str(q.RHS) for row in R.FinalEqnMatrix for q in row] + [text(R.Mech.pvals), made]).encode()).hexdigest()


def fkonly(name, t, v):
    """the forward kinematics program"""
    import runpy
    import ikbtfunctions.ik_robots as ir
    before = outputs()
    orig, av = ir.robot_params, sys.argv
    ir.robot_params = lambda n: list(table(t, v))
    sys.argv = ['fkOnly.py', name]
    try: runpy.run_path(os.path.join(pipe.REPO, 'fkOnly.py'), run_name='fk_script')
    except SystemExit:
        after = outputs()
        return ('refused', '') if before == after else ('late', str(sorted(after)))
    finally: ir.robot_params, sys.argv = orig, av
    after = outputs()
    made = [f for f in sorted(after) if before.get(f) != after[f]]
    strip = lambda b: b'\n'.join(l for l in b.split(b'\n') if not re.search(rb'\d\d:\d\d|20\d\d', l))
    return 'works', hashlib.sha1(repr([(f, strip(open(f, 'rb').read())) for f in made]).encode()).hexdigest()


class Run:
    """a forked run; op(n): before the n-th file operation do 'stop' or 'crash'; size: (bytes, 'crash' or 'fail')"""
    def __init__(s, d, fn, name, t, v, op=None, size=None):
        s.t, s.v, s.name = t, v, name
        rd, wr = os.pipe()
        sys.stdout.flush()
        s.pid = os.fork()
        if s.pid == 0:
            os.close(rd)
            rc = 0
            try:
                os.chdir(d)
                state = {'n': 0, 'on': True, 'log': []}
                me = os.getpid()
                def hook(ev, args):
                    if not state['on'] or os.getpid() != me: return
                    if ev not in ('open', 'os.rename', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.link', 'os.truncate', 'os.symlink', 'os.listdir', 'os.scandir', 'shutil.move', 'shutil.copyfile', 'tempfile.mkstemp'): return
                    p = args[0] if args else ''
                    if not isinstance(p, (str, bytes)) or (isinstance(p, str) and os.path.isabs(p) and not p.startswith(d)): return
                    state['n'] += 1
                    state['log'].append('%s %s' % (ev, args))
                    if op and state['n'] == op[0]:
                        if op[1] == 'crash': os._exit(77)
                        os.kill(me, signal.SIGSTOP)
                sys.addaudithook(hook)
                if size:
                    if size[1] == 'crash': signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (size[0], size[0]))
                o = io.StringIO()
                try:
                    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
                        res = fn(name, t, v)
                except SystemExit: res = ('refused', '')
                except BaseException: res = ('error', traceback.format_exc()[-400:])
                state['on'] = False
                os.write(wr, json.dumps([res[0], res[1], state['n'], state['log'][:40]]).encode())
            finally:
                os._exit(rc)
        os.close(wr)
        s.rd = rd
        s.res = None
    def wait(s):
        """'stop' (suspended), 'crash', or the result"""
        pid, st = os.waitpid(s.pid, os.WUNTRACED)
        if os.WIFSTOPPED(st): return 'stop'
        b = b''
        while True:
            c = os.read(s.rd, 65536)
            if not c: break
            b += c
        os.close(s.rd)
        if not b: return 'crash'
        s.res = json.loads(b)
        return s.res
    def resume(s): os.kill(s.pid, signal.SIGCONT)


FRESH = {}


def fresh(fn, name, t, v):
    k = (fn.__name__, name, t, v)
    if k not in FRESH:
        d = tempfile.mkdtemp(prefix='cache.')
        if fn is not work: prep(d)
        r = Run(d, fn, name, t, v).wait()
        FRESH[k] = r
        sz = max([os.path.getsize(os.path.join(d, 'fk_eqns', f)) for f in (os.listdir(d + '/fk_eqns') if os.path.isdir(d + '/fk_eqns') else [])] or [0])
        if fn is work: FRESH[k] = r + [sz] if isinstance(r, list) else r
        shutil.rmtree(d, ignore_errors=True)
    return FRESH[k]


def prep(d):
    cwd = os.getcwd(); os.chdir(d); pipe.prepare(); os.chdir(cwd)


NAMES = {1: 'Alpha', 2: 'Beta'}


class History:
    def __init__(s, title, fn=work):
        s.d = tempfile.mkdtemp(prefix='cache.')
        s.fn, s.title, s.events, s.notes, s.live = fn, title, [], [], {}
        if fn is not work: prep(s.d)
    def begin(s, k, n, t, v=0, **kw):
        s.events.append({'e': 'begin', 'run': k, 'name': n, 't': t, 'outcome': 0, 'model': 0})
        s.live[k] = Run(s.d, s.fn, NAMES[n], t, v, **kw)
        s.go(k, n, v)
        return s
    def go(s, k, n, v=0):
        r = s.live[k]
        x = r.wait()
        if x == 'stop': s.notes.append('run %d suspended' % k); r.n, r.vv = n, v; return
        if x == 'crash': s.events.append({'e': 'crash', 'run': k, 'name': 0, 't': 0, 'outcome': 0, 'model': 0}); return
        f = fresh(s.fn, NAMES[n], r.t, v)
        o = {'works': 1, 'refused': 2}.get(x[0], 0)
        if x[0] == 'error' and s.failing == k:           # a write that failed interrupts the run
            s.events.append({'e': 'crash', 'run': k, 'name': 0, 't': 0, 'outcome': 0, 'model': 0}); return
        s.events.append({'e': 'end', 'run': k, 'name': n, 't': r.t, 'outcome': o, 'model': r.t if x[0] == 'works' and x[1] == f[1] else 0})
        s.notes.append('run %d (table %d): %s' % (k, r.t, x[0] + (' ' + x[1] if o == 0 else '') + ('' if o != 1 or x[1] == f[1] else ' with other results than computed')))
    failing = 0
    def resume(s, k):
        r = s.live[k]
        if not hasattr(r, 'n'): return s
        r.resume(); s.go(k, r.n, r.vv)
        return s
    def done(s):
        for r in s.live.values():
            try: os.kill(r.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(s.d, ignore_errors=True)
        return {'name': s.title, 'err': '', 'events': s.events, 'notes': s.notes}


def guarded(f):
    def g(*a):
        try: return f(*a)
        except Exception: return {'name': str(a), 'err': traceback.format_exc()[-800:], 'events': [], 'notes': []}
    return g


def jobs():
    rng = random.Random('cache %d' % seed)
    f0 = fresh(work, 'Alpha', 1, 0)
    if not isinstance(f0, list) or f0[0] != 'works':
        return [lambda: {'name': 'first run', 'err': 'a run on an empty store: %s' % (f0,), 'events': [], 'notes': []}]
    n, size = f0[2], f0[4]
    js = []
    def add(title, g, fn=work): js.append(guarded(lambda: g(History(title, fn)).done()))
    # the end of a run before each of its file operations, then the same table and another one
    for i in range(1, n + 1):
        add('ended before file operation %d, empty store' % i, lambda h, i=i: h.begin(1, 1, 1, op=(i, 'crash')).begin(2, 1, 1).begin(3, 1, 2))
        add('ended before file operation %d, then another table' % i, lambda h, i=i: h.begin(1, 1, 1, op=(i, 'crash')).begin(2, 1, 2).begin(3, 1, 1))
        add('ended before file operation %d, full store' % i, lambda h, i=i: h.begin(1, 1, 1).begin(2, 1, 1, op=(i, 'crash')).begin(3, 1, 1, 1))
    # partial files
    ks = sorted(set([0, 1, 2, size - 1, size, size // 2] + [rng.randrange(size + 2) for _ in range(count)] + [x for x in range(0, size, 4096)]))
    for k in ks:
        for how in ('crash', 'fail'):
            def g(h, k=k, how=how):
                h.failing = 1 if how == 'fail' else 0
                return h.begin(1, 1, 1, size=(k, how)).begin(2, 1, 1).begin(3, 1, 1)
            add('file %s at %d bytes' % ('write killed' if how == 'crash' else 'size limit', k), g)
    # suspended before each file operation while others run
    for i in range(1, n + 1):
        add('suspended at %d, the same table meanwhile' % i, lambda h, i=i: h.begin(1, 1, 1, op=(i, 'stop')).begin(2, 1, 1).resume(1).begin(3, 1, 1))
        add('suspended at %d, another table meanwhile' % i, lambda h, i=i: h.begin(1, 1, 1, op=(i, 'stop')).begin(2, 1, 2).resume(1).begin(3, 1, 1).begin(2, 1, 2))
        add('suspended at %d, the other ended at once' % i, lambda h, i=i: h.begin(1, 1, 1, op=(i, 'stop')).begin(2, 1, 2, op=(i, 'crash')).resume(1).begin(3, 1, 1))
        add('suspended at %d, another robot meanwhile' % i, lambda h, i=i: h.begin(1, 1, 1, op=(i, 'stop')).begin(2, 2, 1).resume(1).begin(3, 2, 2).begin(3, 1, 1))
        for j in range(1, n + 1):
            add('suspended at %d and %d' % (i, j), lambda h, i=i, j=j: h.begin(1, 1, 1, op=(i, 'stop')).begin(2, 1, 1, op=(j, 'stop')).resume(1).resume(2).begin(3, 1, 1))
            if rng.random() < 0.3:
                add('suspended at %d and %d, other tables' % (i, j), lambda h, i=i, j=j: h.begin(1, 1, 1, op=(i, 'stop')).begin(2, 1, 2, op=(j, 'stop')).begin(3, 1, 3).resume(1).resume(2).begin(3, 1, 3))
    # histories
    for c in range(count):
        def g(h):
            r = random.Random('hist %d %s' % (seed, h.title))
            for _ in range(r.randrange(3, 8)):
                k = r.randrange(1, 4)
                if k in h.live and hasattr(h.live[k], 'n') and h.live[k].res is None and not getattr(h.live[k], 'over', 0):
                    h.live[k].over = 1; h.resume(k); continue
                kw = {}
                x = r.random()
                if x < 0.2: kw['op'] = (r.randrange(1, n + 1), 'crash')
                elif x < 0.3: kw['size'] = (r.randrange(0, size), 'crash')
                elif x < 0.45: kw['op'] = (r.randrange(1, n + 1), 'stop')
                h.begin(k, r.choice([1, 1, 2]), r.choice([1, 1, 2, 3]), r.choice([0, 1, 2, 3]), **kw)
            return h
        add('history %d' % c, g)
    # every entry of the table matters
    variants = []
    for i in range(6):
        for j in range(4):
            base = TABLES[1][i][j]
            for alt in ((sp.Integer(1) + base, -base) if base != 0 else (l_2,)) if j != 0 else (base + sp.pi / 2,):
                variants.append((i, j, alt))
    variants += [(0, 2, l_2), (1, 2, l_1 * d_2), (0, 3, th_3)]
    def edits(h):
        h.begin(1, 1, 1)
        for i, j, alt in variants:
            T = [list(x) for x in TABLES[1]]; T[i][j] = alt
            TABLES[4] = T
            h.notes.append('entry (%d,%d): %s instead of %s' % (i + 1, j + 1, alt, TABLES[1][i][j]))
            FRESH[('work', 'Alpha', 4, 0)] = ['works', 'x', 0, []]
            h.begin(2, 1, 4)
        for T in (TABLES[1][:5], TABLES[1] + [Z]):
            TABLES[4] = T
            h.notes.append('%d rows' % len(T))
            h.begin(2, 1, 4)
        return h.begin(3, 1, 1)
    add('edited tables', edits)
    for t in (5, 6): add('computed, then stored, table %d' % t, lambda h, t=t: h.begin(1, 1, t).begin(2, 1, t).begin(3, 1, t, 1))
    for t in (2, 6):
        for v, w in ((0, 2), (2, 0), (0, 3), (3, 2)): add('values %d then %d, table %d' % (v, w, t), lambda h, t=t, v=v, w=w: h.begin(1, 1, t, v).begin(2, 1, t, w).begin(3, 1, t, v))
    add('forward kinematics program, other values', lambda h: h.begin(1, 1, 6, 0).begin(2, 1, 6, 2).begin(3, 1, 6, 3), fkonly)
    add('solver, sum of angles', lambda h: h.begin(1, 1, 5).begin(2, 1, 5).begin(3, 1, 6), solve)
    add('forward kinematics program, named twist', lambda h: h.begin(1, 1, 6).begin(2, 1, 6).begin(3, 1, 5), fkonly)
    # the whole solver
    add('solver, three times', lambda h: h.begin(1, 1, 1).begin(2, 1, 1).begin(3, 1, 1, 1), solve)
    add('solver, table edited', lambda h: h.begin(1, 1, 1).begin(2, 1, 2).begin(3, 1, 3), solve)
    add('solver, two robots', lambda h: h.begin(1, 1, 1).begin(2, 2, 2).begin(3, 1, 1), solve)
    add('solver, interrupted', lambda h: h.begin(1, 1, 1, size=(size // 3, 'crash')).begin(2, 1, 1), solve)
    add('forward kinematics program', lambda h: h.begin(1, 1, 1).begin(2, 1, 1).begin(3, 1, 2), fkonly)
    if count > 20:
        for i in range(1, n + 3):
            add('solver, ended before operation %d' % i, lambda h, i=i: h.begin(1, 1, 1, op=(i, 'crash')).begin(2, 1, 1).begin(3, 1, 2), solve)
    return js


# everything computed once here makes the forked runs quick
with contextlib.redirect_stdout(io.StringIO()):
    d0 = tempfile.mkdtemp(prefix='cache.')
    cwd = os.getcwd(); os.chdir(d0)
    for t in TABLES:
        try: work('Warm%d' % t, t, 0)
        except (Exception, SystemExit): pass
    os.chdir(cwd); shutil.rmtree(d0, ignore_errors=True)
js = jobs()
res = [j() for k, j in enumerate(js) if k % parts == part]
json.dump(res, open(out, 'w'))
