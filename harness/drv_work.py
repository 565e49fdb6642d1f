"""Histories of runs of ikSolver.py and fkOnly.py in a scratch working directory.
drv_work.py OUT.json ref PROG ROBOT            contents, file operations and sizes of a run alone
drv_work.py OUT.json hist SEED COUNT REFS.json histories
Every run is a forked process that executes the program file itself.  Interruptions as in drv_cache: it ends before its
n-th file operation or when a file reaches k bytes; it is suspended before its n-th file operation while others run."""
import sys, os, json, random, io, contextlib, signal, resource, tempfile, shutil, hashlib, re, runpy, pickle, traceback
import pipe
with contextlib.redirect_stdout(io.StringIO()):
    import sympy as sp
    import b3
    import ikbtfunctions.ik_robots, ikbtfunctions.output_latex, ikbtfunctions.output_python, ikbtfunctions.output_cpp
    import ikbtbasics.kin_cl, ikbtbasics.ik_classes
    for f in sorted(os.listdir(os.path.join(pipe.REPO, 'ikbtleaves'))):
        if f.endswith('.py') and not f.startswith('_') and not f.startswith('test'): __import__('ikbtleaves.' + f[:-3])
from objtext import text
out, mode = sys.argv[1:3]
FILE = {'ik': 'ikSolver.py', 'fk': 'fkOnly.py'}
DEFAULT = {'ik': 'Wrist', 'fk': 'Raven-II'}
NAME = ['fk_eqns/%s_pickle.p', 'LaTex/ik_solution_%s.tex', 'CodeGen/Python/IK_equations%s.py', 'CodeGen/Cpp/IK_equations%s.cpp',
        'LaTex/fk_equations_%s.tex', 'CodeGen/Python/FK_equations%s.py']
DATE = re.compile(rb'\d\d:\d\d|\b20\d\d\b|\b(Mon|Tue|Wed|Thu|Fri|Sat|Sun)\b')


def start(d, prog, robot, op=None, size=None, log=None):
    """robot None: no name given.  Returns the pid; the child exits 0 at the end, 3 on quit(), 4 on an error"""
    sys.stdout.flush()
    pid = os.fork()
    if pid: return pid
    try:
        os.chdir(d)
        import time
        time.sleep = lambda *a: None
        me, state = os.getpid(), {'n': 0, 'on': True, 'max': 0}
        def hook(ev, args):
            if not state['on'] or os.getpid() != me or ev not in ('open', 'os.rename', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.link', 'os.truncate', 'os.symlink'): return
            p = args[0] if args else ''
            if not isinstance(p, (str, bytes)) or (isinstance(p, str) and os.path.isabs(p) and not p.startswith(d)): return
            state['n'] += 1
            if op and state['n'] == op[0]:
                if op[1] == 'dead': os._exit(77)
                os.kill(me, signal.SIGSTOP)
        sys.addaudithook(hook)
        if size:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        sys.argv = [FILE[prog]] + ([robot] if robot is not None else [])
        rc, o = 0, io.StringIO()
        try:
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
                runpy.run_path(os.path.join(pipe.REPO, FILE[prog]), run_name='__main__')
        except SystemExit: rc = 3
        except BaseException:
            rc = 4
        state['on'] = False
        if log and not size:
            with open(log, 'w') as f: json.dump([rc, state['n'], traceback.format_exc()[-500:] if rc == 4 else ''], f)
        os._exit(rc)
    finally:
        os._exit(4)


def wait(pid):
    _, st = os.waitpid(pid, os.WUNTRACED)
    if os.WIFSTOPPED(st): return 'stop'
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 77: return 'dead'
    return {0: 'done', 3: 'refused'}.get(os.WEXITSTATUS(st), 'error')


PK = {}


def contents(path):
    """a digest of what is in a file: dates left out, stored objects by what hangs on them"""
    with open(path, 'rb') as f: b = f.read()
    if path.endswith('_pickle.p'):
        h = hashlib.sha1(b).hexdigest()
        if h not in PK:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    with contextlib.redirect_stdout(io.StringIO()): t = hashlib.sha1(text(pickle.loads(b)).encode()).hexdigest()
                    os.write(wr, t.encode())
                finally: os._exit(0)
            os.close(wr)
            os.waitpid(pid, 0)
            PK[h] = os.read(rd, 100).decode() or 'broken ' + h
            os.close(rd)
        return PK[h]
    return hashlib.sha1(b'\n'.join(l for l in b.split(b'\n') if not DATE.search(l))).hexdigest()


def look(d, robots):
    names = {n % r: (k, i) for k, n in enumerate(NAME) for i, r in enumerate(robots)}
    files, other = [[''] * len(robots) for _ in NAME], []
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.relpath(os.path.join(b, f), d)
            if p in names: files[names[p][0]][names[p][1]] = contents(os.path.join(d, p))
            else:
                m = re.match(r'fk_eqns/(.+)_pickle\.p\.tmp\d*$', p)
                other.append([p, robots.index(m.group(1)) + 1 if m and m.group(1) in robots else 0, contents(os.path.join(d, p)) if not m else ''])
    return files, sorted(other)


def fresh():
    d = os.path.realpath(tempfile.mkdtemp(prefix='work.'))
    cwd = os.getcwd(); os.chdir(d)
    pipe.prepare()
    os.rmdir('logs'); os.rmdir('fk_eqns')
    os.chdir(cwd)
    return d


if mode == 'ref':
    prog, robot = sys.argv[3:5]
    d = fresh()
    log = os.path.join(os.getcwd(), 'log.json')
    how = wait(start(d, prog, robot, log=log))
    x = json.load(open(log)) if os.path.exists(log) else [0, 0, '']
    files, other = look(d, [robot])
    sizes = sorted(os.path.getsize(os.path.join(d, n % robot)) for n in NAME if os.path.exists(os.path.join(d, n % robot)))
    json.dump({'prog': prog, 'robot': robot, 'how': how, 'ops': x[1], 'why': x[2], 'files': [f[0] for f in files], 'sizes': sizes, 'other': other}, open(out, 'w'))
    shutil.rmtree(d, ignore_errors=True)
else:
    seed, count, refs = int(sys.argv[3]), int(sys.argv[4]), json.load(open(sys.argv[5]))
    robots, res = refs['robots'], []
    pairs = [tuple(x.split(' ')) for x in refs['runs']]
    for h in range(count):
        rng = random.Random('work %d %d' % (seed, h))
        d = fresh()
        if rng.random() < 0.5:                        # outputs of an earlier version, longer or shorter
            for n in NAME[1:]:
                for r in robots:
                    if rng.random() < 0.6:
                        with open(os.path.join(d, n % r), 'w') as f: f.write('# an earlier version\n' * rng.choice([1, 3000]))
        first = dict(zip(('files', 'other'), look(d, robots)))
        ev, notes, live = [], [], {}
        def add(e, run, p='ik', r=0, how=''):
            f, o = look(d, robots)
            ev.append({'e': e, 'run': run, 'p': p, 'r': r, 'how': how, 'files': f, 'other': o})
        def go(run, p, robot, **kw):
            r = robots.index(DEFAULT[p] if robot is None else robot) + 1 if (DEFAULT[p] if robot is None else robot) in robots else 0
            # the look at the beginning is the directory as it was
            add('begin', run, p, r)
            pid = start(d, p, robot, **kw)
            x = wait(pid)
            notes.append('%s %s %s: %s' % (FILE[p], robot, kw or '', x))
            if x == 'stop': live[run] = (pid, p, robot); return
            add('end', run, how=x)
        try:
            k = 0
            few = rng.sample(pairs, min(3, len(pairs)))
            for _ in range(rng.choice([4, 5, 6]) if refs['long'] else 4):
                k += 1
                p, robot = rng.choice(few)
                x = rng.random()
                ref = refs['runs'][p + ' ' + robot]
                busy = [(a[1], a[2]) for a in live.values()]
                if (p, robot) in busy: x = 0.95
                if x < 0.4: go(k, p, robot)
                elif x < 0.55: go(k, p, robot, op=(rng.randint(1, ref['ops']), 'dead'))
                elif x < 0.65: go(k, p, robot, size=rng.choice([rng.randint(1, max(ref['sizes'])), rng.randint(1, min(ref['sizes']))]))
                elif x < 0.85 and not live: go(k, p, robot, op=(rng.randint(1, ref['ops']), 'stop'))
                elif x < 0.9 and (p, DEFAULT[p]) in pairs and (p, DEFAULT[p]) not in busy: go(k, p, None)
                elif x < 0.95: go(k, p, robot)
                else: go(k, p, rng.choice(refs['unknown']))
            for run in sorted(live):
                pid, p, robot = live.pop(run)
                os.kill(pid, signal.SIGCONT)
                x = wait(pid)
                notes.append('%s %s goes on: %s' % (FILE[p], robot, x))
                add('end', run, how=x)
            k += 1
            p, robot = rng.choice(few)           # whatever happened, a run now works
            go(k, p, robot)
            res.append({'name': ' / '.join(notes), 'events': ev, 'before': first, 'err': ''})
        except Exception:
            res.append({'name': ' / '.join(notes), 'err': traceback.format_exc()[-800:]})
        finally:
            for pid, _, _ in live.values():
                try: os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                except OSError: pass
            shutil.rmtree(d, ignore_errors=True)
    json.dump(res, open(out, 'w'))
