"""One run of the solver, everything it says about its result: drv_det.py OUT.json ROBOT MODE
MODE: new | stored (a second run on the stored kinematics) | after (other robots were looked up before)"""
import sys, os, json, io, contextlib, tempfile, shutil, re, hashlib, traceback
out, name, mode = sys.argv[1:4]
import pipe
x = {'name': name, 'mode': mode, 'err': '', 'events': [], 'files': []}
d = tempfile.mkdtemp(prefix='det.')
os.chdir(d)


def strip(b):
    return b'\n'.join(l for l in b.split(b'\n') if not re.search(rb'\d\d:\d\d|20\d\d', l))


try:
    with contextlib.redirect_stdout(io.StringIO()):
        import ikbtfunctions.ik_robots as ir
    if mode == 'after':
        with contextlib.redirect_stdout(io.StringIO()):
            for n in ('Wrist', 'UR5', 'JennyGuoSp24', 'DZhang', 'Raven-II'): ir.robot_params(n)
    mech = None
    if name.startswith('random:'):
        import random, sympy as sp, kinlib
        import ikbtbasics.kin_cl as kc
        sys.argv = ['x', os.devnull, '1', 'none']
        with contextlib.redirect_stdout(io.StringIO()):
            import drv_run
        mech = drv_run.table(name)
    rn = name.replace('random:', 'Random')
    if mode == 'stored':
        r = pipe.run(rn, mech=mech, keep_lists=False)
        pid = os.fork()                      # the second run starts afresh, with the stored kinematics
        if pid == 0:
            for m in [m for m in sys.modules if m.split('.')[0] in ('ikbtfunctions', 'ikbtbasics', 'ikbtleaves', 'b3')]: del sys.modules[m]
        else:
            _, st = os.waitpid(pid, 0)
            os._exit(os.waitstatus_to_exitcode(st))
        if mech is not None:
            with contextlib.redirect_stdout(io.StringIO()):
                import drv_run as dr2, importlib
                mech = importlib.reload(dr2).table(name)
        keep = os.path.join(d, 'fk_eqns')
        for a in ('CodeGen', 'LaTex'): shutil.rmtree(os.path.join(d, a))
        for a in ('CodeGen', 'LaTex'): shutil.copytree(os.path.join(pipe.REPO, a), a)
        r = pipe.run(rn, mech=mech, keep_lists=False, cached=True)
    else:
        r = pipe.run(rn, mech=mech, keep_lists=False)
    x['err'] = r.err
    if not r.err:
        for e in r.events:
            if e['e'] == 'solved': x['events'].append('solved %s %s' % (e['who'], e['nsol']))
        R = r.robot
        for u in sorted(r.unknowns, key=lambda u: u.solveorder if u.solved else 999):
            x['events'].append('%s: %s from %s' % (u.symbol, [str(s) for s in u.solutions], u.eqntosolve))
        for row in getattr(R, 'solListMatrix', []): x['events'].append('row %s' % [str(v) for v in row])
        for row in getattr(R, 'FinalEqnMatrix', []): x['events'].append('versions %s' % ['%s = %s' % (q.LHS, q.RHS) for q in row])
        x['events'].append('status %s %s' % (r.bt, r.exit))
        for b in ('CodeGen', 'LaTex'):
            for dd, _, fs in sorted(os.walk(b)):
                for f in sorted(fs):
                    if rn in f and f.endswith(('.py', '.cpp', '.tex')):
                        t = strip(open(os.path.join(dd, f), 'rb').read()).decode('utf8', 'replace').split('\n')
                        x['files'].append([os.path.join(dd, f), t])
except BaseException:
    x['err'] = 'harness: ' + traceback.format_exc()[-900:]
finally:
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
json.dump(x, open(out, 'w'))
