"""The forward-kinematics program and report of robots (fkOnly.py): drv_fk.py OUT.json SEED NPOSES ROBOT..."""
import sys, os, json, io, contextlib, tempfile, shutil, traceback, random, math, ast, runpy
out, seed, npose, rnames = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
sys.argv = ['x', os.devnull, '1', 'none']
import numpy as np, sympy as sp
import pipe
with contextlib.redirect_stdout(io.StringIO()):
    import drv_run
    import ikbtfunctions.ik_robots as ir
from codeobs import values, fix
from rows import dh_rows, link
import reportobs
res = []


class Fill(ast.NodeTransformer):
    """joint values filled in where the program assigns them, parameters where it says XXXXX"""
    def __init__(self, joints, params): self.j, self.p = joints, params
    def visit_Assign(self, n):
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Name):
            if t.id in self.j and isinstance(n.value, ast.Constant): return ast.copy_location(ast.Assign(targets=n.targets, value=ast.Constant(self.j[t.id])), n)
            if t.id in self.p and isinstance(n.value, ast.Name) and n.value.id == 'XXXXX': return ast.copy_location(ast.Assign(targets=n.targets, value=ast.Constant(self.p[t.id])), n)
        return n


def one(name):
    x = {'name': name, 'err': '', 'fk': None, 'report': None, 'notes': []}
    res.append(x)
    d = tempfile.mkdtemp(prefix='fk.')
    os.chdir(d)
    orp = ir.robot_params
    av = sys.argv
    holders = []
    try:
        pipe.prepare()
        dh, vv, params, pvals, unks = drv_run.table(name)
        rn = name.replace('random:', 'Random').replace('twist:', 'Twist').replace('alt:', 'Alt')
        js = [u.symbol for u in unks if any(u.symbol in dh[i, j].free_symbols for i in range(6) for j in range(4))]
        angles = [s for s in js if any(s in dh[i, 3].free_symbols for i in range(6))]
        if name.startswith(('random:', 'twist:', 'alt:')):
            t = lambda n: [dh.copy(), list(vv), list(params), dict(pvals), unks]
            holders = [m for m in list(sys.modules.values()) if getattr(m, 'robot_params', None) is orp]
            for m in holders: m.robot_params = t
        sys.argv = ['fkOnly.py', rn]
        with contextlib.redirect_stdout(io.StringIO()):
            g = runpy.run_path(os.path.join(pipe.REPO, 'fkOnly.py'), run_name='fk_script')
        R = g['R']
        rng = random.Random('fk %s %d' % (name, seed))
        env = values(R, R.params, rng)
        lens = [abs(v) for s, v in env.items()]
        L = max(lens + [1])
        m = {'valid': 1, 'poses': []}
        src = open('CodeGen/Python/FK_equations%s.py' % rn).read()
        for _ in range(npose):
            e = dict(env)
            for s in js: e[s] = rng.uniform(-3, 3) if s in angles else rng.uniform(0.7, 2.0) * L
            links = [[fix(math.cos(a)), fix(math.sin(a)), fix(b / L), fix(c / L), fix(math.cos(t)), fix(math.sin(t))] for a, b, c, t in dh_rows(dh, e)]
            try:
                tree = ast.fix_missing_locations(Fill({str(s): e[s] for s in js}, {str(s): v for s, v in env.items()}).visit(ast.parse(src)))
                ns = {'__name__': 'generated'}
                with contextlib.redirect_stdout(io.StringIO()): exec(compile(tree, 'fk', 'exec'), ns)
                A = ns['T06'].A
                T = [[float(A[i][j]) for j in range(4)] for i in range(4)]
            except Exception as ex:
                m['valid'] = 0
                x['notes'].append('%s: %s' % (type(ex).__name__, str(ex)[-300:]))
                break
            m['poses'].append({'links': links, 'T': [fix(T[i][j] / (L if j == 3 else 1)) if i < 3 else fix(T[i][j]) for i in range(4) for j in range(4)]})
        x['fk'] = m
        y, errs = reportobs.fk_report(R, rn, dh, js, vv, seed, 'LaTex/fk_equations_%s.tex' % rn)
        x['report'] = y
        x['notes'] += errs
    except BaseException as ex:
        x['err'] = '%s: %s' % (type(ex).__name__, traceback.format_exc()[-900:])
    finally:
        for m in holders: m.robot_params = orp
        sys.argv = av
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


for n in rnames: one(n)
json.dump(res, open(out, 'w'))
