"""Run the whole solver (ikSolver.py) on one robot in the current directory and observe it.

run(name, mech=None) returns a Run: the recorded events, the final Robot and unknowns, and the
generated files.  The solver is observed from outside: the tick method of every leaf class and
unknown.set_solved are wrapped; nothing in the repository is changed."""
import sys, os, io, contextlib, runpy, shutil, traceback, importlib
import memo
REPO = os.environ.get('IKBT_REPO', '/repo')


class Run:
    pass


def prepare():
    for d in ('CodeGen', 'LaTex'):
        if os.path.isdir(d): shutil.rmtree(os.path.abspath(d))
        shutil.copytree(os.path.join(REPO, d), d)
    for d in ('logs', 'fk_eqns'):
        os.makedirs(d, exist_ok=True)


def symtuple(us, expr):
    return [i for i, u in enumerate(us) if getattr(expr, 'has', lambda s: False)(u.symbol)]


def run(name, mech=None, keep_lists=True, cached=False, script=None, patches=()):
    """mech = (dh, vv, params, pvals, unknowns) replaces the robot table for this name"""
    r = Run()
    r.name, r.err, r.events, r.lists, r.bt = name, '', [], [], None
    r.out = io.StringIO()
    if not cached: prepare()
    import time as _t
    _t.sleep = lambda *a: None
    with contextlib.redirect_stdout(r.out):
        import sympy as sp
        import b3
        import ikbtfunctions.ik_robots as ir
        import ikbtbasics.kin_cl as kc
        import ikbtbasics.ik_classes as ic
        import ikbtfunctions.output_latex, ikbtfunctions.output_python, ikbtfunctions.output_cpp
        leaves = {}
        for f in sorted(os.listdir(os.path.join(REPO, 'ikbtleaves'))):
            if f.endswith('.py') and not f.startswith('_') and not f.startswith('testData'):
                m = importlib.import_module('ikbtleaves.' + f[:-3])
                for k, c in vars(m).items():
                    if isinstance(c, type) and issubclass(c, b3.Action) and c.__module__ == m.__name__ and not k.startswith('test'):
                        leaves[c] = k
    r.unknowns, r.robot, r.bb = None, None, None
    seen = {}
    def intern(x):
        return seen.setdefault(x, len(seen) + 1)
    def state(us):
        return [[1 if u.solved else 0, int(u.solveorder), int(u.nsolutions),
                 intern((str(u.symbol), str(u.solutions))) if u.solved else 0] for u in us]
    def lists_now(bb, us):
        L = []
        for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu'):
            L.append([(e.LHS, e.RHS) for e in (bb.get(k) or [])])
        return L
    def wrap_leaf(cls, nm):
        orig0 = cls.tick
        orig = (script or {}).get(nm, orig0)
        def tick(self, t):
            bb = t.blackboard
            r.bb = bb
            us = bb.get('unknowns') or []
            R = bb.get('Robot')
            r.unknowns, r.robot = us, R
            u = bb.get('curr_unk')
            pre = None
            if nm == 'rank' and u is not None:
                n_all = lambda s: len([v for v in us if s.has(v.symbol)])
                pre = {'nsc': len(u.sincos_solutions), 'ntan': len(u.tan_solutions),
                       'vsc': n_all(u.sincos_solutions[0]) if u.sincos_solutions else 0,
                       'vtan': n_all(u.tan_solutions[0]) if u.tan_solutions else 0,
                       'sc': [str(s) for s in u.sincos_solutions], 'tan': [str(s) for s in u.tan_solutions]}
            before = r.snap(bb, us, R) if keep_lists and nm in r.watch else None
            n0 = len(r.events)
            st = orig(self, t)
            us = bb.get('unknowns') or []
            u = bb.get('curr_unk')
            ev = {'e': 'leaf', 'leaf': nm, 'st': int(st) if st in (1, 2, 3, 4) else 0,
                  'cur': us.index(u) + 1 if u in us else 0, 'counter': bb.get('counter') or 0, 'u': state(us),
                  'rdy': 0}
            if pre is not None:
                sols = [str(s) for s in (u.solutions or [])]
                pre['took'] = ('both' if pre['sc'] == pre['tan'] and sols == pre['sc'] else 'sc' if sols == pre['sc'] else
                               'tan' if sols == pre['tan'] else 'none' if not sols else 'other') if u.solved else 'unsolved'
                del pre['sc'], pre['tan']
                ev['rank'] = pre
            r.events.append(ev)
            if keep_lists and nm in r.watch:
                r.lists.append({'at': len(r.events), 'leaf': nm, 'before': before, 'after': r.snap(bb, us, bb.get('Robot'))})
            return st
        cls.tick = tick
        return orig0
    r.watch = ('updateL', 'sub_transform', 'x2z2_transform', 'sum_id')
    def snap(bb, us, R):
        return {'L': lists_now(bb, us), 'solved': [bool(u.solved) for u in us], 'syms': [u.symbol for u in us],
                'M': [(q.Td.copy(), q.Ts.copy()) for q in (R.mequation_list if R is not None else [])],
                'aux': [(e.LHS, e.RHS) for e in (R.kequation_aux_list if R is not None else [])]}
    r.snap = snap
    saved = [(c, wrap_leaf(c, n)) for c, n in leaves.items()]
    POSE = ['r_%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + ['Px', 'Py', 'Pz']
    def other(u, us, R):
        known = set(POSE) | set(str(p) for p in (getattr(R, 'params', None) or [])) | set(str(v.symbol) for v in us)
        return [s for e in u.solutions for s in getattr(e, 'free_symbols', ()) if str(s) not in known]
    oss = kc.unknown.set_solved
    def set_solved(self, R, unknowns):
        was = bool(self.solved)
        x = oss(self, R, unknowns)
        us = list(unknowns)
        ment = sorted(set(sum([symtuple(us, s) for s in self.solutions], [])))
        r.events.append({'e': 'solved', 'who': us.index(self) + 1 if self in us else 0, 'was': was, 'order': int(self.solveorder),
                         'nsol': int(self.nsolutions), 'len': len(self.solutions),
                         'deps': sorted(us.index(d) + 1 for d in self.dependencies if d in us),
                         'foreign': len([d for d in self.dependencies if d not in us]),
                         'ment': [i + 1 for i in ment], 'other': len(other(self, us, R)), 'nver': int(self.nversions), 'u': state(us)})
        return x
    kc.unknown.set_solved = set_solved
    # the equation lists the solver starts from, and the behaviour tree's verdict
    obt = b3.BehaviorTree.tick
    def bttick(self, target, bb):
        us = bb.get('unknowns') or []
        r.first = snap(bb, us, bb.get('Robot'))
        r.events.append({'e': 'begin', 'u': state(us)})
        st = obt(self, target, bb)
        r.bt = st
        r.bb, r.unknowns, r.robot = bb, bb.get('unknowns'), bb.get('Robot')
        r.events.append({'e': 'end', 'st': int(st) if st in (1, 2, 3, 4) else 0, 'u': state(r.unknowns)})
        return st
    b3.BehaviorTree.tick = bttick
    orp = ir.robot_params
    if mech is not None:
        table = lambda n: [mech[0].copy(), list(mech[1]), list(mech[2]), dict(mech[3]), mech[4]]
        holders = [m for m in list(sys.modules.values()) if getattr(m, 'robot_params', None) is orp]
        for m in holders: m.robot_params = table
    else:
        holders = []
    undo = []
    for m in list(sys.modules.values()):       # replacements by name, wherever the name is imported
        for k, v in patches:
            if m is not None and getattr(m, '__name__', '').split('.')[0] in ('ikbtfunctions', 'ikbtbasics', 'ikbtleaves') and k in vars(m):
                undo.append((m, k, vars(m)[k])); setattr(m, k, v)
    av = sys.argv
    sys.argv = ['ikSolver.py', name]
    r.exit = None
    r.glob = {}
    try:
        with contextlib.redirect_stdout(r.out):
            r.glob = runpy.run_path(os.path.join(REPO, 'ikSolver.py'), run_name='ikbt_solver_script')
    except SystemExit as ex:
        r.exit = str(ex.code)
    except BaseException as ex:
        r.err = '%s: %s' % (type(ex).__name__, traceback.format_exc()[-900:])
    finally:
        sys.argv = av
        for m in holders: m.robot_params = orp
        for m, k, v in undo: setattr(m, k, v)
        b3.BehaviorTree.tick = obt
        kc.unknown.set_solved = oss
        for c, o in saved: c.tick = o
    r.nothing = 'no solutions were found' in r.out.getvalue()
    r.reported = []
    if r.robot is not None and r.unknowns:
        import re
        names = set(re.sub(r'v\d+$', '', str(v)) for row in getattr(r.robot, 'solListMatrix', []) for v in row)
        r.reported = [i + 1 for i, u in enumerate(r.unknowns) if str(u.symbol) in names]
    r.done = 'End of solution job' in r.out.getvalue() or 'no solutions were found' in r.out.getvalue()
    return r
