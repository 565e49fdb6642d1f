"""Generated programs of a run, executed at poses; called in the run's directory."""
import os, re, io, ast, math, random, contextlib, subprocess, json, sys, glob, traceback
import numpy as np
import sympy as sp
from rows import ev, Out, link, pval, dh_rows
S = 10000


def fix(x): return max(-2000000, min(2000000, int(round(float(x) * S))))


def enc(v, angle, L): return [1, fix(math.cos(v)), fix(math.sin(v))] if angle else [0, fix(v / L), 0]


def values(R, params, rng):
    env = {}
    pv = dict(R.Mech.pvals)
    for s in params:
        v = pv.get(s)
        if v is None: env[s] = round(rng.uniform(0.6, 1.9), 3)
        elif not isinstance(v, str): env[s] = float(sp.N(v))
    for s in params:
        if isinstance(pv.get(s), str): env[s] = pval(pv[s], env)
    return env


def pose_env(env, T):
    e = dict(env)
    for i in range(3):
        for j in range(3): e[sp.Symbol('r_%d%d' % (i + 1, j + 1))] = T[i, j]
        e[sp.Symbol(['Px', 'Py', 'Pz'][i])] = T[i, 3]
    return e


def args_of(e):
    return [f.args[0] for f in e.atoms(sp.asin, sp.acos)]


def versions(eqs, env):
    """status and value of every version at a pose"""
    st, val, e = {}, {}, dict(env)
    names = set(str(q.LHS) for q in eqs)
    todo = list(eqs)
    while todo:
        ready = [q for q in todo if all(str(s) not in names or str(s) in st for s in sp.sympify(q.RHS).free_symbols)]
        if not ready: raise ValueError('versions depend on each other: %s' % [str(q.LHS) for q in todo])
        for q in ready:
            todo.remove(q)
            n, x = str(q.LHS), sp.sympify(q.RHS)
            if any(st.get(str(s), 0) for s in x.free_symbols): st[n] = 4; continue
            s = 0
            for a in args_of(x):
                try: v = abs(ev(a, e))
                except Out: s = max(s, 2); continue
                if v > 1 + 1e-7: s = 1; break
                if v > 1 - 1e-7: s = max(s, 3)
            if s == 0:
                for p in x.atoms(sp.Pow):
                    if p.exp.is_number and not p.exp.is_integer:
                        try: v = ev(p.base, e)
                        except Out: s = 2; break
                        if v < -1e-7: s = 2; break
                        if v < 1e-7: s = 3
            if s == 0 or s == 3:
                try: val[n] = ev(x, e); e[q.LHS] = val[n]
                except Out: s = 2
            st[n] = s
    return st, val


def status(R, eqs, env, T, angle, L, rng):
    st, val = versions(eqs, pose_env(env, T))
    # what a tiny change of the pose changes visibly is not determined
    for _ in range(2):
        D = T.copy()
        D[:3, :] += np.array([[rng.uniform(-1, 1) * 1e-11 * (L if j == 3 else 1) for j in range(4)] for i in range(3)])
        s2, v2 = versions(eqs, pose_env(env, D))
        for n in st:
            if st[n] == 0 and (s2[n] != 0 or (abs(math.cos(val[n]) - math.cos(v2[n])) + abs(math.sin(val[n]) - math.sin(v2[n])) > 1e-5 if angle[n] else abs(val[n] - v2[n]) > 1e-5 * L)): st[n] = 3
            elif st[n] != s2[n]: st[n] = 3
    changed = True
    while changed:
        changed = False
        for q in eqs:
            n = str(q.LHS)
            if st[n] == 0 and any(st.get(str(s)) in (1, 2, 3, 4) for s in sp.sympify(q.RHS).free_symbols):
                st[n] = 3; changed = True
    return st, val


def random_pose(rng, L):
    q = np.array([rng.gauss(0, 1) for _ in range(4)]); q /= np.linalg.norm(q)
    w, x, y, z = q
    T = np.eye(4)
    T[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    T[:3, 3] = [rng.uniform(-3, 3) * L for _ in range(3)]
    return T


def run_py(path, env, poses):
    src = open(path).read()
    for s, v in env.items(): src = re.sub(r'(?m)^(\s*%s\s*=\s*)XXXXX' % re.escape(str(s)), lambda m: m.group(1) + repr(v), src)
    ns = {'__name__': 'generated'}
    with contextlib.redirect_stdout(io.StringIO()):
        exec(compile(src, path, 'exec'), ns)
    f = [v for k, v in ns.items() if k.startswith('ikin') and callable(v)]
    if len(f) != 1: raise ValueError('%d functions named ikin...' % len(f))
    res = []
    for T in poses:
        try:
            with contextlib.redirect_stdout(io.StringIO()): x = f[0](np.array(T))
            if isinstance(x, bool) or x is None: res.append(('none' if x is False else 'error', []))
            else: res.append(('rows', [[float(v) for v in r] for r in x]))
        except (ValueError, ZeroDivisionError, OverflowError) as ex: res.append(('error', []))
        except SystemExit: res.append(('error', []))
    return res


def run_cpp(path, env, poses, ncols, nrows):
    src = open(path).read()
    for s, v in env.items(): src = re.sub(r'(double\s+%s\s*=\s*)XXXXX' % re.escape(str(s)), lambda m: m.group(1) + repr(v), src)
    drv = '''#define main generated_main
#include "gen.inc"
#undef main
#include <cstdio>
template<int W> constexpr int width(int (*)(double (*)[4], double (*)[W])) { return W; }
#define WIDTH (width(&ikin))
int main() {
    double T[4][4];
    int n; if (scanf("%d", &n) != 1) return 2;
    for (int k = 0; k < n; k++) {
        for (int i = 0; i < 16; i++) if (scanf("%lf", &T[i / 4][i % 4]) != 1) return 2;
        static double s[64][WIDTH];
        for (int i = 0; i < 64; i++) for (int j = 0; j < WIDTH; j++) s[i][j] = -77777;
        int r = ikin(T, s);
        printf("pose %d\\n", r);
        for (int i = 0; i < 64; i++) { for (int j = 0; j < WIDTH; j++) printf("%.12g ", s[i][j]); printf("\\n"); }
    }
}
'''
    open('gen.inc', 'w').write(src); open('drvmain.cpp', 'w').write(drv)
    p = subprocess.run(['g++', '-O0', '-w', '-std=c++17', '-fsanitize=address,undefined', '-fno-sanitize-recover', '-o', 'gen.exe', 'drvmain.cpp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if p.returncode: raise ValueError('does not compile: %s' % p.stdout.decode()[-700:])
    inp = '%d\n' % len(poses) + '\n'.join(' '.join('%.17g' % v for v in np.array(T).flatten()) for T in poses)
    p = subprocess.run(['./gen.exe'], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    if p.returncode: raise ValueError('ends with %d: %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-700:]))
    res, cur = [], None
    for l in p.stdout.decode().split('\n'):
        if l.startswith('pose'):
            cur = []; res.append((int(l.split()[1]), cur))
        elif l.strip() and cur is not None: cur.append([float(v) for v in l.split()])
    return [('rows' if r == 1 else 'none' if r == 0 else 'error', [[v for v in x if v != -77777] for x in m if any(v != -77777 for v in x)] if r == 1 else []) for r, m in res]


def observe(r, dh, js, angles, seed, what):
    R = r.robot
    if not getattr(R, 'FinalEqnMatrix', None): return None
    rng = random.Random('code %s %d' % (r.name, seed))
    env = values(R, R.params, rng)
    L = max([abs(v) for v in env.values()] + [1])
    eqs = [q for row in R.FinalEqnMatrix for q in row]
    names = [str(q.LHS) for q in eqs]
    base = lambda n: n.rsplit('v', 1)[0]
    lens = set(str(s) for s in js if s not in angles)
    angle = {n: base(n) not in lens for n in names}
    idx = {n: i + 1 for i, n in enumerate(names)}
    rows = [sorted(str(v) for v in row) for row in R.solListMatrix]
    poses = []
    npose = 12 if 'deep' in what else 3
    for _ in range(npose):
        e = dict(env)
        for s in js: e[s] = rng.uniform(-3, 3) if s in angles else rng.uniform(0.7, 2.0) * L
        T = np.eye(4)
        for d in dh_rows(dh, e): T = T @ link(*d)
        poses.append(T)
    for _ in range(npose): poses.append(random_pose(rng, L))
    m = {'rows': [[idx[v] for v in row if v in idx] for row in rows], 'width': len([u for u in r.unknowns if u.solved]), 'poses': [], 'valid': 1}
    for T in poses:
        st, val = status(R, eqs, env, T, angle, L, rng)
        m['poses'].append({'st': [st[n] for n in names], 'val': [enc(val.get(n, 0.0), angle[n], L) for n in names]})
    res = {'poses': [[round(float(v), 6) for v in T.flatten()] for T in poses]}
    cols = [base(v) for v in rows[0]]
    enr = lambda out: [{'kind': k, 'rows': [[enc(v, c not in lens, L) if math.isfinite(v) else [9, 0, 0] for v, c in zip(x, cols)] + [[8, 0, 0]] * abs(len(x) - len(cols)) for x in rs]} for k, rs in out]
    nm = r.name
    for lang, path in (('py', 'CodeGen/Python/IK_equations%s.py' % nm), ('cpp', 'CodeGen/Cpp/IK_equations%s.cpp' % nm)):
        if lang not in what: continue
        x = dict(m, guarded=1 if lang == 'py' else 0, outcomes=[], err='')
        try:
            out = run_py(path, env, poses) if lang == 'py' else run_cpp(path, env, poses, len(cols), len(rows))
            x['outcomes'] = enr(out)
        except Exception as ex:
            x['valid'], x['err'] = 0, '%s: %s' % (type(ex).__name__, str(ex)[-600:])
        res[lang] = x
    return res
