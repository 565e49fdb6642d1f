"""Numeric side of a solver run: poses of the robot and the values of every solution version there."""
import math, random
import numpy as np
import sympy as sp


class Out(Exception):
    pass


def ev(e, env):
    """value of a closed-form expression; Out if it has no real value there"""
    if e.is_Symbol:
        if e not in env: raise Out('undefined %s' % e)
        v = env[e]
        if v is None: raise Out('no value')
        return v
    if e.is_number and not e.args: return float(e)
    if e.is_NumberSymbol: return float(e)
    a = [ev(x, env) for x in e.args]
    try:
        if e.is_Add: return math.fsum(a)
        if e.is_Mul:
            r = 1.0
            for x in a: r *= x
            return r
        if e.is_Pow:
            if a[0] < 0 and a[1] != int(a[1]):
                if a[0] > -1e-9: return 0.0
                raise Out('root')
            return a[0] ** a[1]
        f = e.func.__name__
        if f in ('asin', 'acos'):
            x = a[0]
            if abs(x) > 1:
                if abs(x) < 1 + 1e-9: x = math.copysign(1, x)
                else: raise Out(f)
            return getattr(math, f)(x)
        if f == 'atan2': return math.atan2(*a)
        if f in ('sin', 'cos', 'tan', 'atan'): return getattr(math, f)(*a)
        if f == 'Abs': return abs(a[0])
        if f == 'sign': return float((a[0] > 0) - (a[0] < 0))
    except (ZeroDivisionError, OverflowError, ValueError):
        raise Out('undefined')
    raise Out('function %s' % e.func)


def link(al, a, d, th):
    ca, sa, ct, st = math.cos(al), math.sin(al), math.cos(th), math.sin(th)
    return np.array([[ct, -st, 0, a], [st * ca, ct * ca, -sa, -sa * d], [st * sa, ct * sa, ca, ca * d], [0, 0, 0, 1]])


def pval(v, env):
    if isinstance(v, str):
        e = {str(k): x for k, x in env.items()}
        e.update({'np': np, 'pi': math.pi, 'sqrt': math.sqrt, '__builtins__': {}})
        return float(eval(v, e))
    return float(sp.N(v))


def setup(dh, unks, params, pvals, rng, names=None):
    """values of parameters and joints, the numeric DH rows and the pose"""
    env = {}
    for s in params:
        v = pvals.get(s)
        if v is None: env[s] = rng.uniform(0.6, 1.9)
        elif not isinstance(v, str): env[s] = float(sp.N(v))
    m = max([abs(x) for x in env.values()] + [1])
    if m > 6:           # the robot's own table may be in millimetres: any consistent lengths will do
        env = {s: (v if abs(v) < 3.2 and any(s in dh[i, 0].free_symbols or s in dh[i, 3].free_symbols for i in range(6)) else v / m * 3) for s, v in env.items()}
    for s in params:
        if isinstance(pvals.get(s), str): env[s] = pval(pvals[s], env)
    for s in unks:
        ang = any(s in dh[i, 3].free_symbols for i in range(6))
        env[s] = rng.uniform(-3.0, 3.0) if ang else rng.uniform(0.7, 2.0)
    rows = [[float(sp.N(dh[i, j].subs(env))) for j in range(4)] for i in range(6)]
    T = np.eye(4)
    for r in rows: T = T @ link(*r)
    for i in range(3):
        for j in range(3): env[sp.Symbol('r_%d%d' % (i + 1, j + 1))] = T[i, j]
        env[sp.Symbol(['Px', 'Py', 'Pz'][i])] = T[i, 3]
    return env, rows, T


def dh_rows(dh, env):
    return [[ev(sp.sympify(dh[i, j]), env) for j in range(4)] for i in range(6)]


def singular(dh, js, env):
    """smallest singular value of the change of the pose with the joints (0: they are not determined by the pose)"""
    def fk(e):
        T = np.eye(4)
        for r in dh_rows(dh, e): T = T @ link(*r)
        return T[:3, :].flatten()
    J = []
    for s in js:
        a, b = dict(env), dict(env)
        a[s] += 1e-5; b[s] -= 1e-5
        J.append((fk(a) - fk(b)) / 2e-5)
    return float(np.linalg.svd(np.array(J), compute_uv=False)[-1])
