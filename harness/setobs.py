"""What the specification of the solution set (Sets.tla) needs from a Robot and its unknowns."""
import re
import sympy as sp


def same(a, b):
    """equal as functions: at a few points (complex values count)"""
    syms = sorted(a.free_symbols | b.free_symbols, key=str)
    for k in range(4):
        pt = {s: sp.Float(0.31 + 0.173 * ((7 * i + 5 * k) % 11)) for i, s in enumerate(syms)}
        try: x = complex(sp.N((a - b).xreplace(pt), 15))
        except (TypeError, ValueError): return False
        if not abs(x) < 1e-9: return False
    return True


def sets(r):
    """the solution set: for each solved unknown (in solving order) its branches, the rows of version
    names, and for every version equation which branch it is and which versions it uses"""
    R = r.robot
    nodes = [n.unknown for n in R.solution_nodes]
    idx = {str(u.symbol): i + 1 for i, u in enumerate(nodes)}
    def split(v):
        m = re.fullmatch(r'(.+)v(\d+)', str(v))
        return [idx.get(m.group(1), 0), int(m.group(2))] if m else [0, 0]
    vs = []
    allv = {}
    for row in getattr(R, 'FinalEqnMatrix', []):
        for q in row: allv[str(q.LHS)] = split(q.LHS)
    for row in getattr(R, 'FinalEqnMatrix', []):
        o = []
        for q in row:
            u, k = split(q.LHS)
            uses = sorted(split(s) for s in q.RHS.free_symbols if str(s) in allv)
            raw = [str(s) for s in q.RHS.free_symbols if any(s == w.symbol for w in r.unknowns)]
            # the branches this equation is an instance of
            br = []
            if u:
                back = {s: sp.Symbol(re.fullmatch(r'(.+)v(\d+)', str(s)).group(1)) for s in q.RHS.free_symbols if str(s) in allv}
                plain = q.RHS.xreplace(back)
                sols = nodes[u - 1].solutions
                br = [b + 1 for b, sol in enumerate(sols) if plain == sol] or [b + 1 for b, sol in enumerate(sols) if same(plain, sol)]
            o.append({'u': u, 'k': k, 'uses': uses, 'raw': len(raw), 'br': br})
        vs.append(o)
    deps = [sorted(idx.get(str(w.symbol), 0) for w in r.unknowns if any(s.has(w.symbol) for s in u.solutions)) for u in nodes]
    return {'n': len(nodes), 'nsol': [len(u.solutions) for u in nodes], 'deps': deps,
            'rows': [[split(v) for v in row] for row in getattr(R, 'solListMatrix', [])],
            'set': sorted([split(v) for v in t] for t in getattr(R, 'solutionSet', set())),
            'vers': vs, 'solved': sorted(idx.get(str(u.symbol), 0) for u in r.unknowns if u.solved)}
