"""What the specification of sums of angles (Sums.tla) needs."""
import re
import sympy as sp


def name(s):
    m = re.fullmatch(r'th_(\d+)', str(s))
    return [int(d) for d in m.group(1)] if m else None


def trig_sums(exprs):
    """the sums among the arguments of sines and cosines, as lists of names"""
    res = []
    for e in exprs:
        for f in sp.sympify(e).atoms(sp.sin, sp.cos):
            a = f.args[0]
            ns = [name(t) for t in sp.Add.make_args(a)]      # plain sums: no differences, multiples or constants
            if len(ns) > 1 and all(ns):
                x = sorted(ns)
                if x not in res: res.append(x)
    return res


def state_of(aux, syms, after, before=None):
    reg = []
    for l, r in aux:
        if getattr(l, 'is_Symbol', False) and name(l):
            # coefficients other than one are shown as a repeated name, which no definition may have
            reg.append({'name': name(l), 'def': [name(t) or [0, 0] for t in sp.Add.make_args(sp.sympify(r))]})
    return {'reg': reg, 'unk': [name(s) for s in syms if name(s)], 'left': trig_sums(after),
            'met': trig_sums(before) if before is not None else [], 'known': 1 if before is not None else 0}


def state(R, us, after, before):
    return state_of([(e.LHS, e.RHS) for e in R.kequation_aux_list], [u.symbol for u in us], after, before)
