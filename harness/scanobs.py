"""What the specification of the equation lists (Scan.tla) needs from recorded scans."""
import sympy as sp


class Table:
    def __init__(self, syms):
        self.syms, self.ids, self.rows, self.text = list(syms), {}, [], []

    def eq(self, l, r):
        l, r = sp.sympify(l), sp.sympify(r)
        k = self.ids.get((l, r))
        if k is None:
            k = self.ids[(l, r)] = len(self.rows) + 1
            fl, fr = l.free_symbols, r.free_symbols
            self.rows.append({'cost': int(sp.count_ops(l)) + int(sp.count_ops(r)),
                              'l': [i + 1 for i, s in enumerate(self.syms) if s in fl], 'r': [i + 1 for i, s in enumerate(self.syms) if s in fr]})
            self.text.append('%s = %s' % (l, r))
        return k

    def call(self, kind, M, aux, sol, L, rows=(0, 1, 2, 3)):
        """M: (Td, Ts) pairs; aux: (LHS, RHS); sol: (symbol, solved); L: three lists of (LHS, RHS)"""
        return {'kind': kind, 'unsolved': [self.syms.index(s) + 1 for s, d in sol if not d],
                'ent': sorted(set(self.eq(a[i, j], b[i, j]) for a, b in M for i in rows for j in range(4))),
                'aux': [[self.eq(a, b), self.eq(0, sp.sympify(a) - sp.sympify(b))] for a, b in aux],
                'lists': [[self.eq(a, b) for a, b in l] for l in L]}


def encode(calls, r):
    """the scans of a run: direct calls, the lists the search starts with, the lists after each refresh"""
    syms = []
    for c in calls:
        for s, d in c[2]:
            if s not in syms: syms.append(s)
    for x in [r.first] + [y['after'] for y in r.lists if y['leaf'] == 'updateL']:
        for s in x['syms']:
            if s not in syms: syms.append(s)
    t = Table(syms)
    cs = [t.call(0, c[0], c[1], c[2], c[3]) for c in calls]
    for x in [y['after'] for y in r.lists if y['leaf'] == 'updateL']:
        cs.append(t.call(1, x['M'], x['aux'], list(zip(x['syms'], x['solved'])), x['L']))
    x = r.first
    cs.append(t.call(2, x['M'], x['aux'], list(zip(x['syms'], x['solved'])), x['L']))
    return {'eqs': t.rows, 'calls': cs, 'text': t.text}
