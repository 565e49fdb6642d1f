"""G03: generated reports against spec/Report.  G04: generated forward-kinematics programs against spec/Fixed."""
import copy, random
from common import *
from chk_eqs import clauses
from chk_solve import runs, names, ROBOTS

Q = ['Stanford', 'Chair_Helper', 'MiniDD', 'Frei13', 'Wachtveitl', 'Srisuan11', 'Olson13', 'Arm_3', 'Axtman13', 'Bartell', 'Brad', 'ICP5p5_A21', 'Minder13', 'Palm13', 'Sims11', 'Wrist']


def fkruns(c, ns, npose):
    d = scratch('fk')
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        rc, o = driver('drv_fk.py', [f, SEED, npose, ns[k]], timeout=840)
        if rc == 0 and os.path.exists(f): return json.load(open(f))[0]
        return {'name': ns[k], 'err': 'driver: %s %s' % (rc, o[-1500:])}
    rs = pmap(one, range(len(ns)))
    for x in rs:
        if x['err']: c.violation('raise:' + x['name'], '%s: the run failed: %s' % (x['name'], x['err'][-700:]), x['err'])
    return [x for x in rs if not x['err']]


def fknames(rnd):
    if TIER == 'thorough': return ROBOTS + ['random:%d' % k for k in range(60)] + ['twist:%d' % k for k in range(44)] + ['alt:%d' % k for k in range(24)]
    return ['Raven-II', 'Parkman13', 'Olson13', 'Arm_3', 'Frei13', 'Axtman13', 'Stanford', 'Chair_Helper', 'Brad', 'MiniDD', 'Wrist'] + ['random:%d' % k for k in rnd] + ['twist:%d' % k for k in range(11)] + ['alt:%d' % k for k in range(9)]


def corrupt(x, rng):
    x = copy.deepcopy(x)
    D = x['doc']
    how = rng.randrange(9)
    pick = lambda f: [k for k, e in enumerate(D) if f(e)]
    if how == 0: del D[rng.choice(pick(lambda e: e['k'] in ('begin', 'end')))]
    elif how == 1:
        k = rng.choice(pick(lambda e: e['k'] == 'text'))
        D[k]['v'] = rng.choice([[0, 1, 0, 0, 0], [0, 0, 0, 0, 1], [0, 0, 0, 1, 0], [-1, -1, 0, 0, 0]])
        if D[k]['v'] == [0, 0, 0, 1, 0] and not any(e['k'] == 'end' for e in D[k:]): return None
        if not any(e['k'] in ('begin', 'end') for e in D[k:]): return None
        if not any(e['k'] == 'begin' for e in D[:k]): return None
        o = copy.deepcopy(x)
    elif how == 2:
        k = rng.choice(pick(lambda e: e['k'] == 'matrix'))
        j = rng.randrange(len(D[k]['v']))
        D[k]['v'][j] += 400
    elif how == 3: del D[rng.choice(pick(lambda e: e['k'] == 'matrix'))]
    elif x['ik'] == 0: return None
    else:
        kind = {4: 'eq', 5: 'eq', 6: 'row', 7: 'item', 8: 'edge'}[how]
        ks = pick(lambda e: e['k'] == kind)
        if not ks: return None
        k = rng.choice(ks)
        if how == 4:
            if not any(n == D[k]['n'] and ok for n, ok, v in x['eqs']): return None
            D[k]['v'][0] += 5000
        elif rng.random() < .5: del D[k]
        else: D.insert(k, D[k])
    return x


def g03(c):
    rs = runs(c, 'report', names(Q, [1, 3, 8, 11, 26]))
    fs = fkruns(c, ['Wrist', 'Chair_Helper', 'MiniDD', 'Stanford', 'random:1', 'random:3'] if TIER == 'quick' else fknames([]), 1)
    items = [(x['name'] + ' solution report', x['report'], x.get('notes')) for x in rs if x.get('report')] + [(x['name'] + ' kinematics report', x['report'], x['notes']) for x in fs]
    for k, l in sorted(clauses('ReportTrace', [i[1] for i in items]).items()):
        n, x, notes = items[k]
        cl = [t for _, ts in l for t in ts]
        c.violation(n, '%s: wrong or missing: %s%s' % (n, '; '.join(cl[:6]), ' (%s)' % '; '.join(notes)[:400] if notes else ''), {'item': x, 'notes': notes})
    ev = lambda k: sum(1 for _, x, _ in items for e in x['doc'] if e['k'] == k)
    c.add(reports=len(items), traces_validated_against_impl=len(items), events=sum(len(x['doc']) for _, x, _ in items), equations=ev('eq'), matrices=ev('matrix'), rows=ev('row'),
          equations_not_compared=sum(1 for _, x, _ in items for e in x['eqs'] if not e[1]))
    c.samples = ['%s: %d events, %d equations, unknowns %s' % (n, len(x['doc']), len(x['eqs']), x['order']) for n, x, _ in items[:3]]
    c.assumptions = ['formulas are compared by their value at one assignment of the names', 'TeX is not run: well-formedness is the nesting of environments, braces, \\left/\\right, mathematics and lists']
    if not c.viol:
        rng = random.Random(SEED)
        ms = [m for m in (corrupt(rng.choice(items)[1], rng) for _ in range(80)) if m]
        got = clauses('ReportTrace', ms)
        if len(got) != len(ms): raise MachineryError('wrong reports accepted: %d of %d' % (len(ms) - len(got), len(ms)))
        c.add(corrupted_traces_rejected=len(ms))


def g04(c):
    fs = fkruns(c, fknames([1, 3, 8]), 12 if TIER == 'thorough' else 6)
    items = [x['fk'] for x in fs]
    for k, l in sorted(clauses('FkTrace', items).items()):
        x = fs[k]
        cl = [t for _, ts in l for t in ts]
        c.violation(x['name'], '%s: the forward-kinematics program: %s%s' % (x['name'], '; '.join(cl[:4]), ' (%s)' % '; '.join(x['notes'])[:400] if x['notes'] else ''), x['fk'])
    c.add(programs=len(items), poses=sum(len(i['poses']) for i in items), traces_validated_against_impl=sum(len(i['poses']) for i in items))
    c.samples = ['%s: %d poses' % (x['name'], len(x['fk']['poses'])) for x in fs[:3]]
    c.assumptions = ['joint values are filled in where the program assigns its dummy values, parameters without a stored value where it says XXXXX']
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in items:
            y = copy.deepcopy(x)
            p = rng.choice(y['poses'])
            if rng.random() < .2: y['valid'] = 0
            else: p['T'][rng.randrange(16)] += rng.choice((-1, 1)) * 300
            ms.append(y)
        got = clauses('FkTrace', ms)
        if len(got) != len(ms): raise MachineryError('wrong programs accepted: %d of %d' % (len(ms) - len(got), len(ms)))
        c.add(corrupted_traces_rejected=len(ms))


CHECKS = {'G03': ('model_checking', g03), 'G04': ('model_checking', g04)}
