"""S05, S06, S11: the equations of the solver against spec/Scan, Rigid (KinTrace) and Sums."""
import copy, json, os, random
from common import *
from chk_solve import runs, split_tlc, names, ROBOTS, RANDOM_T
from chk_kin import kintrace

SMALL = ['MiniDD', 'Chair_Helper', 'Frei13', 'Wachtveitl', 'Srisuan11', 'Olson13', 'Arm_3', 'Axtman13', 'Bartell', 'Brad',
         'ICP5p5_A21', 'Minder13', 'Palm13', 'Sims11', 'Wrist']


def generated(c, script, count, jobs=8, more=()):
    """results of a driver OUT SEED COUNT, run in parallel with different seeds"""
    d = scratch(script)
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        rc, o = driver(script, [f, SEED * 100 + k, count] + list(more), timeout=800)
        if rc == 0 and os.path.exists(f): return json.load(open(f))
        return [{'name': script, 'err': 'driver: %s %s' % (rc, o[-1500:])}]
    rs = sum(pmap(one, range(jobs)), [])
    for x in rs:
        if x['err']: c.violation('raise:' + script, '%s: %s' % (x['name'], x['err'][-900:]), x)
    return [x for x in rs if not x['err']]


def clauses(module, items, cfgtext=None):
    res = {}
    for idx, v in split_tlc(module, 'items', items, cfgtext=cfgtext):
        for b in v['bad']: res.setdefault(idx[b['it'] - 1], []).append((b.get('call', b.get('k', 0)), b['clauses']))
    return res


# ---------------------------------------------------------------- equation lists
def s05(c):
    c.tlc_ok(tlc('ScanMC', 'ScanMC.cfg', workers=4, timeout=600), 'Scan')
    rs = [dict(x['scan'], name=x['name']) for x in runs(c, 'scan', names(SMALL, [1, 3, 6, 8])) if x.get('scan')]
    sy = generated(c, 'drv_scan.py', 60 if TIER == 'quick' else 800)
    items = rs + sy
    bad = clauses('ScanTrace', [{'eqs': x['eqs'], 'calls': x['calls']} for x in items])
    for k, l in sorted(bad.items()):
        c.violation(items[k]['name'].split()[0], '%s: %s' % (items[k]['name'], l[:3]), items[k])
    c.add(traces_validated_against_impl=len(items), scans=sum(len(x['calls']) for x in items), synthetic=len(sy), equations=sum(len(x['eqs']) for x in items))
    c.samples = [x['name'] for x in items[:2] + items[-2:]] + rs[0].get('text', [])[:2]
    c.assumptions = ['complexity is the number of operations sympy counts', 'an unknown on both sides of an equation counts twice, as the code has it']
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in rng.sample(sy, 60):
            x = copy.deepcopy({'eqs': x['eqs'], 'calls': x['calls'][:1]})
            q = x['calls'][0]
            k = rng.randrange(3)
            if k == 0:
                l = [l for l in q['lists'] if any(e in q['ent'] for e in l)]
                if not l: continue
                l = rng.choice(l); l.remove(rng.choice([e for e in l if e in q['ent']]))
            elif k == 1:
                l = [i for i in range(3) if q['lists'][i]]
                if not l: continue
                i = rng.choice(l); q['lists'][(i + 1) % 3].append(q['lists'][i].pop())
            else:
                l = [l for l in q['lists'] if l]
                if not l: continue
                l = rng.choice(l); l += [l[-1]] * 4
            ms.append(x)
        missed = len(ms) - len(clauses('ScanTrace', ms))
        if missed: raise MachineryError('changed lists accepted: %d of %d' % (missed, len(ms)))
        c.add(corrupted_traces_rejected=len(ms))


# ---------------------------------------------------------------- true equations
def break_item(it, rng):
    it = copy.deepcopy(it)
    n = len(it['scalars'])
    i = rng.randrange(n)
    js = [j for j in range(n) if it['scalars'][j][1] != it['scalars'][i][1] and it['scalars'][j][0] != it['scalars'][i][0]]
    if not js: return None, 0
    j = rng.choice(js)
    it['scalars'][i] = [it['scalars'][i][0], it['scalars'][j][1]]
    it['notes'] = []
    return it, i


def s06(c):
    rs = [x for x in runs(c, 'eqs', names(SMALL, [1, 3, 6, 8])) if x.get('item')]
    items = [x['item'] for x in rs]
    gen = generated(c, 'drv_trans.py', 4, more=[30, 'small']) if TIER == 'quick' else generated(c, 'drv_trans.py', 200, more=[420])
    items += [x['item'] for x in gen if x.get('item')]
    nm = [x['name'] for x in rs] + [x['name'] for x in gen if x.get('item')]
    notes = [it.pop('notes') for it in items]
    bad = kintrace(items, 8)
    for k, cl in sorted(bad.items()):
        ts = [notes[k][int(t.split(',')[1].strip(' >')) - 1] if t.startswith('<<') else t for t in cl]
        c.violation(nm[k].split()[0] if nm[k].startswith('random') or nm[k] in ROBOTS else 'transformation', '%s: %d equations false, such as %s' % (nm[k], len(ts), ts[:3]), ts)
    c.add(traces_validated_against_impl=len(items), equations=sum(len(it['scalars']) for it in items), transformations=len(gen))
    c.samples = [x[0] for x in notes[:2] if x] + [x[-1] for x in notes[-2:] if x]
    c.assumptions = ['equality is decided at random points of a field of 46337-ish elements (a false equation survives a point with probability below 1e-3), so numbers that are not rational in cosines and sines of the joints are outside']
    if not c.viol:
        rng = random.Random(SEED)
        ms = [m for m in (break_item(rng.choice([it for it in items if len(it['scalars']) > 3]), rng)[0] for _ in range(10)) if m]
        if len(kintrace(ms, 8)) != len(ms): raise MachineryError('false equations accepted')
        c.add(corrupted_traces_rejected=len(ms))


# ---------------------------------------------------------------- sums of angles
def s11(c):
    c.tlc_ok(tlc('SumsMC', 'SumsMC.cfg', workers=4, timeout=600), 'Sums')
    rs = [x for x in runs(c, 'soa', names(SMALL, [1, 3, 6, 8])) if x.get('soa')]
    gen = generated(c, 'drv_soa.py', 40 if TIER == 'quick' else 400)
    items = [{'name': x['name'], 'states': x['soa']} for x in rs] + gen
    bad = clauses('SumsTrace', [{'states': x['states']} for x in items])
    for k, l in sorted(bad.items()):
        c.violation(items[k]['name'].split()[0], '%s: %s %s' % (items[k]['name'], l[:3], items[k].get('text', [])[:3]), items[k])
    vals = kintrace([x['item'] for x in gen], 8)
    for k, cl in sorted(vals.items()):
        c.violation('value', '%s: replacing sums changed a value: %s %s' % (gen[k]['name'], cl[:3], gen[k]['text'][:3]), gen[k])
    c.add(traces_validated_against_impl=len(items), registry_states=sum(len(x['states']) for x in items), values_compared=sum(len(x['item']['scalars']) for x in gen))
    c.samples = [x['name'] for x in rs[:2]] + [t[:200] for t in gen[0]['text'][:2]]
    c.assumptions = ['joints are numbered by one digit (six axes)', 'angles are summed with coefficient one and no constant offset, the sums the code supports']
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in items:
            st = [s for s in x['states'] if s['reg']]
            if not st: continue
            x = copy.deepcopy({'states': x['states']})
            s = rng.choice([s for s in x['states'] if s['reg']])
            k = rng.randrange(4)
            if k == 0: s['reg'].append(s['reg'][0])
            elif k == 1: s['unk'].append(s['unk'][0])
            elif k == 2: s['reg'][-1]['def'] = s['reg'][-1]['def'][:-1]
            else: s['reg'].pop()
            ms.append(x)
        ms = ms[:60]
        missed = len(ms) - len(clauses('SumsTrace', ms))
        if missed: raise MachineryError('changed registries accepted: %d of %d' % (missed, len(ms)))
        c.add(corrupted_traces_rejected=len(ms))


CHECKS = {'S05': ('model_checking', s05), 'S06': ('model_checking', s06), 'S11': ('model_checking', s11)}
