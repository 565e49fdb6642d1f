"""S07: the solving methods on generated equations against spec/Roots."""
import copy, os, random
from common import *
from chk_eqs import generated, clauses


def corrupt(x, rng):
    x = copy.deepcopy(x)
    ps = x['pts']
    k = rng.randrange(7)
    if k == 0:                                      # another branch at every point
        for p in ps:
            for s in p['sols']: s['s'], s['c'], s['u'], s['res'] = s['c'] + 700, s['s'] - 700, s['u'] + 900, 900
    elif k == 1:                                    # the branch of the true value lost
        for p in ps:
            p['sols'] = [s for s in p['sols'] if abs(s['s'] - p['true']['s']) + abs(s['c'] - p['true']['c']) + abs(s['u'] - p['true']['u']) > 20]
    elif k == 2:
        for p in ps: p['sols'].append(p['sols'][0])
        if not all(p['sols'][0]['real'] for p in ps): return None
    elif k == 3: x['own'] = 1
    elif k == 4: x['nsol'] += 1
    elif k == 5: x['others'] = 1
    else:
        if not any(e['lin'] for e in ps[0]['chosen']): return None
        for p in ps:
            for e in p['chosen']: e['K'] += 2500; e['A'] -= 1500
    return x


def s07(c):
    if TIER == 'quick': c.tlc_ok(tlc('RootsMC', 'RootsMC.cfg', workers=4, timeout=600), 'Roots')
    else:
        for P in (5, 7, 11, 13): c.tlc_ok(tlc('RootsMC', 'RootsMC.cfg', workers=8, timeout=800, cfgtext=open(os.path.join(VERIF, 'spec', 'RootsMC.cfg')).read().replace('P = 7', 'P = %d' % P)), 'Roots over %d' % P)
    gen = generated(c, 'drv_roots.py', 240 if TIER == 'quick' else 3000)
    items = [{k: v for k, v in x.items() if k not in ('text', 'err', 'name')} for x in gen]
    bad = clauses('RootsTrace', items)
    kinds = {}
    for k, l in sorted(bad.items()):
        cl = sorted(set(sum((x[1] for x in l), [])))
        c.violation('method %d: %s' % (gen[k]['method'], cl[0]), '%s: %s %s' % (gen[k]['name'], cl, gen[k]['text']), gen[k])
    acc = [x for x in gen if x['id'] == 1 and x['solve'] == 1]
    c.add(traces_validated_against_impl=len(gen), accepted=len(acc), declined=len(gen) - len(acc), points=sum(len(x['pts']) for x in gen),
          per_method={str(m): sum(1 for x in acc if x['method'] == m) for m in range(1, 6)})
    c.samples = [' ; '.join(x['text'])[:300] for x in acc[:4]]
    c.assumptions = ['a solution is compared at random points, in fixed point with a tolerance near 0.003 of the size of the coefficients',
                     'a tangent solution with two branches (common unknown factor) is right in one of them',
                     'which equation is preferred when several are suitable is not specified']
    if not c.viol:
        rng = random.Random(SEED)
        pool = [x for x, g in zip(items, gen) if g in acc and len(g['pts']) == 5]
        ms = [m for m in (corrupt(rng.choice(pool), rng) for _ in range(120)) if m]
        got = clauses('RootsTrace', ms)
        if len(got) < len(ms) * 0.95: raise MachineryError('changed outcomes accepted: %d of %d' % (len(ms) - len(got), len(ms)))
        c.add(corrupted_traces_rejected=len(got))


CHECKS = {'S07': ('model_checking', s07)}
