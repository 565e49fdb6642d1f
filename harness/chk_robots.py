"""K06: the robot table against spec/Robots."""
import copy, json, os, random
from common import *


def verdict(x):
    d = scratch('robots')
    f = os.path.join(d, 'r%d.json' % random.randrange(10 ** 9))
    json.dump({k: x[k] for k in ('tables', 'rep', 'histories')}, open(f, 'w'))
    r = tlc('RobotsTrace', 'RobotsTrace.cfg', env={'TRACE': f}, workers=1, timeout=600)
    v = r['verdicts'].get('VERDICT')
    if not v: raise MachineryError('RobotsTrace gave no verdict: %s' % r['out'][-1500:])
    v = v[0] if isinstance(v, list) else v
    return {b['it'] - 1: b['clauses'] for b in v['bad']}


def k06(c):
    d = scratch('robots')
    f = os.path.join(d, 'robots.json')
    rc, o = driver('drv_robots.py', [f, SEED, 24 if TIER == 'quick' else 400], timeout=850)
    if rc != 0 or not os.path.exists(f): raise MachineryError('driver: %s %s' % (rc, o[-1500:]))
    x = json.load(open(f))
    if x['err']:
        c.violation('raise', 'a lookup ended with an error: %s' % x['err'][:900], x); return
    if len(x['names']) < 10:
        c.violation('names', 'the refusal of an unknown name lists %s' % x['names'], x); return
    for k, cl in sorted(verdict(x).items()):
        n = len(x['tables'])
        if k < n: c.violation(x['names'][k], 'robot %s: %s' % (x['names'][k], cl), x['tables'][k])
        else: c.violation('history', 'history %d: %s %s' % (k - n, cl, [(x['names'][a - 1] if a else 'unknown name', b) for a, b in x['histories'][k - n]]), x['histories'][k - n])
    c.add(traces_validated_against_impl=len(x['tables']) + len(x['histories']), robots=len(x['names']), lookups=sum(len(h) for h in x['histories']))
    c.samples = ['%s: %s' % (x['names'][0], x['tables'][0])]
    c.assumptions = ['that a table describes the arm of that name in the literature is outside: there is no machine-readable source of it']
    if not c.viol:
        rng = random.Random(SEED)
        m = copy.deepcopy(x)
        want = set()
        for k, t in enumerate(m['tables']):
            w = rng.randrange(6)
            u = t['unknowns']
            if w == 0: i = [i for i, r in enumerate(t['rows']) if u[0]['sym'] in r['th'] + r['d']][0]; t['types'][i] = 1 - t['types'][i]
            elif w == 1: u[-1]['n'] += 1
            elif w == 2 and t['params']: q = rng.choice(t['params']); t['params'] = [p for p in t['params'] if p != q]; want -= {k}; \
                want |= {k} if any(q in r[z] for r in t['rows'] for z in r) else set(); continue
            elif w == 3: u.append(u[0])
            elif w == 4: u.pop()
            else: t['rows'].pop()
            want.add(k)
        for k, h in enumerate(m['histories']): h[rng.randrange(len(h))][1] = -1; want.add(len(m['tables']) + k)
        got = set(verdict(m))
        if want - got: raise MachineryError('changed tables accepted: %s' % sorted(want - got))
        c.add(corrupted_traces_rejected=len(want))


CHECKS = {'K06': ('model_checking', k06)}
