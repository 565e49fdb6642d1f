"""K07: runs of the solver under different hash seeds, stores and earlier lookups, stepped together (spec/Twin)."""
import copy, json, os, random
from common import *
from chk_eqs import clauses
from chk_solve import names

QUICK = ['Wrist', 'MiniDD', 'Chair_Helper', 'Srisuan11']
CONFIGS = [('0', 'new'), ('3', 'after'), ('11', 'stored')]
MORE = [('1', 'new'), ('random', 'new')]


def k07(c):
    d = scratch('det')
    ns = QUICK + ['random:3', 'random:6'] if TIER == 'quick' else [n for n in names() if ':' not in n or n.startswith('random:') and int(n[7:]) < 24]
    jobs = [(n, h, m) for n in ns for h, m in CONFIGS + (MORE[1:] if TIER == 'quick' else MORE)]
    order = sorted(jobs, key=lambda j: (j[2] != 'stored', j[0]))
    def one(j):
        n, h, m = j
        f = os.path.join(d, '%s-%s-%s.json' % (n.replace(':', ''), h, m))
        rc, o = driver('drv_det.py', [f, n, m], timeout=800, env={'PYTHONHASHSEED': h, 'IKBT_MEMO': 'off'})
        if rc == 0 and os.path.exists(f): return json.load(open(f))
        return {'name': n, 'err': 'driver: %s %s' % (rc, o[-900:])}
    res = dict(zip(order, pmap(one, order)))
    texts = {}
    num = lambda t: texts.setdefault(t, len(texts) + 1)
    items, raw = [], []
    for n in ns:
        rs = [(h, m, res[(n, h, m)]) for a, h, m in jobs if a == n]
        for h, m, x in rs:
            if x['err']: c.violation('raise:' + n, '%s (hash seed %s, %s): %s' % (n, h, m, x['err'][-600:]), x)
        if any(x['err'] for _, _, x in rs): continue
        items.append({'runs': [{'events': [num(e) for e in x['events']], 'files': [[num(f), num('\n'.join(t))] for f, t in x['files']]} for _, _, x in rs]})
        raw.append((n, rs))
    for k, l in sorted(clauses('Twin', items).items()):
        n, rs = raw[k]
        w = json.loads(l[0][1][0])
        r = rs[w['runs'][0] - 1]
        a, b = rs[0][2], r[2]
        if 'observation' in w:
            j = w['observation'] - 1
            t = '%s | %s' % (a['events'][j:j + 1], b['events'][j:j + 1])
        else:
            t = '; '.join(['%s: %r | %r' % (p[0], s[:120], q2[:120]) for p, q in zip(a['files'], b['files']) for s, q2 in zip(p[1], q[1]) if s != q2][:3])
        c.violation(n, '%s: hash seed %s, %s and hash seed %s, %s differ: %s' % (n, rs[0][0], rs[0][1], r[0], r[1], t[:800]), {'a': a, 'b': b})
    c.add(traces_validated_against_impl=len(jobs), robots=len(items), observations=sum(len(r['events']) for i in items for r in i['runs']), files=sum(len(r['files']) for i in items for r in i['runs']))
    c.samples = [e[:200] for e in raw[0][1][0][2]['events'][:3]] if raw else []
    c.assumptions = ['lines with a date are left out of the comparison of files', 'the same interpreter and sympy version in both runs']
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in items:
            for k in range(4):
                y = copy.deepcopy(x)
                r = rng.choice(y['runs'])
                if k == 0: r['events'][rng.randrange(len(r['events']))] = 0
                elif k == 1: r['events'].append(7)
                elif k == 2 and r['files']: rng.choice(r['files'])[1] = 0
                elif k == 3 and r['files']: r['files'].pop()
                else: continue
                ms.append(y)
        got = clauses('Twin', ms)
        if len(got) != len(ms): raise MachineryError('different runs accepted: %d of %d' % (len(ms) - len(got), len(ms)))
        c.add(corrupted_traces_rejected=len(ms))


CHECKS = {'K07': ('model_checking', k07)}
