"""K05: histories of runs on a real store of kinematics against spec/Cache (refined by spec/CacheFS)."""
import copy, json, os, random
from common import *
from chk_eqs import clauses


def k05(c):
    c.tlc_ok(tlc('CacheFS', 'CacheFS.cfg', workers=4, timeout=800), 'CacheFS')
    if TIER != 'quick':
        cfg = open(os.path.join(VERIF, 'spec', 'CacheFS.cfg')).read()
        c.tlc_ok(tlc('CacheFS', 'CacheFS.cfg', workers=8, timeout=800, heap='12g', cfgtext=cfg.replace('Chunks = 2', 'Chunks = 4').replace('Tables = {1, 2}', 'Tables = {1, 2, 3}').replace('Names = {1, 2}', 'Names = {1}')), 'CacheFS, 4 chunks, 3 tables')
        bad = tlc('CacheFS', 'CacheFS.cfg', workers=4, timeout=600, cfgtext=cfg.replace('InPlace = FALSE', 'InPlace = TRUE'))
        if 'is violated' not in bad['out']: raise MachineryError('writing in place is not told apart')
    d = scratch('cache')
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        rc, o = driver('drv_cache.py', [f, SEED, 4 if TIER == 'quick' else 60, k, 8], timeout=850)
        if rc == 0 and os.path.exists(f): return json.load(open(f))
        return [{'name': 'driver', 'err': 'driver: %s %s' % (rc, o[-1500:])}]
    rs = sum(pmap(one, range(8)), [])
    for x in rs:
        if x['err']: c.violation('raise', '%s: %s' % (x['name'], x['err'][-600:]), x)
    rs = [x for x in rs if not x['err']]
    bad = clauses('CacheTrace', [{'events': x['events']} for x in rs])
    for k, l in sorted(bad.items()):
        c.violation(rs[k]['name'].rstrip('0123456789 '), '%s: %s; %s' % (rs[k]['name'], l[0][1], rs[k]['notes']), rs[k])
    ev = [e for x in rs for e in x['events']]
    c.add(traces_validated_against_impl=len(rs), runs=sum(1 for e in ev if e['e'] == 'begin'), interrupted=sum(1 for e in ev if e['e'] == 'crash'),
          suspended=sum(1 for x in rs for n in x['notes'] if 'suspended' in n), refused=sum(1 for e in ev if e['outcome'] == 2), worked=sum(1 for e in ev if e['outcome'] == 1))
    c.samples = ['%s: %s' % (x['name'], '; '.join(x['notes'])) for x in rs[:3]]
    c.assumptions = ['a run is interrupted between two file operations or in the middle of a write; power loss with reordered disk writes is outside',
                     'the same table with another list of unknowns is not told apart by the store']
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in rng.sample(rs, min(len(rs), 40)):
            x = copy.deepcopy({'events': x['events']})
            e = rng.choice([e for e in x['events'] if e['e'] == 'end'] or [None])
            if e is None: continue
            k = rng.randrange(3)
            if k == 0: e['outcome'] = 0
            elif e['outcome'] == 1: e['model'] = e['t'] % 3 + 1
            else: e['outcome'], e['model'] = 1, e['t']
            ms.append(x)
        got = clauses('CacheTrace', ms)
        if len(got) < len(ms): raise MachineryError('changed histories accepted: %d of %d' % (len(ms) - len(got), len(ms)))
        c.add(corrupted_traces_rejected=len(ms))


CHECKS = {'K05': ('model_checking', k05)}
