"""B01 B02 B03 B05: the behaviour-tree engine against spec/BT.tla."""
import copy, json, os, random
from common import *

CLAUSE = {'B01': 'composite', 'B02': 'decorator', 'B03': 'lifecycle', 'B05': 'accounting'}
FAMILIES = {'B01': (1, 3, 5), 'B02': (2, 3, 4), 'B03': (2, 4), 'B05': (1, 4)}


def validate(path):
    """chunks of a recorded trace file through EngineTrace, in parallel"""
    data = json.load(open(path))
    eps = data['episodes']
    n = min(NCPU, 4)
    d = scratch('bt')
    def one(k):
        f = os.path.join(d, '%s.%d.json' % (os.path.basename(path), k))
        part = eps[k::n]
        if not part:
            return None
        json.dump({'episodes': part}, open(f, 'w'))
        r = tlc('EngineTrace', 'EngineTrace.cfg', env={'TRACE': f})
        v = need(r)
        return {'r': r, 'n': v['episodes'],
                'bad': [dict(b, ep=n * (b['ep'] - 1) + k) for b in v['bad']]}
    res = [x for x in pmap(one, range(n), n) if x]
    return (sum(x['n'] for x in res), sum(x['r']['states'] for x in res),
            sorted((b for x in res for b in x['bad']), key=lambda b: b['ep']), eps)


def corrupt(eps, rng, n=60):
    """recorded behaviours with one field changed: every one must be rejected"""
    res = []
    eps = [e for e in eps if len(e['ev']) > 8]
    while len(res) < n:
        e = copy.deepcopy(rng.choice(eps))
        ev = e['ev']
        i = rng.randrange(len(ev))
        kind = rng.choice(['drop', 'status', 'obs', 'swap'])
        if kind == 'drop' and i < len(ev) - 1:
            del ev[i]
        elif kind == 'status' and ev[i]['e'] == 'done':
            ev[i]['s'] = ev[i]['s'] % 4 + 1
        elif kind == 'obs' and ev[i]['e'] == 'done':
            k = rng.choice(['total', 'nticks', 'nsucc', 'cost', 'tcount'])
            j = rng.randrange(len(ev[i]['obs'][k]))
            ev[i]['obs'][k][j] += 1
        elif kind == 'swap' and i + 1 < len(ev) and ev[i]['e'] != ev[i + 1]['e']:
            ev[i], ev[i + 1] = ev[i + 1], ev[i]
        else:
            continue
        res.append(e)
    return res


def run(pid):
    def fn(c):
        fams = FAMILIES[pid] if TIER == 'quick' else (1, 2, 3, 4, 5)
        cfg = open(os.path.join(VERIF, 'spec', 'BTMC.cfg')).read()
        for r, f in zip(pmap(lambda f: tlc('BTMC', 'BTMC%d.cfg' % f, workers=3, cfgtext=cfg.replace('Family = 1', 'Family = %d' % f)
                                            .replace('MaxTicks = 2', 'MaxTicks = %d' % (3 if TIER == 'thorough' and f in (1, 2) else 2)),
                                            timeout=840), fams, 3), fams):
            c.tlc_ok(r, 'BT family %d' % f)
        t = os.path.join(scratch('bt'), 'trace.json')
        rc, out = driver('drv_bt.py', [t, SEED, TIER], timeout=300)
        if rc != 0 or not os.path.exists(t):
            c.violation('driver', 'the engine could not be driven: %s' % out[-1500:], out)
            return
        n, st, bad, eps = validate(t)
        c.add(traces_validated_against_impl=n, trace_events=sum(len(e['ev']) for e in eps), trace_states=st)
        for b in bad:
            if b['clause'] == CLAUSE[pid]:
                e = eps[b['ep']]
                c.violation('%s' % b['clause'],
                            'episode %d event %d: the specification expects %s, the engine did %s' %
                            (b['ep'], b['l'], b['expected'], e['ev'][b['l'] - 1]),
                            {'episode': dict(e, ev=e['ev'][:b['l'] + 2]), 'verdict': b})
        c.add(divergences_of_other_properties=len([b for b in bad if b['clause'] != CLAUSE[pid]]))
        c.samples = [{'nodes': eps[7]['nodes'], 'ev': eps[7]['ev'][:12]}, {'nodes': eps[-1]['nodes'], 'ev': eps[-1]['ev'][:6]}]
        c.assumptions = ['leaf statuses and durations are the environment', 'limits of loops are small in the exhaustive runs',
                         'trees are not modified while they are ticked']
        if not bad:
            f = os.path.join(scratch('bt'), 'corrupt.json')
            cs = corrupt(eps, random.Random(SEED), 60)
            json.dump({'episodes': cs}, open(f, 'w'))
            _, _, cb, _ = validate(f)
            rej = len(set(b['ep'] for b in cb))
            c.add(corrupted_traces_rejected=rej)
            if rej != len(cs):
                raise MachineryError('only %d of %d corrupted traces were rejected' % (rej, len(cs)))
    return fn


CHECKS = {p: ('model_checking', run(p)) for p in CLAUSE}


def b04(c):
    """B04: scopes of the blackboard"""
    c.tlc_ok(tlc('BlackboardMC', 'BlackboardMC.cfg', workers=4), 'Blackboard')
    d = scratch('bb')
    f = os.path.join(d, 'bb.json')
    rc, out = driver('drv_bb.py', [f, SEED, TIER], timeout=300)
    if rc != 0 or not os.path.exists(f):
        c.violation('driver', 'the blackboard could not be driven: %s' % out[-1500:], out)
        return
    eps = json.load(open(f))['episodes']
    v = need(tlc('BlackboardTrace', 'BlackboardTrace.cfg', env={'TRACE': f}))
    c.add(traces_validated_against_impl=v['episodes'], operations=sum(map(len, eps)))
    for b in v['bad']:
        c.violation('op', 'sequence %d, operation %d: expected %s, got %s' % (b['ep'], b['l'], b['expected'], b['got']),
                    eps[b['ep'] - 1][:b['l']])
    c.samples = [eps[0][:8], eps[-1][-2:]]
    c.assumptions = ['scopes are hashable', 'a tree scope is born with an empty list of open nodes under its own key']
    if not v['bad']:
        rng = random.Random(SEED)
        cs = []
        for e in rng.sample(eps, 60):
            e = copy.deepcopy(e)
            x = rng.choice([x for x in e if x['op'] == 'get'])
            x['r'] = {'ty': x['r']['ty'], 'v': x['r']['v'] + 7}
            cs.append(e)
        json.dump({'episodes': cs}, open(f, 'w'))
        v = need(tlc('BlackboardTrace', 'BlackboardTrace.cfg', env={'TRACE': f}))
        if len(v['bad']) != len(cs):
            raise MachineryError('corrupted sequences accepted')
        c.add(corrupted_traces_rejected=len(cs))


def b06(c):
    """B06: saving and reading back a tree"""
    c.tlc_ok(tlc('TreeDocMC', 'TreeDocMC.cfg', workers=4), 'TreeDoc')
    d = scratch('doc')
    f, g = os.path.join(d, 'doc.json'), os.path.join(d, 'bt.json')
    rc, out = driver('drv_doc.py', [f, g, SEED, TIER], timeout=300)
    if rc != 0 or not os.path.exists(g):
        c.violation('driver', 'trees could not be saved and read: %s' % out[-1500:], out)
        return
    eps = json.load(open(f))['episodes']
    v = need(tlc('TreeDocTrace', 'TreeDocTrace.cfg', env={'TRACE': f}))
    c.add(traces_validated_against_impl=v['episodes'])
    for b in v['bad']:
        c.violation('doc', 'tree %d: %s' % (b['ep'], b['clause']), eps[b['ep'] - 1])
    if not v['bad']:
        n, st, bad, be = validate(g)
        c.add(loaded_trees_run=n)
        for b in bad:
            c.violation('run', 'a loaded tree does not run like the saved one: %s' % b, be[b['ep']])
    c.samples = [eps[3], eps[5]]
    c.assumptions = ['nodes whose constructor needs arguments (Limiter, MaxTime, ...) cannot be read back and are left out',
                     'node parameters are not part of the document', 'the node graph is acyclic']
    if not c.viol:
        rng = random.Random(SEED)
        cs = []
        for e in rng.sample([e for e in eps if e['doc'] and e['mode'] != 'unknown'], 40):
            e = copy.deepcopy(e)
            x = rng.choice(e[rng.choice(['doc', 'load'])])
            k = rng.choice(['title', 'desc', 'ch', 'name'])
            x[k] = x[k] + ([1] if k == 'ch' else 'X')
            cs.append(e)
        json.dump({'episodes': cs}, open(f, 'w'))
        v = need(tlc('TreeDocTrace', 'TreeDocTrace.cfg', env={'TRACE': f}))
        if len(v['bad']) != len(cs):
            raise MachineryError('corrupted documents accepted')
        c.add(corrupted_traces_rejected=len(cs))


CHECKS['B04'] = ('model_checking', b04)
CHECKS['B06'] = ('model_checking', b06)
