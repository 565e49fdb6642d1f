"""K01-K04: kinematics against spec/Rigid.tla."""
import copy, json, os, random
from common import *

ROBOTS = ['ArmRobo', 'Arm_3', 'Axtman13', 'Bartell', 'Brad', 'Chair_Helper', 'Craig417', 'DZhang', 'Frei13', 'ICP5p5_A21',
          'Issue4', 'JennyGuoSp24', 'KR16', 'KawasakiRS007L', 'KawasakiRS05L', 'Khat6DOF', 'Mackler13', 'Minder13', 'MiniDD',
          'Olson13', 'Palm13', 'Parkman13', 'Puma', 'Pumaoffset', 'Raven-II', 'Sims11', 'Srisuan11', 'Stanford', 'UR5',
          'Wachtveitl', 'Wrist']


def design(c):
    """the laws of Rigid over small fields"""
    cfgs = [('P = 5 N = 2 Len0 = {2}', 3), ('P = 7 N = 1 Len0 = {1, 3}', 2)]
    if TIER == 'thorough':
        cfgs = [('P = 5 N = 2 Len0 = {0, 2}', 4), ('P = 7 N = 2 Len0 = {3}', 4)]
    base = open(os.path.join(VERIF, 'spec', 'RigidMC.cfg')).read()
    for (t, w), r in zip(cfgs, pmap(lambda x: tlc('RigidMC', 'RigidMC.cfg', workers=x[1], timeout=850,
                                                  cfgtext=base.replace('P = 5 N = 2 Len0 = {0, 2}', x[0])), cfgs, 2)):
        c.tlc_ok(r, 'Rigid laws ' + t)


def kintrace(items, n=6):
    """items through KinTrace; returns {index: clauses}"""
    d = scratch('kt')
    n = min(n, len(items)) or 1
    def one(k):
        part = items[k::n]
        if not part: return {}
        f = os.path.join(d, '%d.json' % k)
        json.dump({'items': part}, open(f, 'w'))
        v = need(tlc('KinTrace', 'KinTrace.cfg', env={'TRACE': f}, timeout=850))
        return {(b['it'] - 1) * n + k: b['clauses'] for b in v['bad']}
    res = {}
    for x in pmap(one, range(n), n): res.update(x)
    return res


def kin_items(c, what):
    """symbolic kinematics of all robots and of random mechanisms"""
    d = scratch('kin')
    nr, per = (40, 30) if TIER == 'thorough' else (8, 6)
    jobs = [[n] for n in ROBOTS] + [['random', SEED * 1000 + i, per] for i in range(nr)]
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        rc, o = driver('drv_kin.py', [f] + jobs[k], timeout=600)
        return json.load(open(f)) if rc == 0 and os.path.exists(f) else [{'name': str(jobs[k]), 'err': 'driver: %s' % o[-1500:], 'item': None, 'skip': ''}]
    rs = sum(pmap(one, range(len(jobs))), [])
    for r in rs:
        if r['err']:
            c.violation('raise:' + r['name'][:60], '%s: %s' % (r['name'], r['err']))
    items = [r['item'] for r in rs if r['item']]
    for it in items:      # only what this property needs
        if what != 'T06': it['T06'] = []
        if what != 'eqs': it['eqs'] = []
        if what != 'J': it['J'] = []
    c.add(mechanisms=len(items), outside_the_field=len([r for r in rs if r['skip']]))
    c.samples = [r['name'] for r in rs[-4:]]
    return items


def mutants(c, items, what, rng):
    """a recorded value changed: every item must be rejected"""
    ms = []
    for it in rng.sample(items, min(8, len(items))):
        it = copy.deepcopy(it)
        it['prog'].append([0, 12345, 0]); k = len(it['prog'])
        if what == 'T06': it['T06'][rng.randrange(12)] = k
        elif what == 'eqs': rng.choice(it['eqs'])[rng.choice(['Td', 'Ts'])][rng.randrange(12)] = k
        elif what == 'J': it['J'][6 * rng.randrange(6) + rng.randrange(len([1 for r in it['dh']]))] = k
        it['points'] = it['points'][:1]
        ms.append(it)
    bad = kintrace(ms)
    if len(bad) != len(ms):
        raise MachineryError('changed results accepted: %d of %d' % (len(bad), len(ms)))
    c.add(corrupted_traces_rejected=len(ms))


def sym(pid, what, clauses):
    def fn(c):
        design(c)
        items = kin_items(c, what)
        bad = kintrace(items)
        c.add(traces_validated_against_impl=len(items), points=sum(len(i['points']) for i in items))
        for k, cl in sorted(bad.items()):
            if 'point' in cl: raise MachineryError('bad point')
            c.violation(items[k]['name'][:60], '%s: %s' % (items[k]['name'], cl), items[k]['name'])
        c.assumptions = ['an identity of rational functions that fails does so at random points of GF(46273) (Schwartz-Zippel, error below 1 in 1000 per point)',
                         'pi/12 and square roots of 2 and 3 are represented exactly, other numeric twists as independent directions']
        if what == 'T06':
            numeric(c)
        if not c.viol:
            mutants(c, items, what, random.Random(SEED))
    return fn


def numeric(c):
    d = scratch('num')
    nr = 24 if TIER == 'thorough' else 6
    jobs = [('robots', ROBOTS[k::4], k) for k in range(4)] + [('random', [], SEED * 100 + i) for i in range(nr)]
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        rc, o = driver('drv_num.py', [f, jobs[k][0], jobs[k][2]] + jobs[k][1], timeout=600)
        return json.load(open(f)) if rc == 0 and os.path.exists(f) else [{'name': str(jobs[k]), 'err': 'driver: %s' % o[-1500:], 'item': None, 'skip': ''}]
    rs = sum(pmap(one, range(len(jobs))), [])
    for r in rs:
        if r['err']: c.violation('numeric:' + r['name'][:60], '%s: %s' % (r['name'], r['err']))
    items = [r['item'] for r in rs if r['item']]
    for k, cl in sorted(kintrace(items).items()):
        c.violation('numeric:' + items[k]['name'][:60], 'numeric pose: %s: %s' % (items[k]['name'], cl), items[k]['name'])
    c.add(numeric_poses=len(items))
    if not items: raise MachineryError('no numeric pose')


def k04(c):
    design(c)
    f = os.path.join(scratch('lib'), 'lib.json')
    rc, out = driver('drv_lib.py', [f, SEED, TIER], timeout=600)
    if rc != 0 or not os.path.exists(f):
        c.violation('driver', 'the library could not be driven: %s' % out[-1500:], out)
        return
    cases = json.load(open(f))['cases']
    def run(cs, n=4):
        def one(k):
            g = '%s.%d' % (f, k)
            json.dump({'cases': cs[k::n]}, open(g, 'w'))
            return {(b['it'] - 1) * n + k: b['fn'] for b in need(tlc('LibTrace', 'LibTrace.cfg', env={'TRACE': g}))['bad']}
        res = {}
        for x in pmap(one, range(n), n): res.update(x)
        return res
    for k, fnm in sorted(run(cases).items()):
        c.violation(fnm, cases[k]['what'], cases[k])
    c.add(traces_validated_against_impl=len(cases))
    c.samples = [cases[0]['what'], cases[30]['what'], cases[-1]['what']]
    c.assumptions = ['numeric functions are exercised at angles with rational sine and cosine and integer lengths',
                     'wrap_angle_N is used within one and a half turns']
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in rng.sample([x for x in cases if x['scalar'] == 0], 12):
            x = copy.deepcopy(x)
            x['prog'].append([0, 77, 0]); x['res'][rng.randrange(12)] = len(x['prog'])
            ms.append(x)
        for x in rng.sample([x for x in cases if x['scalar'] == 1], 12):
            x = copy.deepcopy(x); x['r'] = 1 - x['r'] if x['fn'] == 'approx' else x['r'] + 1
            ms.append(x)
        if len(run(ms, 2)) != len(ms): raise MachineryError('changed results accepted')
        c.add(corrupted_traces_rejected=len(ms))


CHECKS = {'K01': ('model_checking', sym('K01', 'T06', ['fk'])), 'K02': ('model_checking', sym('K02', 'eqs', [])),
          'K03': ('model_checking', sym('K03', 'J', [])), 'K04': ('model_checking', k04)}
