"""P01: histories of runs of the two programs in one working directory against spec/Work."""
import copy, json, os, random
from common import *
from chk_eqs import clauses

IK = ['Wrist', 'Srisuan11', 'Arm_3']
FK = ['Wrist', 'Srisuan11', 'Arm_3']
ALONE = [('fk', 'Raven-II'), ('ik', 'ICP5p5_A21'), ('ik', 'Chair_Helper')]      # names with other characters
UNKNOWN = ['NoSuchRobot', 'wrist', 'Wrist ', 'Wrist2', 'Arm', '../Wrist', '']


def p01(c):
    cfg = open(os.path.join(VERIF, 'spec', 'WorkMC.cfg')).read()
    two, three = cfg.replace('Runs = {1, 2, 3}', 'Runs = {1, 2}'), cfg.replace('Robots = {1, 2}', 'Robots = {1}')
    ik, fk = (IK + ['Frei13', 'MiniDD', 'Chair_Helper', 'Stanford', 'Axtman13'], FK + ['Raven-II', 'Puma', 'Pumaoffset', 'Frei13', 'MiniDD', 'Chair_Helper', 'Stanford', 'Axtman13', 'KR16']) if TIER == 'thorough' else (IK, FK)
    robots = fk
    d = scratch('work')
    def ref(j):
        if j == 'design':
            return tlc('WorkMC', 'WorkMC.cfg', workers=2 if TIER == 'quick' else 4, timeout=850, cfgtext=two if TIER == 'quick' else three)
        f = os.path.join(d, '%s.%s.json' % j)
        rc, o = driver('drv_work.py', [f, 'ref', j[0], j[1]], timeout=600)
        if rc == 0 and os.path.exists(f): return json.load(open(f))
        raise MachineryError('no run alone: %s %s %s' % (j, rc, o[-1500:]))
    jobs = ['design'] + [j for j in ALONE if j[1] not in robots] + [('ik', r) for r in ik] + [('fk', r) for r in reversed(fk)]
    res = pmap(ref, jobs)
    c.tlc_ok(res[0], 'WorkMC')
    TEMPLATES = set(os.path.relpath(os.path.join(b, f), REPO) for a in ('LaTex', 'CodeGen') for b, _, fs in os.walk(os.path.join(REPO, a)) for f in fs)
    good = [[''] * len(robots) for _ in range(6)]
    want = {'ik': (0, 1, 2, 3), 'fk': (0, 4, 5)}
    for x in res[1:]:
        key = 'alone:%s:%s' % (x['prog'], x['robot'])
        i = robots.index(x['robot']) if x['robot'] in robots else -1
        made = sorted(o[0] for o in x['other'] if o[0] not in TEMPLATES)
        if made: c.violation(key, 'a run alone of %s for %s leaves files that are not its own: %s' % (x['prog'], x['robot'], made[:4]), x)
        if x['how'] != 'done': c.violation(key, 'a run alone of %s for %s: %s %s' % (x['prog'], x['robot'], x['how'], x['why']), x); continue
        for k in want[x['prog']]:
            if not x['files'][k]: c.violation(key, 'a run alone of %s for %s does not leave file %d' % (x['prog'], x['robot'], k), x)
            elif i < 0: pass
            elif good[k][i] and good[k][i] != x['files'][k]: c.violation(key, 'the two programs store different kinematics for %s' % x['robot'], x)
            if i >= 0: good[k][i] = x['files'][k]
    if c.viol: return
    refs = {'robots': robots, 'runs': {'%s %s' % (x['prog'], x['robot']): {'ops': x['ops'], 'sizes': x['sizes']} for x in res[1:] if x['robot'] in robots}, 'unknown': UNKNOWN, 'long': 1 if TIER == 'thorough' else 0}
    rf = os.path.join(d, 'refs.json')
    json.dump(refs, open(rf, 'w'))
    def hist(k):
        f = os.path.join(d, 'h%d.json' % k)
        rc, o = driver('drv_work.py', [f, 'hist', SEED * 100 + k, 2 if TIER == 'quick' else 12, rf], timeout=850)
        if rc == 0 and os.path.exists(f): return json.load(open(f))
        raise MachineryError('histories: %s %s' % (rc, o[-1500:]))
    rs = sum(pmap(hist, range(8)), [])
    for x in rs:
        if x['err']: raise MachineryError('history %s: %s' % (x['name'], x['err']))
    seen = {'': 0}
    n = lambda s: seen.setdefault(s, len(seen))
    sight = lambda e: dict(e, files=[[n(s) for s in row] for row in e['files']], other=[[a, b, n(s)] for a, b, s in e['other']])
    enc = lambda x: {'good': [[n(s) for s in row] for row in good], 'before': sight(x['before']), 'events': [sight(e) for e in x['events']]}
    items = [enc(x) for x in rs]
    tcfg = open(os.path.join(VERIF, 'spec', 'WorkTrace.cfg')).read().replace('{1, 2, 3, 4, 5}', '{%s}' % ', '.join(str(k + 1) for k in range(len(robots))))
    bad = clauses('WorkTrace', items, cfgtext=tcfg)
    for k, l in sorted(bad.items()):
        c.violation('history', '%s: %s' % (rs[k]['name'], l), rs[k])
    ev = [e for x in rs for e in x['events']]
    ends = [e for e in ev if e['e'] == 'end']
    c.add(traces_validated_against_impl=len(rs), runs=len(ends), finished=sum(e['how'] == 'done' for e in ends), interrupted=sum(e['how'] == 'dead' for e in ends),
          refused=sum(e['how'] == 'refused' for e in ends), suspended=sum('stop' in x['name'] for x in rs), files_compared=sum(1 for e in ev for row in e['files'] for s in row if s))
    c.samples = [x['name'] for x in rs[:3]]
    c.assumptions = ['one run per program and robot at a time', 'dates in the generated files are left out', 'directories are not judged']
    if c.viol: return
    rng = random.Random(SEED)
    ms = []
    for x in items:
        for kind in range(5):
            y = copy.deepcopy(x)
            done = [e for e in y['events'] if e['e'] == 'end' and e['how'] == 'done' and e is not y['events'][0]]
            if kind == 0:
                e = rng.choice(done); b = [v for v in y['events'] if v['e'] == 'begin' and v['run'] == e['run']][0]
                e['files'][rng.choice(want[b['p']])][b['r'] - 1] = rng.choice([0, 99999])
            elif kind == 1:
                e = rng.choice(y['events']); e['other'] = e['other'] + [['CodeGen/Python/x.py', 0, 7]]
            elif kind == 2:
                e = rng.choice(y['events']); e['other'] = e['other'][1:]
            elif kind == 3:
                e = rng.choice(done); e['how'] = rng.choice(['error', 'refused'])
            else:
                own = set(v['r'] for v in y['events'] if v['e'] == 'begin')
                r = [r for r in range(1, len(robots) + 1) if r not in own]
                if not r: continue
                rng.choice(y['events'])['files'][rng.randrange(6)][rng.choice(r) - 1] = 88888
            ms.append(y)
    ms = rng.sample(ms, min(len(ms), 60))
    got = clauses('WorkTrace', ms, cfgtext=tcfg)
    miss = [k for k in range(len(ms)) if k not in got]
    if miss: raise MachineryError('%d of %d corrupted histories accepted' % (len(miss), len(ms)))
    c.add(corrupted_traces_rejected=len(ms))


CHECKS = {'P01': ('model_checking', p01)}
