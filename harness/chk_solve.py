"""S01-S04, S08-S10: runs of the solver against spec/Solve, Sets, Rank and PoseTrace."""
import copy, json, os, random
from common import *

# by cost, dearest first
ROBOTS = ['KR16', 'Pumaoffset', 'Khat6DOF', 'DZhang', 'KawasakiRS007L', 'Puma', 'UR5', 'KawasakiRS05L', 'Raven-II', 'ArmRobo', 'Craig417',
          'Stanford', 'Issue4', 'Mackler13', 'Parkman13', 'JennyGuoSp24', 'Chair_Helper', 'MiniDD', 'Frei13', 'Wachtveitl', 'Srisuan11', 'Olson13',
          'Arm_3', 'Axtman13', 'Bartell', 'Brad', 'ICP5p5_A21', 'Minder13', 'Palm13', 'Sims11', 'Wrist']
HEAVY = ROBOTS[:5]
UNSOLVED = ['ArmRobo', 'KawasakiRS05L', 'Issue4', 'Raven-II']        # the methods of the solver do not suffice
QUICK = ['Puma', 'Stanford', 'Chair_Helper', 'MiniDD', 'Frei13', 'Wachtveitl', 'Srisuan11', 'Olson13', 'Arm_3', 'Axtman13', 'Bartell', 'Brad',
         'ICP5p5_A21', 'Minder13', 'Palm13', 'Sims11', 'Wrist']
RANDOM_Q = [1, 3, 5, 6, 7, 8, 10, 16, 19, 34, 53, 86, 97, 102, 110, 151, 168, 172, 176, 205, 207, 239]
RANDOM_S = [0, 1, 3, 5, 6, 7, 8, 10, 12, 16, 19, 32, 33, 34, 43, 52, 53, 71, 81, 86, 89, 96, 97, 102, 104, 106, 110, 114, 130, 137, 148, 151, 168, 172, 176, 178, 198, 204, 205, 207, 212, 213, 217, 239]   # for the solutions themselves
FOLD_Q = ['fold:0', 'fold:1', 'fold:2', 'fold:3', 'fold:5', 'fold:18', 'fold:14', 'fold:21']      # an angle from one sine or cosine
RANDOM_SKIP = set()
RANDOM_T = 240


def names(quick=None, rnd=None):
    if TIER == 'thorough':
        return ROBOTS + ['random:%d' % k for k in range(RANDOM_T) if k not in RANDOM_SKIP] + ['fold:%d' % k for k in range(24)]
    return (quick or QUICK) + [k if isinstance(k, str) else 'random:%d' % k for k in (rnd if rnd is not None else RANDOM_Q + FOLD_Q[:4])]


def runs(c, what, ns=None, seed=None, env=None):
    """solver runs, one process each; a run that raises is a violation"""
    d = scratch('runs')
    ns = ns or names()
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        rc, o = driver('drv_run.py', [f, SEED if seed is None else seed, what, ns[k]], timeout=840, env=env)
        if rc == 0 and os.path.exists(f):
            x = json.load(open(f))
            os.unlink(f)
            return x[0]
        return {'name': ns[k], 'err': 'driver: %s %s' % (rc, o[-1500:]), 'skip': ''}
    rs = pmap(one, range(len(ns)))
    for x in rs:
        if x['err']: c.violation('raise:' + x['name'], '%s: the run failed: %s' % (x['name'], x['err'][-700:]), x['err'])
    res = [x for x in rs if not x['err'] and not x['skip']]
    c.add(solver_runs=len(res))
    return res


def scripted(c, count=None, jobs=8):
    """runs of the real search with scripted methods"""
    d = scratch('script')
    count = count or (1200 if TIER == 'thorough' else 60)
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        rc, o = driver('drv_script.py', [f, SEED * 100 + k, count], timeout=800)
        if rc == 0 and os.path.exists(f): return json.load(open(f))
        return [{'name': 'scripted', 'err': 'driver: %s %s' % (rc, o[-1500:])}]
    rs = sum(pmap(one, range(jobs)), [])
    for x in rs:
        if x['err']: c.violation('raise:scripted', '%s: the run failed: %s' % (x['name'], x['err'][-700:]), x['err'])
    res = [x for x in rs if not x['err']]
    c.add(scripted_runs=len(res))
    return res


def graphs(c):
    d = scratch('graphs')
    ns = [1, 2, 3] if TIER == 'quick' else [1, 2, 3, 4]
    jobs = [(n, k, 1 if n < 3 else 2 if n == 3 else 8) for n in ns for k in range(1 if n < 3 else 2 if n == 3 else 8)]
    def one(j):
        f = os.path.join(d, '%d.%d.json' % (j[0], j[1]))
        rc, o = driver('drv_script.py', [f, 'graph', j[0], j[1], j[2]], timeout=800)
        if rc == 0 and os.path.exists(f): return json.load(open(f))
        return [{'name': 'graph %s' % (j,), 'err': 'driver: %s %s' % (rc, o[-1500:])}]
    rs = sum(pmap(one, jobs), [])
    for x in rs:
        if x['err']: c.violation('raise:' + x['name'], '%s: %s' % (x['name'], x['err'][-700:]), x['err'])
    res = [x for x in rs if not x['err']]
    c.add(dependency_structures=len(res))
    return res


def split_tlc(module, key, items, n=8, timeout=850, cfgtext=None):
    """items through a trace specification in n parts; the verdicts with the item numbers put back"""
    d = scratch('t' + module)
    n = max(1, min(n, (len(items) + 3) // 4))
    parts = [list(range(k, len(items), n)) for k in range(n)]
    def one(k):
        f = os.path.join(d, '%d.json' % k)
        json.dump({key: [items[i] for i in parts[k]]}, open(f, 'w'))
        v = need(tlc(module, module + '.cfg', env={'TRACE': f}, timeout=timeout, cfgtext=cfgtext))
        os.unlink(f)
        return v
    vs = pmap(one, range(n))
    return [(parts[k], v) for k, v in enumerate(vs)]


# ---------------------------------------------------------------- the search
def episode(x):
    return {'name': x['name'], 'ev': x.get('events', x.get('ev')), 'done': 1 if x['done'] else 0, 'nothing': 1 if x['nothing'] else 0, 'reported': x['reported']}


def solvetrace(eps):
    res = {}
    for idx, v in split_tlc('SolveTrace', 'episodes', eps):
        for b in v['bad']:
            res.setdefault(idx[b['ep'] - 1], []).append((b['clause'], b['l']))
    return res


def corrupt(pid, ep, rng):
    """a recorded run with one fact changed that the property pid forbids"""
    e = copy.deepcopy(ep)
    ev = e['ev']
    sol = [x for x in ev if x['e'] == 'solved']
    leaf = [x for x in ev if x['e'] == 'leaf']
    if pid == 'S03':
        if not sol: return None
        x = rng.choice(sol)
        k = rng.randrange(5)
        if k == 0: x['nver'] += 1
        elif k == 1: x['order'] += 1
        elif k == 2: x['ment'] = x['ment'] + [x['who']]
        elif k == 3: x['nsol'] += 1
        else:
            i = max(i for i, y in enumerate(ev) if y is x)
            for y in ev[i + 1:]:
                if y['e'] == 'leaf': y['u'][x['who'] - 1][3] += 1000
            if not any(y['e'] == 'leaf' for y in ev[i + 1:]): return None
    elif pid == 'S09':
        k = rng.randrange(4)
        if k == 0:
            a = [x for x in leaf if x['leaf'] == 'assigner' and len(x['u']) > 1]
            if not a: return None
            x = rng.choice(a); x['cur'] = x['cur'] % len(x['u']) + 1
        elif k == 1: del ev[ev.index(rng.choice(leaf))]
        elif k == 2:
            a = [x for x in leaf if x['leaf'] in ('tan_id', 'simu_id', 'sinandcos_id', 'algebra_id')]
            if not a: return None
            x = rng.choice(a); x['st'] = 3 - x['st']
        else:
            x = rng.choice(leaf); ev.insert(ev.index(x), copy.deepcopy(x))
    elif pid == 'S10':
        k = rng.randrange(3)
        if k == 0: ev[-1]['st'] = 3 - ev[-1]['st']
        elif k == 1: e['nothing'] = 1 - e['nothing']
        else: e['reported'] = e['reported'][:-1] if e['reported'] else [1]
    return e


def process(pid):
    def fn(c):
        r = tlc('SolveMC', 'SolveMC.cfg', workers=4, timeout=600)
        c.tlc_ok(r, 'Solve')
        if TIER == 'thorough':
            base = open(os.path.join(VERIF, 'spec', 'SolveMC.cfg')).read()
            c.tlc_ok(tlc('SolveMC', 'SolveMC.cfg', workers=8, timeout=850,
                         cfgtext=base.replace('MaxTry = 2 MaxPass = 2 N0 = 2 NMax = 3', 'MaxTry = 3 MaxPass = 2 N0 = 3 NMax = 3')), 'Solve, three unknowns')
        rs = runs(c, 'proc') + scripted(c)
        eps = [episode(x) for x in rs]
        bad = solvetrace(eps)
        other = 0
        for k, cl in sorted(bad.items()):
            for t, l in cl:
                if t.startswith(pid + ':'):
                    c.violation(eps[k]['name'] if not eps[k]['name'].startswith('script') else 'scripted',
                                '%s event %d: %s: %s' % (eps[k]['name'], l, t, json.dumps(eps[k]['ev'][l - 1])[:300] if l - 1 < len(eps[k]['ev']) else ''), eps[k])
                else: other += 1
        c.add(traces_validated_against_impl=len(eps), events=sum(len(e['ev']) for e in eps), other_clauses=other)
        c.samples = [e['name'] for e in eps[:4]] + [json.dumps(eps[0]['ev'][3])[:200]]
        c.assumptions = ['the leaves and set_solved are observed by wrapping them; what happens inside a method is judged by S05-S07 and S11']
        if not c.viol:
            rng = random.Random(SEED)
            ms = [m for m in (corrupt(pid, e, rng) for e in rng.sample(eps, min(40, len(eps)))) if m]
            got = solvetrace(ms)
            missed = [k for k in range(len(ms)) if not any(t.startswith(pid + ':') for t, l in got.get(k, []))]
            if len(missed) > 0: raise MachineryError('changed traces accepted: %d of %d' % (len(missed), len(ms)))
            c.add(corrupted_traces_rejected=len(ms))
    return fn


# ---------------------------------------------------------------- the solution set
def setstrace(items):
    res = {}
    for idx, v in split_tlc('SetsTrace', 'items', items):
        for b in v['bad']: res[idx[b['it'] - 1]] = b['clauses']
    return res


def s04(c):
    c.tlc_ok(tlc('SetsMC', 'SetsMC.cfg', workers=2), 'Sets')
    rs = [x for x in runs(c, 'sets') + scripted(c) + graphs(c) if x.get('sets')]
    items = [x['sets'] for x in rs]
    bad = setstrace(items)
    for k, cl in sorted(bad.items()):
        c.violation(rs[k]['name'] if not rs[k]['name'].startswith(('script', 'graph')) else rs[k]['name'].split()[0], '%s: %s' % (rs[k]['name'], cl), items[k])
    c.add(traces_validated_against_impl=len(items), rows=sum(len(x['rows']) for x in items))
    c.samples = [x['name'] for x in rs[:3]] + [x['name'] for x in rs[-3:]]
    c.assumptions = ['unknowns have one or two branches each, which is what the solving methods give and what the version numbering supports']
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in rng.sample([x for x in items if x['n'] > 1 and len(x['rows']) > 1], 24):
            x = copy.deepcopy(x)
            k = rng.randrange(4)
            used = [q for l in x['vers'] for q in l if [q['u'], q['k']] in x['rows'][0]]
            if k == 0: x['rows'].pop()
            elif k == 1: x['rows'][0] = copy.deepcopy(x['rows'][1])
            elif k == 2:
                rng.choice(used)['br'] = []
            else: rng.choice(used)['raw'] += 1
            ms.append(x)
        if len(setstrace(ms)) != len(ms): raise MachineryError('changed solution sets accepted: %d of %d' % (len(setstrace(ms)), len(ms)))
        c.add(corrupted_traces_rejected=len(ms))


# ---------------------------------------------------------------- ranking
def ranktrace(cases):
    return [c for idx, v in split_tlc('RankTrace', 'cases', cases, n=2) for c in [idx[b['it'] - 1] for b in v['bad']]]


def s08(c):
    f = os.path.join(scratch('rank'), 'r.json')
    rc, o = driver('drv_rank.py', [f, 2, 5])
    if rc != 0 or not os.path.exists(f):
        c.violation('driver', 'the ranking could not be driven: %s' % o[-1500:], o); return
    cases = json.load(open(f))
    for x in cases: x['run'] = 0
    nsyn = len(cases)
    rs = runs(c, 'proc')
    for x in rs:
        for e in x['events']:
            if e['e'] == 'leaf' and e.get('rank'):
                cases.append(dict(e['rank'], run=1, err='', name=x['name']))
    for k in ranktrace(cases):
        x = cases[k]
        c.violation('run:' + x['name'] if x['run'] else 'ranking of %(nsc)d/%(ntan)d' % x, 'ranking %s' % x, x)
    c.add(traces_validated_against_impl=len(cases), outcome_pairs=nsyn, rankings_in_runs=len(cases) - nsyn)
    c.samples = cases[:2] + cases[-2:]
    if len(cases) == nsyn: raise MachineryError('no ranking in the runs')
    if not c.viol:
        rng = random.Random(SEED)
        ms = []
        for x in rng.sample(cases[:nsyn], 20):
            x = dict(x)
            if rng.random() < 0.5: x['took'] = 'other' if x['took'] == 'none' else {'sc': 'tan', 'tan': 'sc'}.get(x['took'], 'none')
            else: x['solved'] = 1 - x['solved']
            ms.append(x)
        if len(ranktrace(ms)) != len(ms): raise MachineryError('changed rankings accepted')
        c.add(corrupted_traces_rejected=len(ms))


# ---------------------------------------------------------------- numeric solutions
def posetrace(items):
    res = {}
    for idx, v in split_tlc('PoseTrace', 'items', items):
        for r in v['res']: res[idx[r['it'] - 1]] = r['poses']
    return res


def solutions(pid):
    # S02 key NAME:Ngood: at some pose only N (or more) of the real rows reproduce the pose
    def fn(c):
        rs = runs(c, 'rows,deep' if TIER == 'thorough' else 'rows', names(HEAVY[2:5] + QUICK, RANDOM_S + FOLD_Q))
        for x in rs:
            if pid == 'S01' and x['bt'] != 1 and x['name'] in ROBOTS and x['name'] not in UNSOLVED:
                c.violation('unsolved:' + x['name'], '%s is no longer solved' % x['name'], x['final'])
        rs = [x for x in rs if x['bt'] == 1]
        items = [{'poses': x.get('poses', [])} for x in rs]
        res = posetrace(items)
        npose = real = 0
        for k, vs in sorted(res.items()):
            nm = rs[k]['name']
            if not vs: c.violation('nothing:' + nm, '%s: solved, but no solution rows' % nm)
            for i, v in enumerate(vs):
                npose += 1; real += v['real']
                what = '%s at %s' % (nm, items[k]['poses'][i]['text'])
                if v['pose'] != 1: raise MachineryError('the harness does not reproduce its own pose: ' + what)
                if pid == 'S01' and v['recovered'] != 1:
                    c.violation('lost:' + nm, '%s: no row recovers the joints' % what, items[k]['poses'][i])
                if pid == 'S02' and v['bad']:
                    good = v['real'] - len(v['bad'])
                    listed = [int(f['key'].split(':')[-1][:-4]) for f in c.findings if f['property'] == 'S02' and f['key'].rsplit(':', 1)[0] == nm]
                    c.violation('%s:%dgood' % (nm, min([g for g in listed if g <= good] or [good])), '%s: %d of %d real rows do not reproduce the pose' % (what, len(v['bad']), v['real']), items[k]['poses'][i])
        c.add(traces_validated_against_impl=npose, mechanisms=len(items), real_rows=real)
        c.samples = [x['name'] for x in rs[:3]] + [items[0]['poses'][0]['text']]
        c.assumptions = ['solution rows are evaluated in floating point and judged in fixed point (rotations 0.006, lengths 0.015, joints 0.006)',
                         'poses are drawn away from singular positions']
        if not c.viol:
            rng = random.Random(SEED)
            ms = []
            for x in rng.sample([x for k, x in enumerate(items) if res[k] and all(not v['bad'] and v['recovered'] for v in res[k]) and all(p['indep'] for p in x['poses'])], 8):
                x = copy.deepcopy(x)
                for p in x['poses']:
                    if pid == 'S01':
                        for r in p['rows']:
                            if r['real']:
                                for q in r['q']: q[1] += 700
                    else:
                        r = rng.choice([r for r in p['rows'] if r['real']])
                        l = rng.choice([l for l in r['links'] if l[4] != l[5]]); l[2] += 900
                ms.append(x)
            got = posetrace(ms)
            if any((v['recovered'] == 1 if pid == 'S01' else not v['bad']) for vs in got.values() for v in vs):
                raise MachineryError('changed solutions accepted')
            c.add(corrupted_traces_rejected=len(ms))
    return fn


CHECKS = {'S01': ('model_checking', solutions('S01')), 'S02': ('model_checking', solutions('S02')), 'S03': ('model_checking', process('S03')),
          'S04': ('model_checking', s04), 'S08': ('model_checking', s08), 'S09': ('model_checking', process('S09')), 'S10': ('model_checking', process('S10'))}
