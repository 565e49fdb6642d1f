"""G01, G02: generated inverse-kinematics programs executed at poses, against spec/Code."""
import copy, random
from common import *
from chk_eqs import clauses
from chk_solve import runs, names

Q1 = ['Puma', 'Stanford', 'Chair_Helper', 'MiniDD', 'Frei13', 'Wachtveitl', 'Srisuan11', 'Olson13', 'Arm_3', 'Axtman13', 'Parkman13', 'Brad', 'Minder13', 'Sims11', 'Wrist']


def corrupt(y, rng, lang):
    """a program that does something else"""
    y = copy.deepcopy(y)
    ks = [k for k, (p, o) in enumerate(zip(y['poses'], y['outcomes'])) if not any(p['st']) and o['rows']]
    un = [k for k, p in enumerate(y['poses']) if 1 in p['st'] and not any(s in (2, 3) for s in p['st'])]
    how = rng.randrange(6)
    if how == 0 and ks: y['outcomes'][rng.choice(ks)]['rows'].pop()
    elif how == 1 and ks:
        o = y['outcomes'][rng.choice(ks)]
        o['rows'].append(o['rows'][0])
    elif how == 2 and ks:
        v = rng.choice(rng.choice(y['outcomes'][rng.choice(ks)]['rows']))
        v[1] += 500
    elif how == 3 and ks: y['outcomes'][rng.choice(ks)].update(kind='none', rows=[])
    elif how == 4 and un:
        y['outcomes'][rng.choice(un)].update(kind='rows')
    elif how == 5: y['valid'] = 0
    else: return None
    return y


def gen(lang):
    def check(c):
        q = ['alt:1', 'alt:3', 'alt:5', 7, 8, 'alt:11', 13, 19, 26, 29]
        rs = runs(c, 'code,%s%s' % (lang, ',deep' if TIER == 'thorough' or lang == 'py' else ''), names(Q1, q) + (['alt:%d' % k for k in range(1, 60, 2)] if TIER == 'thorough' else []))
        items, raw = [], []
        for x in rs:
            if not x.get('code'): continue
            y = x['code'][lang]
            items.append(y); raw.append((x['name'], x['code']['poses'], y))
        for k, l in sorted(clauses('CodeTrace', items).items()):
            n, ps, y = raw[k]
            t = l[0][1][0]
            if not y['valid']: t = 'the generated program is not valid: ' + y['err']
            elif t.startswith('pose'):
                j = int(t.split()[1].rstrip(':')) - 1
                t += '; pose ' + str(ps[j]) + ' versions\' status ' + str(y['poses'][j]['st']) + ' rows returned ' + str(y['outcomes'][j]['rows'][:2])
            c.violation(n, '%s: %s' % (n, t[:900]), {'item': y, 'poses': ps})
        P = [(p, o) for y in items for p, o in zip(y['poses'], y['outcomes'])]
        c.add(programs=len(items), poses=len(P), traces_validated_against_impl=len(P), rows_compared=sum(len(o['rows']) for p, o in P if not any(p['st'])),
              unreachable_poses=sum(1 for p, o in P if 1 in p['st']), undefined_poses=sum(1 for p, o in P if 1 not in p['st'] and 2 in p['st']))
        c.samples = ['%s: %d rows of %d values, outcomes %s' % (raw[k][0], len(y['rows']), y['width'], [o['kind'] for o in y['outcomes']]) for k, y in enumerate(items[:4])]
        c.assumptions = ['placeholders for parameters without a stored value are replaced by values, as the program asks', 'versions within rounding of the end of an arcsine\'s range are not compared',
                         'where an equation is undefined for another reason (the root of a negative number) %s' % ('the program must not return rows' if lang == 'py' else 'the other rows must still be right')]
        if not c.viol:
            rng = random.Random(SEED)
            ms = [m for m in (corrupt(rng.choice(items), rng, lang) for _ in range(60)) if m]
            got = clauses('CodeTrace', ms)
            if len(got) != len(ms): raise MachineryError('wrong programs accepted: %d of %d' % (len(ms) - len(got), len(ms)))
            c.add(corrupted_traces_rejected=len(ms))
    return check


CHECKS = {'G01': ('model_checking', gen('py')), 'G02': ('model_checking', gen('cpp'))}
