"""Random operation sequences on several real blackboards at once: drv_bb.py OUT.json SEED TIER"""
import sys, json, random, io, contextlib, builtins
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
import b3

# names of scopes; falsy and equal names are scopes like any other
SC = {0: None, 1: '', 2: 0, 3: 'x', 4: 'y', 5: ('x',), 6: 'TotalCost'}
KEYS = ['TotalCost', 'a', 'b', 'is_open', 'i', 'x', 'TotalTime', 'node_memory', 'open_nodes']
OBJ = ['s', 2.5, False, True, (), [1], {}, '', []]


def enc(v):
    if v is None: return {'ty': 'none', 'v': 0}
    if type(v) is int: return {'ty': 'int', 'v': v}
    for i, o in enumerate(OBJ):
        if type(o) is type(v) and o == v: return {'ty': 'other', 'v': i}
    return {'ty': 'other', 'v': 999}


def quiet(*a):
    raise SystemExit('quit')
builtins.quit = quiet


def call(f):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return 'ok', f()
        except (Exception, SystemExit):
            return 'refused', None


def args(t, n, rng):
    # every way a caller can give the scope
    if n == 0 and rng.random() < 0.5: return (SC[t],) if t or rng.random() < 0.5 else ()
    return (SC[t], SC[n])


def main():
    rng = random.Random(seed)
    eps = []
    for e in range(1500 if tier == 'thorough' else 300):
        nb = rng.choice([1, 2, 3])
        bbs = [b3.Blackboard() for _ in range(nb)]
        logs = [[] for _ in range(nb)]
        ts = rng.sample(range(0, 7), rng.randint(1, 4)); ns = rng.sample(range(0, 7), rng.randint(1, 4))
        ks = rng.sample(KEYS, rng.randint(1, 4))
        for _ in range(rng.randint(10, 60)):
            j = rng.randrange(nb); bb = bbs[j]
            t, n, k = rng.choice(ts), rng.choice(ns), rng.choice(ks)
            op = rng.choice(['set', 'set', 'get', 'get', 'inc'])
            a = args(t, n, rng)
            v = None
            if op == 'set':
                v = rng.choice([rng.randint(-5, 5), rng.randint(-5, 5), rng.choice(OBJ), None])
                o, r = call(lambda: bb.set(k, v, *a))
            elif op == 'get':
                o, r = call(lambda: bb.get(k, *a))
            else:
                v = rng.randint(-3, 3)
                o, r = call(lambda: bb.inc(k, v, *a))
            logs[j].append({'op': op, 't': t, 'n': n, 'k': k, 'v': enc(v), 'out': o, 'r': enc(r)})
        for j, bb in enumerate(bbs):      # what every scope holds in the end
            for t in ts:
                for n in ns:
                    for k in ks:
                        o, r = call(lambda: bb.get(k, SC[t], SC[n]))
                        logs[j].append({'op': 'get', 't': t, 'n': n, 'k': k, 'v': enc(None), 'out': o, 'r': enc(r)})
            eps.append(logs[j])
    json.dump({'episodes': eps}, open(out, 'w'))
main()
