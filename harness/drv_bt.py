"""Drives the behaviour-tree engine in REPO/b3 and records what it does.

usage: drv_bt.py OUT.json SEED TIER
"""
import sys, json, random, time
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
import b3

COMPOSITE = {'seq': 'Sequence', 'pri': 'Priority', 'or': 'OrNode', 'mseq': 'MemSequence', 'mpri': 'MemPriority'}
DECORATOR = {'inv': 'Inverter', 'lim': 'Limiter', 'rep': 'Repeater', 'ruf': 'RepeatUntilFailure',
             'rus': 'RepeatUntilSuccess', 'maxt': 'MaxTime'}
ACTION = {'succ': 'Succeeder', 'fail': 'Failer', 'run': 'Runner', 'err': 'Error'}


class Clock:
    now = 0.0
clk = Clock()
time.time = lambda: clk.now / 1000.0     # the engine's clock is virtual (milliseconds)


class Leaf(b3.Action):
    """a scripted leaf: the script gives status and duration of each execution"""
    script = None
    def tick(self, tick):
        st, dt = self.script()
        clk.now += dt
        self.lastdt = dt
        return st


def I(x):
    return int(x) if isinstance(x, (int, bool)) else -999


class Bound(BaseException):
    pass


def build(spec, log):
    """nodes from the spec, children before parents is not required"""
    nodes = []
    for i, s in enumerate(spec):
        k = s['kind']
        if k in COMPOSITE: n = getattr(b3, COMPOSITE[k])([])
        elif k == 'inv': n = b3.Inverter(None)
        elif k == 'maxt': n = b3.MaxTime(None, s['max'] / 1000.0)
        elif k in DECORATOR: n = getattr(b3, DECORATOR[k])(None, s['max'])
        elif k == 'wait': n = b3.Wait(s['max'])
        elif k in ACTION: n = getattr(b3, ACTION[k])()
        else: n = Leaf()
        n.Cost = s['cost']
        n.Name = 'node%d' % (i + 1)
        nodes.append(n)
    for n, s in zip(nodes, spec):
        if s['kind'] in COMPOSITE: n.children = [nodes[c - 1] for c in s['ch']]
        elif s['kind'] in DECORATOR and s['ch']: n.child = nodes[s['ch'][0] - 1]
    for i, n in enumerate(nodes):
        hook(n, i + 1, log)
    return nodes


def hook(n, i, log):
    """record the user-overridable callbacks enter/open/tick/close/exit of a node"""
    for cb in ('enter', 'open', 'close', 'exit'):
        def w(t, cb=cb, orig=getattr(n, cb)):
            log.append({'e': cb, 'n': i})
            if len(log) > 1500: raise Bound()
            orig(t)
        setattr(n, cb, w)
    def tk(t, orig=n.tick):
        log.append({'e': 'tick', 'n': i})
        if len(log) > 1500: raise Bound()
        n.lastdt = 0
        st = orig(t)
        log.append({'e': 'ret', 'n': i, 's': st if st in (1, 2, 3, 4) else 0, 'dt': n.lastdt})
        return st
    n.tick = tk


class LogFile:
    def __init__(self): self.s = ''
    def write(self, x): self.s += x


def episode(spec, roots, nb, ticks, script, logflag=0):
    """ticks: list of (blackboard, tree); script(node index) -> callable giving (status, dt)"""
    log = []
    clk.now = 0.0
    nodes = build(spec, log)
    for i, n in enumerate(nodes):
        if isinstance(n, Leaf): n.script = lambda i=i: script(i + 1)
    lf = LogFile()
    trees = []
    for r in roots:
        t = b3.BehaviorTree()
        t.root = nodes[r - 1]
        t.log_flag = logflag
        t.log_file = lf
        trees.append(t)
    bbs = [b3.Blackboard() for _ in range(nb)]
    idx = {id(n): i + 1 for i, n in enumerate(nodes)}
    ev = log
    treeof = {}
    def mark(i, t):
        treeof[i] = t
        for c in spec[i - 1]['ch']: mark(c, t)
    for k, r in enumerate(roots): mark(r, k)
    for b, t in ticks:
        ev.append({'e': 'start', 'b': b, 't': t})
        start = len(ev)
        try:
            st = trees[t - 1].tick('target', bbs[b - 1])
        except Bound:
            break              # cut off: the recorded prefix is validated
        except Exception as ex:
            ev.append({'e': 'raise', 'n': 0, 'what': '%s: %s' % (type(ex).__name__, ex)})
            break
        rets = [e['s'] for e in ev[start:] if e['e'] == 'ret' and e['n'] == roots[t - 1]]
        tree = trees[t - 1]
        obs = {'open_nodes': [idx.get(id(n), 0) for n in (bbs[b - 1].get('open_nodes', tree.id) or [])],
               'node_count': I(bbs[b - 1].get('node_count', tree.id)),
               'is_open': [[1 if bb.get('is_open', trees[treeof[i + 1]].id, n.id) else 0
                            for i, n in enumerate(nodes)] for bb in bbs],
               'total': [I(bb.get('TotalCost')) for bb in bbs],
               'nticks': [I(n.N_ticks_all) for n in nodes], 'nsucc': [I(n.N_success) for n in nodes],
               'cost': [I(n.Cost) for n in nodes], 'tcount': [I(x.tick_count) for x in trees],
               'log': [[1 if l[0] == 'S' else 2, int(l.split('node')[1])] for l in lf.s.splitlines() if 'node' in l]}
        ev.append({'e': 'done', 's': st if st in (1, 2, 3, 4) else 0, 'rootret': rets[-1] if rets else 0, 'obs': obs})
    return {'nodes': spec, 'roots': roots, 'nb': nb, 'logflag': logflag, 'ev': ev}


def N(kind, ch=(), mx=0, cost=0):
    return {'kind': kind, 'ch': list(ch), 'max': mx, 'cost': cost}


def exhaustive(spec, nticks, alphabet, cap):
    """all environment choices (leaf results) of nticks ticks, found by re-running with longer scripts"""
    eps = []
    todo = [[]]
    while todo and len(eps) < cap:
        pre = todo.pop()
        used = []
        class More(Exception): pass
        pos = [0]
        more = [False]
        def script(i):
            if pos[0] < len(pre):
                r = pre[pos[0]]
            else:
                r = alphabet[0]
                if pos[0] == len(pre): more[0] = True
            pos[0] += 1
            return r
        e = episode(spec, [1], 1, [(1, 1)] * nticks, script, 2)
        if more[0]:
            if pos[0] <= 14:
                for a in alphabet[::-1]: todo.append(pre + [a])
                # the run with default continuation is re-done as a child
                continue
        eps.append(e)
    return eps


def small_forests():
    L = lambda c: N('leaf', (), 0, c)
    res = []
    for k in COMPOSITE: res.append([N(k, (2, 3, 4)), L(1), L(2), L(0)])
    for k in DECORATOR:
        for mx in (0, 1, 2): res.append([N(k, (2,), mx), L(1)])
    for k in DECORATOR: res.append([N(k, (), 1)])
    for k in COMPOSITE: res.append([N(k)])
    for k in ACTION: res.append([N(k)])
    res.append([N('wait', (), 1)])
    for k in COMPOSITE:
        for d in DECORATOR:
            res.append([N(k, (2, 4)), N(d, (3,), 1), L(1), L(2)])
            res.append([N(d, (2,), 2), N(k, (3, 4)), L(1), L(2)])
    for k1 in COMPOSITE:
        for k2 in COMPOSITE:
            res.append([N(k1, (2, 5)), N(k2, (3, 4)), L(1), L(2), L(4)])
    return res


def random_forest(rng):
    spec = []
    def gen(depth):
        i = len(spec)
        spec.append(None)
        r = rng.random()
        if depth == 0 or r < 0.25:
            k = rng.choice(['leaf'] * 8 + ['succ', 'fail', 'run', 'err', 'wait'])
            spec[i] = N(k, (), rng.randint(0, 4), rng.randint(0, 3))
        elif r < 0.7:
            k = rng.choice(list(COMPOSITE))
            n = rng.choice([0, 1, 2, 2, 3, 3, 4])
            ch = [gen(depth - 1) for _ in range(n)]
            spec[i] = N(k, ch, 0, rng.randint(0, 2))
        else:
            k = rng.choice(list(DECORATOR))
            ch = [gen(depth - 1)] if rng.random() < 0.95 else []
            spec[i] = N(k, ch, rng.choice([0, 1, 2, 3, 3, -1] if k in ('rep', 'ruf', 'rus') else [0, 1, 2, 4]), rng.randint(0, 2))
        return i + 1
    nt = rng.choice([1, 1, 2])
    roots = [gen(rng.choice([2, 3, 4])) for _ in range(nt)]
    return spec, roots


def main():
    rng = random.Random(seed)
    eps = []
    alpha = [(1, 0), (2, 2), (3, 1), (4, 0)]
    deep = tier == 'thorough'
    for f in small_forests():
        eps += exhaustive(f, 2, alpha, 400 if deep else 40)
        # 3 ticks with few statuses, random tails
        for _ in range(30 if deep else 6):
            eps.append(episode(f, [1], 1, [(1, 1)] * 4, lambda i: rng.choice(alpha), rng.choice([0, 1, 2])))
    n = 0
    while n < (3000 if deep else 500):
        spec, roots = random_forest(rng)
        if len(spec) > 25: continue
        nb = rng.choice([1, 2])
        ticks = [(rng.randint(1, nb), rng.randint(1, len(roots))) for _ in range(rng.randint(1, 6))]
        w = rng.choice([alpha, [(1, 0), (2, 1)], [(1, 0), (1, 1), (3, 2)], [(2, 0), (2, 1), (3, 2), (1, 0)]])
        # unbounded loops: after a while leaves run out of luck for the loop
        cnt = [0]
        def script(i):
            cnt[0] += 1
            if cnt[0] > 60: return (rng.choice([3, 4]), 0)
            return rng.choice(w)
        e = episode(spec, roots, nb, ticks, script, rng.choice([0, 1, 2]))
        eps.append(e)
        n += 1
    json.dump({'episodes': eps}, open(out, 'w'))


if __name__ == "__main__": main()
