"""Trees saved and read back by the real engine: drv_doc.py DOC.json BT.json SEED TIER"""
import sys, json, random, copy
out, outbt, seed, tier = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
sys.argv = ['x', '/dev/null', '1', 'none']
import drv_bt as D
import b3


class MyLeaf(D.Leaf): pass
class OtherLeaf(D.Leaf): pass
class MySeq(b3.Sequence): pass
class MyInv(b3.Inverter): pass
MINE = {'MyLeaf': MyLeaf, 'OtherLeaf': OtherLeaf, 'MySeq': MySeq, 'MyInv': MyInv, 'Leaf': D.Leaf}
CLS = {'seq': ['Sequence', 'MySeq'], 'pri': ['Priority'], 'or': ['OrNode'], 'mseq': ['MemSequence'], 'mpri': ['MemPriority'],
       'inv': ['Inverter', 'MyInv'], 'leaf': ['MyLeaf', 'OtherLeaf'], 'succ': ['Succeeder'], 'fail': ['Failer'],
       'run': ['Runner'], 'err': ['Error']}
COMPS = {'Sequence', 'MySeq', 'Priority', 'OrNode', 'MemSequence', 'MemPriority'}
CATNAME = {b3.COMPOSITE: 'composite', b3.DECORATOR: 'decorator', b3.ACTION: 'action'}
PROPS = [{}, {'a': 1}, {'b': [1, 2]}, {'a': 2, 'c': {'d': 'e'}}]


def cls(n): return MINE.get(n) or getattr(b3, n)
def pcode(p): return PROPS.index(p) if p in PROPS else 99


def forest(rng):
    spec = []
    def gen(depth):
        i = len(spec); spec.append(None)
        r = rng.random()
        if depth == 0 or r < 0.25:
            k = rng.choice(['leaf'] * 5 + ['succ', 'fail', 'run', 'err']); ch = []
        elif r < 0.75:
            k = rng.choice(['seq', 'pri', 'or', 'mseq', 'mpri'])
            ch = [gen(depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        else:
            k = 'inv'; ch = [gen(depth - 1)] if rng.random() < 0.9 else []
        spec[i] = {'kind': k, 'ch': ch, 'max': 0, 'cost': 0}
        return i + 1
    gen(rng.choice([0, 1, 2, 3, 4]))
    return spec


def share(spec, rng):
    """use a node twice (the table stays acyclic: children have higher numbers)"""
    spec = copy.deepcopy(spec)
    comp = [i for i, s in enumerate(spec) if s['kind'] in D.COMPOSITE and i + 1 < len(spec)]
    if comp:
        i = rng.choice(comp)
        spec[i]['ch'].insert(rng.randint(0, len(spec[i]['ch'])), rng.randint(i + 2, len(spec)))
    return spec


def project(nodes, code):
    """[id, name, title, desc, props, ch] of loaded node objects"""
    res = []
    for n in nodes:
        ch = list(getattr(n, 'children', []) or []) if n.category == b3.COMPOSITE else \
            ([n.child] if n.category == b3.DECORATOR and n.child else [])
        res.append({'id': code.get(n.id, 0), 'name': type(n).__name__, 'title': str(n.title), 'desc': str(n.description),
                    'props': pcode(n.properties), 'ch': [code.get(c.id, 0) for c in ch]})
    return res


def bykey(root, d):
    """walk a loaded tree and its record together: [(node, key)], the key '' where they part"""
    seen, todo = {}, [(root, d['root'])]
    while todo:
        n, k = todo.pop()
        if id(n) in seen: continue
        seen[id(n)] = (n, k)
        s = d['nodes'].get(k, {})
        ks = s.get('children', []) or ([s['child']] if s.get('child') else [])
        ch = list(n.children) if n.category == b3.COMPOSITE else [n.child] if n.category == b3.DECORATOR and n.child else []
        todo += [(c, ks[j] if j < len(ks) else '') for j, c in enumerate(ch)]
    return list(seen.values())


def blank(d, rng):
    """empty some fields of a record: the reader has to fall back on its own values"""
    for f, none in [('title', ['', None]), ('description', ['', None]), ('properties', [{}, None])]:
        if rng.random() < 0.4: d[f] = rng.choice(none)
    for s in d['nodes'].values():
        for f, none in [('title', ['', None]), ('description', ['', None]), ('properties', [{}, None]), ('id', ['', None])]:
            if rng.random() < 0.3: s[f] = rng.choice(none)


def reach(root):
    seen, todo = {}, [root]
    while todo:
        n = todo.pop()
        if id(n) in seen: continue
        seen[id(n)] = n
        if n.category == b3.COMPOSITE: todo += list(n.children)
        elif n.category == b3.DECORATOR and n.child: todo.append(n.child)
    return list(seen.values())


def main():
    rng = random.Random(seed)
    eps, bts = [], []
    N = 1200 if tier == 'thorough' else 250
    for e in range(N):
        spec = forest(rng)
        if len(spec) > 20: continue
        if rng.random() < 0.4: spec = share(spec, rng)
        names = [rng.choice(CLS[s['kind']]) for s in spec]
        nodes = [cls(n)([]) if s['kind'] in D.COMPOSITE else cls(n)(None) if s['kind'] == 'inv' else cls(n)()
                 for n, s in zip(names, spec)]
        for i, (n, s) in enumerate(zip(nodes, spec)):
            if rng.random() < 0.5: n.title = 'title %d' % rng.randint(0, 5)
            if rng.random() < 0.5: n.description = 'd%d' % rng.randint(0, 5)
            n.properties = copy.deepcopy(rng.choice(PROPS))
            n.id = rng.choice([n.id, 'id-%d' % i, 'N%d' % (100 - i)])
            if s['kind'] in D.COMPOSITE: n.children = [nodes[c - 1] for c in s['ch']]
            elif s['ch']: n.child = nodes[s['ch'][0] - 1]
        code = {n.id: i + 1 for i, n in enumerate(nodes)}
        t = b3.BehaviorTree()
        if rng.random() < 0.6: t.title = 'T%d' % e
        if rng.random() < 0.6: t.description = 'about %d' % e
        t.properties = copy.deepcopy(rng.choice(PROPS))
        hasroot = rng.random() < 0.95
        t.root = nodes[0] if hasroot else None
        ep = {'tbl': [{'name': n, 'cat': CATNAME[o.category], 'title': o.title, 'desc': o.description,
                       'props': pcode(o.properties), 'ch': s['ch']} for n, o, s in zip(names, nodes, spec)],
              'root': 1 if hasroot else 0, 'mode': rng.choice(['plain', 'plain', 'shuffled', 'unknown', 'blank', 'blank']),
              'dumperr': '', 'doc': [], 'docroot': -1, 'doctitle': '', 'docdesc': '', 'docprops': -1, 'custom': [],
              'treetitle': t.title, 'treedesc': t.description, 'treeprops': pcode(t.properties),
              'loaderr': '', 'load': [], 'loadroot': -1, 'loadtitle': '', 'loaddesc': '', 'loadprops': -1, 'classes': 'ok',
              'customcat': [], 'blanked': [], 'own': []}
        eps.append(ep)
        try:
            d = json.loads(json.dumps(t.dump()))
        except Exception as ex:
            ep['dumperr'] = type(ex).__name__
            continue
        ep['docroot'] = code.get(d['root'], -1) if d['root'] else 0
        ep['doctitle'], ep['docdesc'], ep['docprops'] = str(d['title']), str(d['description']), pcode(d['properties'])
        ep['custom'] = [c['name'] for c in d['custom_nodes']]
        ep['customcat'] = [CATNAME.get(c.get('category'), '') for c in d['custom_nodes']]
        for k, s in d['nodes'].items():
            ch = s.get('children', [])
            if s.get('child'): ch = [s['child']]
            ep['doc'].append({'id': code.get(k, 0) if s['id'] == k else 0, 'name': str(s['name']), 'title': str(s['title']),
                              'desc': str(s['description']), 'props': pcode(s['properties']), 'ch': [code.get(c, 0) for c in ch]})
        names_ = dict(MINE)
        if ep['mode'] == 'unknown':
            if not d['nodes']: ep['mode'] = 'plain'
            else: d['nodes'][rng.choice(sorted(d['nodes']))]['name'] = 'NoSuchNode'
        if ep['mode'] == 'shuffled':
            ks = list(d['nodes']); rng.shuffle(ks)
            d['nodes'] = {k: d['nodes'][k] for k in ks}
        t2 = b3.BehaviorTree()
        if rng.random() < 0.5: t2.title, t2.description, t2.properties = 'mine', 'my own', {'a': 1}
        if ep['mode'] == 'blank': blank(d, rng)
        # 'own': what the reader has without the record (row 0: the tree), 'blanked': which fields the record leaves empty
        def gone(x): return {k: not x[f] for k, f in [('title', 'title'), ('desc', 'description'), ('props', 'properties')]}
        ep['own'] = [{'id': 0, 'title': t2.title, 'desc': t2.description, 'props': pcode(t2.properties)}]
        ep['blanked'] = [dict(gone(d), id=0, ident=False)]
        for k, s in d['nodes'].items():
            if k not in code or ep['mode'] == 'unknown': continue
            o = nodes[code[k] - 1].__class__
            o = o([]) if o.__name__ in COMPS else o()
            ep['own'].append({'id': code[k], 'title': o.title, 'desc': o.description, 'props': pcode(o.properties)})
            ep['blanked'].append(dict(gone(s), id=code[k], ident=not s['id']))
        try:
            t2.load(d, names_)
        except Exception as ex:
            ep['loaderr'] = type(ex).__name__
            continue
        ep['loadtitle'], ep['loaddesc'], ep['loadprops'] = str(t2.title), str(t2.description), pcode(t2.properties)
        if not t2.root:
            ep['loadroot'] = 0
            continue
        ids = {}
        pairs = bykey(t2.root, d)
        for n, k in pairs:
            want = d['nodes'].get(k, {}).get('id', '?')
            # an empty id leaves the node its own fresh one
            ids.setdefault(n.id, code.get(k, 0) if (n.id == want if want else n.id and n.id not in code) else 0)
        if len({n.id for n, _ in pairs}) != len(pairs): ids = {}
        ep['loadroot'] = ids.get(t2.root.id, -1)
        ns = reach(t2.root)
        ep['load'] = project(ns, ids)
        if any(type(n) is not cls(type(n).__name__) for n in ns): ep['classes'] = 'wrong class'
        # the loaded tree runs like the saved one: record it for the engine model
        byid = {ids.get(n.id, 0): n for n in ns}
        if len(byid) == len(ns) and set(byid) <= set(range(1, len(spec) + 1)):
            ns2 = [byid.get(i + 1, nodes[i]) for i in range(len(spec))]
            bts.append(run(ns2, spec, t2, rng))
    json.dump({'episodes': eps}, open(out, 'w'))
    json.dump({'episodes': bts}, open(outbt, 'w'))


def run(nodes, spec, tree, rng):
    log = []
    for i, n in enumerate(nodes):
        n.Cost = spec[i]['cost']; n.Name = 'node%d' % (i + 1)
        if isinstance(n, D.Leaf): n.script = lambda: (rng.choice([1, 1, 2, 2, 3, 4]), 0)
        D.hook(n, i + 1, log)
    bb = b3.Blackboard()
    for _ in range(rng.randint(1, 3)):
        log.append({'e': 'start', 'b': 1, 't': 1})
        try:
            st = tree.tick('t', bb)
        except D.Bound:
            break
        except Exception as ex:
            log.append({'e': 'raise', 'n': 0, 'what': type(ex).__name__})
            break
        log.append({'e': 'done', 's': D.I(st), 'rootret': D.I(st), 'obs': {
            'open_nodes': [int(n.Name[4:]) for n in bb.get('open_nodes', tree.id) or []],
            'node_count': D.I(bb.get('node_count', tree.id)),
            'is_open': [[1 if bb.get('is_open', tree.id, n.id) else 0 for n in nodes]],
            'total': [D.I(bb.get('TotalCost'))], 'nticks': [D.I(n.N_ticks_all) for n in nodes],
            'nsucc': [D.I(n.N_success) for n in nodes], 'cost': [D.I(n.Cost) for n in nodes],
            'tcount': [D.I(tree.tick_count)], 'log': []}})
    return {'nodes': spec, 'roots': [1], 'nb': 1, 'logflag': 0, 'ev': log}
main()
