"""mutate.py SEED N FILE... : print N random mutants of the non-test code of FILE (JSON lines: file, line, old, new source segment, op).
   apply(repo, m) writes one.  For finding blind spots of the checks; no check uses it."""
import ast, sys, json, random, os, warnings
warnings.simplefilter("ignore")
REPO = os.environ.get('IKBT_REPO', '/repo')
TESTY = ('test', 'Test')


def mutants(path):
    src = open(os.path.join(REPO, path), newline='').read()
    t = ast.parse(src)
    off = [0]
    for l in src.splitlines(True): off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    def add(n, new, op):
        s, e = pos(n)
        out.append({'file': path, 'line': n.lineno, 's': s, 'e': e, 'old': b[s:e].decode(), 'new': new, 'op': op})
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    def isprint(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and (getattr(n.value.func, 'id', '') == 'print' and not any(k.arg == 'file' for k in n.value.keywords) or getattr(n.value.func, 'attr', '') in ('pprint', 'pp'))
    def walk(n, top):
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name.startswith(TESTY): return
        if isprint(n): return
        if isinstance(n, ast.If):
            if 'BHdebug' in seg(n.test) or '__name__' in seg(n.test): return
            add(n.test, 'not (' + seg(n.test) + ')', 'negate')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            alt = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
            for o in alt.get(type(n.ops[0]), []): add(n, '%s %s %s' % (l, o, r), 'compare')
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(v) for j, v in enumerate(n.values) if j != k) + ')', 'drop operand')
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*']}
            if not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or not isinstance(getattr(n.left, 'value', 0), str):
                for o in alt.get(type(n.op), []):
                    if "'" not in seg(n) and '"' not in seg(n): add(n, '(%s)%s(%s)' % (seg(n.left), o, seg(n.right)), 'arith')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): add(n, seg(n.operand), 'sign')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, '(' + seg(n.operand) + ')', 'not')
        if isinstance(n, ast.Constant) and type(n.value) is int: add(n, str(n.value + 1), 'const'); n.value and add(n, str(n.value - 1), 'const')
        if isinstance(n, ast.Constant) and type(n.value) is bool: add(n, str(not n.value), 'bool')
        if isinstance(n, ast.Break): add(n, 'pass', 'break')
        if isinstance(n, ast.Continue): add(n, 'pass', 'continue')
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not top: add(n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign): add(n, '%s = %s' % (seg(n.target), seg(n.value)), 'augment')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not top: add(n, 'pass', 'delete')
        if isinstance(n, ast.Attribute) and n.attr in ('SUCCESS', 'FAILURE', 'RUNNING', 'ERROR') and getattr(n.value, 'id', '') == 'b3':
            add(n, 'b3.' + {'SUCCESS': 'FAILURE', 'FAILURE': 'SUCCESS', 'RUNNING': 'SUCCESS', 'ERROR': 'FAILURE'}[n.attr], 'status')
        if isinstance(n, ast.Call):
            nm = getattr(n.func, 'attr', getattr(n.func, 'id', ''))
            if nm in ('sorted', 'deepcopy', 'simplify', 'expand', 'list', 'set', 'trigsimp') and n.args: add(n, seg(n.args[0]), 'unwrap')
            swap = {'sin': 'cos', 'cos': 'sin', 'append': None, 'asin': 'acos', 'has': None}
            if swap.get(nm): add(n.func, seg(n.func)[:-len(nm)] + swap[nm], 'trig')
            if len(n.args) == 2 and not n.keywords and nm not in ('var', 'symbols'): add(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap args')
        for c in ast.iter_child_nodes(n):
            walk(c, False if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else (top and not isinstance(n, (ast.If, ast.For, ast.While))) or (top and isinstance(n, ast.Module)))
    walk(t, True)
    ok = []
    for m in out:
        nb = b[:m['s']] + m['new'].encode() + b[m['e']:]
        try: ast.parse(nb.decode())
        except SyntaxError: continue
        ok.append(m)
    return ok


def apply(repo, m):
    p = os.path.join(repo, m['file'])
    b = open(p, 'rb').read()
    assert b[m['s']:m['e']].decode() == m['old']
    open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])


if __name__ == '__main__':
    if sys.argv[1] == 'apply':
        apply(sys.argv[2], json.loads(sys.argv[3])); sys.exit()
    rng = random.Random(int(sys.argv[1]))
    for f in sys.argv[3:]:
        ms = mutants(f)
        rng.shuffle(ms)
        for m in ms[:int(sys.argv[2])]: print(json.dumps(m))
