"""mkseed.py FILE: FILE defines ID, PROP, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO (python source run with cwd /repo)."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(ID, PROP, EDITS, NEEDS, BREAKS, DEMO, FILES=None):
    d = os.path.join(V, 'seeded', ID); os.makedirs(d, exist_ok=True)
    assert subprocess.call(['git', '-C', '/repo', 'diff', '--quiet']) == 0
    try:
        for p, o, n in EDITS:
            f = '/repo/' + p; s = open(f, newline='').read()
            assert s.count(o) == 1, (ID, p, s.count(o), o)
            open(f, 'w', newline='').write(s.replace(o, n))
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d) || exit 2; trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore PYTHONPATH="$R" REPO="$R"
cd "$W" && mkdir -p logs fk_eqns && cp -r "$R/CodeGen" "$R/LaTex" . && /opt/venv/bin/python "$D/demo.py"
''')
    open(os.path.join(d, 'demo.py'), 'w').write(DEMO)
    for k, v in (FILES or {}).items(): open(os.path.join(d, k), 'w').write(v)
    json.dump({'property': PROP, 'needs': NEEDS, 'what_it_breaks': BREAKS}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(open(f).read(), {'make': make})
