#!/bin/bash
# tools/bug.sh ID [check ...]: apply seeded/ID to /repo, run demo (before/after), the suite (unless NOTEST), the checks; undo
V=/verif; S=$V/seeded/$1; shift
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
demo(){ (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $D/demo.sh > $D/out 2>&1; echo $?); }
[ -z "$NODEMO" ] && echo "demo clean: $(demo)"
git -C /repo apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -- . ; rm -rf "$D"' EXIT
[ -z "$NODEMO" ] && { echo "demo bug: $(demo)"; tail -3 $D/out; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $D/t.json >/dev/null 2>&1; python3 - $D/t.json <<'E'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
p=set(t.get('passed',[])) if isinstance(t.get('passed'),list) else {k for k,v in t.get('tests',t).items() if v in('passed','pass')}
print('tests: lost', [x for x in b if x not in p])
E
fi
for c in "$@"; do (cd $V; s=$SECONDS; ./check $c quick > $D/c 2>&1; echo "check $c exit $? ($((SECONDS-s))s): $(grep VIOLATION $D/c)"; [ -n "$SHOW" ] && tail -8 $D/c); done
