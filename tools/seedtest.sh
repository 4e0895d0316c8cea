#!/bin/bash
# seedtest.sh ID [notest]: confirms in scratch copies of /repo that seeded/ID applies, builds, passes the stable tests,
# and that its demonstration fails with the change and passes without it
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$ID
T=/tmp/seedtest.$ID; rm -rf "$T"; mkdir -p "$T"
cp -a /repo "$T/clean"; cp -a /repo "$T/repo"
cp -a "$S" "$T/demo"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
fail() { echo "$ID: $1"; rm -rf "$T"; exit 1; }
git -C "$T/repo" apply "$S/patch.diff" || fail "does not apply"
for r in clean repo; do sed "s#/repo#$T/$r#g" /opt/vp/build.sh > "$T/b.$r"; bash "$T/b.$r" > "$T/b.$r.log" 2>&1 || fail "build failed in $r"; done
(cd "$T/clean" && timeout 300 bash "$T/demo/demo.sh" > "$T/d.clean" 2>&1); c=$?
(cd "$T/repo" && timeout 300 bash "$T/demo/demo.sh" > "$T/d.repo" 2>&1); r=$?
echo "$ID: demo clean=$c patched=$r: $(tail -n 2 "$T/d.repo" | cut -c1-200 | tr '\n' ' ')"
[ $c = 0 ] && [ $r != 0 ] || fail "DEMO WRONG"
if [ "$2" != notest ]; then
    sed "s#/repo#$T/repo#g" /opt/vp/test.sh > "$T/t.sh"
    bash "$T/t.sh" "$T/out.json" > "$T/t.log" 2>&1
    python3 - "$T/out.json" <<'P' || fail "TESTS FAIL"
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
def passed(x):
    for k in ('stable', 'passed', 'pass', 'stable_pass', 'tests'):
        if k in x: return set(x[k]) if not isinstance(x[k], dict) else {a for a, v in x[k].items() if v in ('PASS', 'pass', 'passed', True)}
    raise SystemExit('keys %s' % list(x))
miss = passed(b) - passed(o)
print('tests: %d of %d stable ones pass' % (len(passed(b) - miss), len(passed(b))), sorted(miss)[:5])
sys.exit(1 if miss else 0)
P
fi
rm -rf "$T"; echo "$ID: OK"
