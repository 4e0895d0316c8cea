#!/usr/bin/env python3
"""mkseed.py ID PROPERTY OBJ KIND 'ARGS;ARGS' 'needs' 'what' [XDEF] : turns the uncommitted change of the scratch worktree
/tmp/wt into seeded/ID with a demonstration that runs the changed code under the virtual scheduler (kit copied beside it)
and judges it with a small checker of its own.  OBJ '-' : the demonstration is already there (demo.sh and its files)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, obj, kind, args, needs, what = sys.argv[1:8]
xdef = sys.argv[8] if len(sys.argv) > 8 else ''
d = os.path.join(V, 'seeded', i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/tmp/wt', 'diff'], stdout=subprocess.PIPE, check=True).stdout
assert diff
open(d + '/patch.diff', 'wb').write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
if obj != '-':
    k = d + '/kit'
    os.makedirs(k + '/obj', exist_ok=True)
    for f in ('vs.c', 'vs.h', 'drv.h', 'drv_main.c', 'world.c', 'build.sh', 'obj/common.h', 'obj/%s.c' % obj):
        shutil.copy(os.path.join(V, 'harness', f), os.path.join(k, f))
    shutil.copy(V + '/tools/seedkit/lincheck.py', k)
    runs = '\n'.join('timeout 200 "$W/drv_%s" %s >> "$W/out" 2>/dev/null || exit 3' % (obj, a) for a in args.split(';'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# %s
# runs the library of the current directory under a controlled scheduler and checks the histories against the sequential %s
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
REPO=$PWD XDEF='%s' SUF= MAINO= bash "$D/kit/build.sh" "$W" %s > "$W/log" 2>&1 || { cat "$W/log"; exit 2; }
: > "$W/out"
%s
python3 "$D/kit/lincheck.py" %s < "$W/out"
''' % (what, kind, xdef, obj, runs, kind))
os.chmod(d + '/demo.sh', 0o755)
