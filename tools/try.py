#!/usr/bin/env python3
"""try.py DRIVER_EXE MODULE 'K=V,..' ARGS... : run one driver and judge its histories (development aid)"""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc
exe, module, consts = sys.argv[1:4]
c = dict(x.split('=') for x in consts.split(',') if x)
t = time.time()
so = subprocess.run([exe] + sys.argv[4:], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
hs, notes = {}, {}
for l in so.split('\n'):
    if l.startswith('H '):
        _, i, _, e = l.split(' ', 3)
        hs.setdefault(e, i)
    elif l.startswith('# '):
        notes[l.split()[1]] = l
    elif l.startswith('S '):
        print(l)
t1 = time.time()
v = tlc.Validation('try', [((i, e), e) for e, i in hs.items()], module, c)
os.makedirs('/tmp/try', exist_ok=True)
tlc.validate_all([v], '/tmp/try')
print('histories', len(hs), 'rejected', len(v.rejected), 'states', v.distinct, 'run %.1f tlc %.1f' % (t1 - t, time.time() - t1))
for i, e in sorted(v.rejected, key=lambda r: len(r[1]))[:3]:
    print(i, e[:600], notes.get(i.split(':')[0], ''))
