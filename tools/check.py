#!/usr/bin/env python3
"""Decides one property:  check.py <id> [--tier quick|thorough]

1. builds the conformance drivers from /repo's working tree,
2. drives the real code under the virtual scheduler and records histories,
3. lets TLC judge every distinct history with the trace specification,
4. model-checks the design specifications of the property,
5. writes evidence/<id>.json.  Exit 0 held / 1 violated (VIOLATION line) / 2 no answer."""
import argparse
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc  # noqa: E402
import props  # noqa: E402

VERIF = tlc.VERIF
REPO = os.environ.get('REPO', '/repo')
NPROC = 8


def log(*a):
    print(*a, flush=True)


def build(out, units):
    """drivers of all units, one build.sh call per variant of the library"""
    groups = {}
    for u in units:
        groups.setdefault((u.suf, u.xdef, u.main), []).append(u.obj)
    for (suf, xdef, main), objs in sorted(groups.items()):
        env = dict(os.environ, REPO=REPO, SUF=suf, XDEF=xdef, MAINO=main)
        p = subprocess.run([os.path.join(VERIF, 'harness/build.sh'), out] + sorted(set(objs)), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log('BUILD FAILED\n' + p.stdout[-4000:])
            sys.exit(2)


def run_driver(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as ex:
        return 'timeout', (ex.stdout or b'').decode(errors='replace'), ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    t0 = time.time()
    P = props.PROPS[a.prop]
    out = os.path.join(VERIF, 'build', a.prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    build(out, P.units)
    # behaviours of the algorithm specifications, as schedules
    gdir = os.path.join(VERIF, 'build', 'guides', a.prop)
    os.makedirs(gdir, exist_ok=True)
    guides = [(u, g, os.path.join(gdir, '%s-%s-%s-%d.txt' % (u.key, g.name, a.tier, a.seed))) for u in P.units for g in u.guides(a.tier)]
    try:
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda x: x[1].write(out, x[2], a.seed), guides))
    except tlc.SpecError as e:
        log('SPECIFICATION ERROR', e)
        sys.exit(2)
    t_build = time.time() - t0

    # ---------------------------------------------------------------- run the real code
    jobs = []
    for u in P.units:
        for c in u.campaigns(a.tier, a.seed):
            jobs.append((u, c))
    for u, g, path in guides:
        jobs.append((u, ['--guide', path, '--seed', str(a.seed)]))
    nattack = 0
    for u in P.units:
        if u.attacks:
            nattack += sum(1 for x in open(u.attacks) if x[:1] not in '#\n')
            for k in range(1 if a.tier == 'quick' else 4):
                jobs.append((u, ['--guide', u.attacks, '--perturb', '60' if a.tier == 'quick' else '2000', '--seed', str(a.seed * 1000 + 990 + k)]))
    random.Random(a.seed).shuffle(jobs)
    limit = 240 if a.tier == 'quick' else 900
    soft = ['--time', '150' if a.tier == 'quick' else '750']      # a driver ends by itself on a slow machine

    def go(job):
        u, c = job
        if time.time() - t0 > (500 if a.tier == 'quick' else 6000):      # something is badly stuck; what has been seen is judged
            return u, c, (0, 'S execs=0 points=0 skipped=1', '')
        return u, c, run_driver(os.path.join(out, 'drv_' + u.obj + u.suf), c + (soft if u.main != 'native' else []), limit)

    seen = {u.key: {} for u in P.units}      # unit -> event string -> (args, id)
    notes = {}
    totals = dict(execs=0, unique=0, points=0)
    exhausted = 0
    guided = {}
    dead = []
    with ThreadPoolExecutor(NPROC) as ex:
        for u, c, (rc, so, se) in ex.map(go, jobs):
            fin = False
            for line in so.split('\n'):
                if line.startswith('H '):
                    f = line.split(' ', 3)
                    if len(f) != 4:
                        continue
                    _, i, _, e = f
                    seen[u.key].setdefault(e, (c, i))
                elif line.startswith('# 0 guided '):
                    guided[c[1]] = dict(x.split('=') for x in line.split()[3:])
                elif line.startswith('# '):
                    notes[(u.key, tuple(c), line.split()[1])] = line
                elif line.startswith('S '):
                    fin = True
                    kv = dict(x.split('=') for x in line.split()[1:])
                    totals['execs'] += int(kv['execs'])
                    totals['points'] += int(float(kv['points']))
                    exhausted += int(kv.get('exhausted', 0))
            if rc != 0 or not fin:
                dead.append((u, c, rc, se[-1500:]))
    t_run = time.time() - t0 - t_build

    # ---------------------------------------------------------------- TLC: trace specifications and design models
    vals = []
    for u in P.units:
        hs = [((u, args, i, e), e) for e, (args, i) in seen[u.key].items()]
        if hs:
            vals.append(tlc.Validation(u.key, hs, u.module, u.consts, u.shard))
    models = P.models(a.tier) if P.models else []
    mres = []
    try:
        with ThreadPoolExecutor(2) as ex:
            fm = ex.submit(lambda: [m.run(out, a.seed) for m in models])
            tlc.validate_all(vals, out, workers=NPROC if not models else NPROC - 2)
            mres = fm.result()
    except tlc.SpecError as e:
        log('SPECIFICATION ERROR', e)
        sys.exit(2)
    bad_models = [m for m in mres if not m['ok']]

    # ---------------------------------------------------------------- verdict
    failures = []
    for v in vals:
        for (u, args, i, e) in v.rejected:
            failures.append((u, args, i, e, notes.get((u.key, tuple(args), i.split(':')[0]), '')))
    failures.sort(key=lambda f: len(f[3]))
    confirmed = []
    t_conf = time.time()
    for u, args, i, e, note in failures:
        ident = i.split(':')[0]
        if time.time() - t_conf > 100:
            break
        if u.main == 'native':              # real threads: not repeatable, but what was observed did happen
            confirmed.append((u, args, ident, e, note, []))
            continue
        rc, so, se = run_driver(os.path.join(out, 'drv_' + u.obj + u.suf), args + ['--stop-at', ident], limit)
        lines = [x for x in so.split('\n') if x.startswith('H %s ' % i)]
        if any(x.split(' ', 3)[3] == e for x in lines):
            info = [x for x in so.split('\n') if x.startswith('# id=') or x.startswith('# pid') or x.startswith('# %s ' % ident)]
            confirmed.append((u, args, ident, e, note, info))
        if len(confirmed) >= 3:
            break
    for u, c, rc, se in sorted(dead, key=lambda d: d[2] == 'timeout'):
        if len(confirmed) >= 3 or confirmed and time.time() - t_conf > 100:
            break
        rc2, so2, se2 = run_driver(os.path.join(out, 'drv_' + u.obj + u.suf), c + (soft if u.main != 'native' else []), limit)
        if rc2 != 0:
            confirmed.append((u, c, '', '', 'the driver died while running the library code (%s, %s) %s' % (rc, rc2, se[-300:]), []))
    if failures and not confirmed:
        # the schedule is the same every time; what differs then is memory that the code read before it wrote it, or wrote where it
        # must not.  What was recorded did happen.
        u, args, i, e, note = failures[0]
        confirmed.append((u, args, i.split(':')[0], e, note + ' (the execution differs from run to run)', []))
    known = props.known_findings(a.prop)
    viol, kf = [], set()
    for f in confirmed:
        k = [x for x in known if x['match'] in (f[0].key + ' ' + f[4] + ' ' + ' '.join(f[5]) + ' ' + f[3])]
        if k:
            kf.add(k[0]['what'])
        else:
            viol.append(f)
    for x in known:
        if x['what'] not in kf and x.get('always'):
            kf.add(x['what'])
    for k in sorted(kf):
        log('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n, (u, args, ident, e, note, info) in enumerate(viol):
        path = os.path.join(rdir, '%s-%d.txt' % (a.prop, n))
        with open(path, 'w') as f:
            f.write('property %s: %s\nunit %s, specification %s %s\n' % (a.prop, P.title, u.key, u.module, u.consts))
            f.write('history (c call, r return, x broken off, f final state): %s\n%s\n%s\n' % (e, note, '\n'.join(info)))
            f.write('replay: cd %s && SUF=%s XDEF=%r MAINO=%s harness/build.sh build/replay %s && build/replay/drv_%s%s %s %s\n' % (
                VERIF, u.suf, u.xdef, u.main, u.obj, u.obj, u.suf, ' '.join(args), ('--stop-at ' + ident) if ident else ''))
        log('VIOLATION property=%s replay=%s' % (a.prop, path))
        log('  ' + u.key + ': ' + (note or e)[:400])
    for m in bad_models:
        log('DESIGN MODEL FAILED', m['name'], m['out'][-1500:])

    # ---------------------------------------------------------------- evidence
    samples = []
    for u in P.units:
        for e, (args, i) in list(seen[u.key].items())[:2]:
            samples.append('%s [%s, execution %s]: %s' % (u.key, ' '.join(args), i, e[:300]))
    states = sum(v.distinct for v in vals) + sum(m['distinct'] for m in mres) + sum(g.info['states'] for u, g, path in guides)
    trans = sum(v.generated for v in vals) + sum(m['generated'] for m in mres) + sum(g.info['transitions'] for u, g, path in guides)
    nhist = sum(len(v.histories) for v in vals)
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=nhist, evaluations=totals['execs'],
               distinct_nontrivial=nhist,
               rule='programs, configurations and schedules are drawn from the seed (plus preemption-bounded exhaustive schedules of small '
                    'programs); a case is one execution of the real code, distinct when its history of calls, returns and final state is new',
               samples=samples[:12], scheduling_points=totals['points'], exhausted_programs=exhausted,
               units={v.name: dict(histories=len(v.histories), spec=v.module, nodes=v.nodes, states=v.distinct) for v in vals},
               models=[dict(name=m['name'], states=m['distinct'], generated=m['generated'], mode=m['mode']) for m in mres],
               guided=[dict(unit=u.key, specification=g.name, states=g.info['states'], transitions=g.info['transitions'],
                            transitions_replayed=g.info['covered'], behaviours=g.info['behaviours'],
                            predicted_results_observed=int(guided.get(path, {}).get('matched', 0))) for u, g, path in guides],
               attack_schedules=nattack,
               seconds=dict(build=round(t_build, 1), run=round(t_run, 1), tlc=round(time.time() - t0 - t_build - t_run, 1)))
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=P.level, coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=P.assumptions, violations=len(viol))
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: executions=%d histories=%d rejected=%d states=%d models=%d wall=%.1fs' % (
        a.prop, a.tier, totals['execs'], nhist, len(failures), states, len(mres), time.time() - t0))
    shutil.rmtree(out, ignore_errors=True)
    if viol:
        sys.exit(1)
    sys.exit(2 if bad_models else 0)


if __name__ == '__main__':
    main()
