#!/usr/bin/env python3
"""attack.py OUTDIR [MODULE...] : schedules on which *wrong variants* of the algorithm specifications fail.

Every algorithm specification is varied in the way a programmer errs: a statement is lost, two neighbouring steps change places, a
condition loses a part or is decided the other way, an atomic step falls apart into a read and a write, a retry jumps to the wrong
place, a constant is too small.  TLC searches each variant; the shortest behaviour on which it is no longer correct becomes a
schedule for the real code (format: guide.py).  On correct code the schedule leads to a legal history like any other one; on code
with that kind of error it leads straight to the failure.  The schedules are kept in spec/attacks (they depend on the specification only)."""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import guide
import tlc

D = dict
CONF = {   # module: (object, table, properties to violate, instances, numa, fibers, constants to weaken)
    'AlgCCSynch': ('ccsynch', 'LogProg', 'Correct', [D(PROG=1, HELP=30), D(PROG=2, HELP=30), D(PROG=3, HELP=30), D(PROG=8, HELP=30)], []),
    'AlgDSMSynch': ('dsmsynch', 'LogProg', 'Correct', [D(PROG=1, HELP=30), D(PROG=2, HELP=30), D(PROG=3, HELP=30), D(PROG=8, HELP=30)], []),
    'AlgHSynch': ('hsynch', 'LogProg', 'Correct', [D(PROG=1, HELP=30, CLUSTERS=1), D(PROG=1, HELP=30, CLUSTERS=2), D(PROG=2, HELP=30, CLUSTERS=1),
                                                    D(PROG=2, HELP=30, CLUSTERS=2), D(PROG=3, HELP=30, CLUSTERS=2), D(PROG=8, HELP=30, CLUSTERS=1)], []),
    'AlgOsci': ('osci', 'LogProg', 'Correct', [D(PROG=1, HELP=30, FIBERS=1), D(PROG=2, HELP=30, FIBERS=1), D(PROG=3, HELP=30, FIBERS=1), D(PROG=8, HELP=30, FIBERS=1)], []),
    'AlgFC': ('fc', 'LogProg', 'Correct', [D(PROG=1, ROUNDS=3), D(PROG=2, ROUNDS=3), D(PROG=8, ROUNDS=3)], []),
    'AlgOyama': ('oyama', 'LogProg', 'Correct', [D(PROG=1, HELP=20), D(PROG=2, HELP=20), D(PROG=8, HELP=20)], []),
    'AlgSim': ('sim', 'LogProg', 'Correct', [D(PROG=1, SLOTS=4), D(PROG=2, SLOTS=4), D(PROG=8, SLOTS=4), D(PROG=4, SLOTS=4), D(PROG=10, SLOTS=4)], [D(PROG=8, SLOTS=2), D(PROG=9, SLOTS=3), D(PROG=9, SLOTS=1)]),
    'AlgLFUObject': ('lfuobject', 'LogProg', 'Correct', [D(PROG=1), D(PROG=2)], []),
    'AlgMSQueue': ('msqueue', 'CollProg', 'Correct', [D(PROG=9), D(PROG=10), D(PROG=11), D(PROG=1), D(PROG=12), D(PROG=13), D(PROG=2)], []),
    'AlgLFStack': ('lfstack', 'CollProg', 'Correct', [D(PROG=9), D(PROG=10), D(PROG=11), D(PROG=1), D(PROG=12), D(PROG=2), D(PROG=3)], []),
    'AlgSimQueue': ('simqueue', 'CollProg', 'Correct', [D(PROG=9, SLOTS=4), D(PROG=11, SLOTS=4), D(PROG=17, SLOTS=4), D(PROG=12, SLOTS=4), D(PROG=14, SLOTS=4),
                                     D(PROG=21, SLOTS=4), D(PROG=20, SLOTS=4), D(PROG=18, SLOTS=4), D(PROG=19, SLOTS=4)],
                    [D(PROG=12, SLOTS=1), D(PROG=11, SLOTS=1), D(PROG=15, SLOTS=2), D(PROG=16, SLOTS=2)]),
    'AlgSimStack': ('simstack', 'CollProg', 'Correct', [D(PROG=9, SLOTS=4), D(PROG=11, SLOTS=4), D(PROG=17, SLOTS=4), D(PROG=12, SLOTS=4), D(PROG=14, SLOTS=4),
                                     D(PROG=20, SLOTS=4), D(PROG=18, SLOTS=4), D(PROG=19, SLOTS=4)],
                    [D(PROG=12, SLOTS=1), D(PROG=11, SLOTS=1), D(PROG=15, SLOTS=2), D(PROG=16, SLOTS=2)]),
    'AlgLCRQ': ('lcrq_r1', 'CollProg', 'Correct', [D(PROG=9, RING=2, RINGS=3), D(PROG=10, RING=2, RINGS=3), D(PROG=11, RING=2, RINGS=3), D(PROG=1, RING=2, RINGS=3),
                                                    D(PROG=12, RING=2, RINGS=4), D(PROG=13, RING=2, RINGS=4)], []),
    'AlgMCS': ('mcs', 'LockProg', 'Exclusion Fifo', [D(PROG=1), D(PROG=2)], []),
    'AlgCLH': ('clh', 'LockProg', 'Exclusion Fifo', [D(PROG=1), D(PROG=2)], []),
}
JAVA = ['java', '-XX:+UseSerialGC', '-Xmx2g', '-Xss32m', '-Djava.io.tmpdir=.', '-cp', tlc.JARS]
TIME = int(os.environ.get('ATTACK_TIME', '60'))
LABEL = re.compile(r'(?m)^( *)(\w+):(?!=)')


def balanced(s, i):
    """end of the parenthesis opened at i"""
    d = 0
    for j in range(i, len(s)):
        if s[j] == '(':
            d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0:
                return j
    raise ValueError


def parts(cond):
    """top-level conjuncts or disjuncts of a condition"""
    for op in (' \\/ ', ' /\\ '):
        out, d, cur, k = [], 0, '', 0
        while k < len(cond):
            if d == 0 and cond.startswith(op, k):
                out.append(cur)
                cur = ''
                k += len(op)
                continue
            d += cond[k] in '([{'
            d -= cond[k] in ')]}'
            cur += cond[k]
            k += 1
        out.append(cur)
        if len(out) > 1:
            return op, out
    return None, [cond]


def mutants(src):
    """yields (description, changed source)"""
    a = src.index('op_c:')
    z = src.index('\n} *)')
    labs = [m for m in LABEL.finditer(src, a, z)]
    start = labs[1].start() if len(labs) > 1 else a
    body = lambda new, i, j: src[:i] + new + src[j:]
    names = [m.group(2) for m in labs]

    def where(i):
        n = 'op_c'
        for m in labs:
            if m.start() <= i:
                n = m.group(2)
        return n
    seen = set()

    def emit(what, i, new):
        if new != src and new not in seen:
            seen.add(new)
            yield where(i) + ': ' + what, new
    # lost statements
    for m in re.finditer(r'(?<=[;{:] )[ ]*([\w\[\]<>,.()+\- ]+?) := ([^;]+);', src[start:z]):
        i, j = start + m.start(), start + m.end()
        txt = src[i:j]
        if re.search(r'\b(inside|served|i|mon|queue|fifo) :=', txt):
            continue
        yield from emit('lost ' + txt.strip(), i, body(' skip;', i, j))
        if '||' in txt:
            p = txt.rstrip(';').split('||')
            for k in range(len(p)):
                yield from emit('lost ' + p[k].strip(), i, body('||'.join(p[:k] + p[k + 1:]) + ';', i, j))
    # conditions
    for m in re.finditer(r'\bif \(', src[a:z]):
        i = a + m.end() - 1
        j = balanced(src, i)
        cond = src[i + 1:j]
        if 'Len(Prog' in cond or 'i > Prog' in cond or 'served' in cond:
            continue
        for new in ('TRUE', 'FALSE'):
            yield from emit('if %s -> %s' % (cond, new), i, body(new, i + 1, j))
        op, ps = parts(cond)
        if op:
            for k in range(len(ps)):
                yield from emit('if %s loses %s' % (cond, ps[k]), i, body(op.join(ps[:k] + ps[k + 1:]), i + 1, j))
        for x, y in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > ')):
            for mm in re.finditer(re.escape(x), cond):
                yield from emit('%s becomes%s' % (cond, y), i, body(cond[:mm.start()] + y + cond[mm.end():], i + 1, j))
    for m in re.finditer(r'\bawait ([^;]+);', src[start:z]):
        i, j = start + m.start(), start + m.end()
        yield from emit('no ' + m.group(0), i, body('skip;', i, j))
        op, ps = parts(m.group(1))
        if op:
            for k in range(len(ps)):
                yield from emit('await loses ' + ps[k], i, body('await ' + op.join(ps[:k] + ps[k + 1:]) + ';', i, j))
    # neighbouring steps change places
    top = [m for m in labs[1:] if m.group(1) == labs[0].group(1)] if len(labs) > 1 else []
    for k in range(len(top) - 1):
        i, j = top[k].start(), top[k + 1].start()
        e = top[k + 2].start() if k + 2 < len(top) else z
        b1, b2 = src[i:j], src[j:e]
        if not b1.endswith('\n'):
            b1 += '\n'
        if not b2.endswith('\n'):
            b2 += '\n'
        yield from emit('after ' + top[k + 1].group(2), i, src[:i] + b2 + b1 + src[e:])
    # statements of one step in the other order, one step per statement
    for m in re.finditer(r'(?<=: )[ ]*([^:;{}]+? := [^;{}]+;) ([^:;{}]+? := [^;{}]+;)', src[start:z]):
        i, j = start + m.start(), start + m.end()
        yield from emit('statements apart', i, body('%s\n  zz_w: %s' % (m.group(1), m.group(2)), i, j))
        yield from emit('statements swapped', i, body('%s\n  zz_w: %s' % (m.group(2), m.group(1)), i, j))
    # an atomic step falls apart
    for m in labs:
        if not m.group(2).endswith('_x'):
            continue
        i = m.start()
        k = m.end()
        nxt = [x.start() for x in labs if x.start() > i]
        e = nxt[0] if nxt else z
        blk = src[k:e]
        mm = re.match(r'\s*if \(', blk)
        pv = src.index('process (T')
        vpos = re.search(r'\nvariables ', src[pv:]).end() + pv
        if mm:
            c0 = k + mm.end() - 1
            c1 = balanced(src, c0)
            new = src[:i] + m.group(1) + m.group(2)[:-2] + '_r: zz := ' + src[c0:c1 + 1] + ';\n' + m.group(1) + m.group(2) + 'x_w: if (zz)' + src[c1 + 1:]
            new = re.sub(r'\bgoto %s\b' % m.group(2), 'goto %s_r' % m.group(2)[:-2], new)
            new = new[:vpos] + 'zz = FALSE, ' + new[vpos:]
            yield from emit('not atomic', i, new)
        mm = re.match(r'\s*([^:;{}]+? := [^;{}]+;) +([^:;{}]+? := [^;{}]+;)', blk)
        if mm:
            new = src[:i] + m.group(1) + m.group(2)[:-2] + '_r: ' + mm.group(1) + '\n' + m.group(1) + m.group(2) + 'x_w: ' + mm.group(2) + src[k + mm.end():]
            new = re.sub(r'\bgoto %s\b' % m.group(2), 'goto %s_r' % m.group(2)[:-2], new)
            yield from emit('not atomic', i, new)
        mm = re.match(r'\s*(\w+\[\w+\]) := (1 - |)(\w+\[\w+\])( \+ 1|);', blk)
        if mm and mm.group(1) == mm.group(3):
            new = src[:i] + m.group(1) + m.group(2)[:-2] + '_r: zz := ' + mm.group(3) + ';\n' + m.group(1) + m.group(2) + 'x_w: ' + mm.group(1) + ' := ' + mm.group(2) + 'zz' + mm.group(4) + ';' + src[k + mm.end():]
            new = new[:vpos] + 'zz = 0, ' + new[vpos:]
            yield from emit('not atomic', i, new)
    # jumps
    for m in re.finditer(r'\bgoto (\w+)', src[a:z]):
        t = m.group(1)
        if t not in names or t == 'op_c':
            continue
        i, j = a + m.start(), a + m.end()
        n = names.index(t)
        for u in (names[n - 1] if n > 1 else None, names[n + 1] if n + 1 < len(names) else None):
            if u:
                yield from emit('goto %s -> %s' % (t, u), i, body('goto ' + u, i, j))
    # numbers
    for m in re.finditer(r' [+-] 1\b|\b1 - (?=\w)', src[start:z]):
        i, j = start + m.start(), start + m.end()
        if src[max(0, i - 2):i + 1].strip().startswith('i') or 'Ret' in src[src.rfind('\n', 0, i):i] and 'i := i' in src[src.rfind('\n', 0, i):i]:
            continue
        yield from emit('without' + m.group(0), i, body('', i, j))


def trace(out):
    steps = [(m.group(1), int(m.group(2)) - 1) for m in re.finditer(r'^(?:State )?\d+: <(\w+)\((\d+)\) line', out, re.M)]
    m = re.search(r'^(?:State )?(\d+)?:? ?Back to state (\d+)', out, re.M) or re.search(r'Back to state:? ?(\d+)?', out)
    if m and steps:
        nums = re.findall(r'\d+', m.group(0))
        if nums:
            b = int(nums[-1])
            steps += steps[b - 1:] * 2
    return steps


def attempt(job):
    module, n, what, text, consts, invs, work = job
    d = os.path.join(work, '%s_%d_%s' % (module, n, '_'.join(str(v) for v in consts.values())))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f in os.listdir(tlc.SPEC):
            if f.endswith('.tla') and f != module + '.tla':
                os.symlink(os.path.join(tlc.SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, module + '.tla'), 'w') as f:
            f.write(text)
        if what:
            p = subprocess.run(JAVA + ['pcal.trans', '-nocfg', module + '.tla'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode or 'rror' in p.stdout:
                return 'untranslatable', None
        live = 'PROPERTY Terminates\n'
        with open(d + '/m.cfg', 'w') as f:
            f.write('SPECIFICATION FairSpec\nCONSTANT defaultInitValue = 0\n' + ''.join('CONSTANT %s = %s\n' % kv for kv in consts.items()) +
                    ''.join('INVARIANT %s\n' % v for v in invs.split()) + live)
        try:
            p = subprocess.run(JAVA + ['tlc2.TLC', '-workers', '1', '-metadir', 'st', '-noGenerateSpecTE', '-config', 'm.cfg', module + '.tla'], cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=TIME)
        except subprocess.TimeoutExpired:
            return 'timeout', None
        if tlc.OK in p.stdout:
            return 'equivalent', None
        t = trace(p.stdout)
        if not t:
            return 'broken', None
        return 'fails', t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def line(prog, consts, t):
    numa, fib = consts.get('CLUSTERS', 0), consts.get('FIBERS', 1)
    head = '%d %d %d ; %s ; ' % (len(prog), numa, fib, ' ; '.join(' '.join('%d,%d' % o for o in p) for p in prog))
    return head + ' '.join('%d%s' % (s, l[-1]) for l, s in t if l[-2:] in ('_r', '_w', '_x', '_c')) + ' ; '


def main():
    outdir = sys.argv[1]
    mods = sys.argv[2:] or list(CONF)
    work = os.environ.get('ATTACK_WORK', '/tmp/attack')
    os.makedirs(outdir, exist_ok=True)
    progs = guide.programs()
    for module in mods:
        obj, table, invs, inst, weak = CONF[module]
        if os.environ.get('ATTACK_PROG'):
            inst = [c for c in inst if str(c['PROG']) in os.environ['ATTACK_PROG'].split()]
        src = open(os.path.join(tlc.SPEC, module + '.tla')).read()
        ms = list(mutants(src))
        jobs = [(module, n, what, text, inst, invs) for n, (what, text) in enumerate(ms)] + \
               [(module, 1000 + k, '', src, [c], invs) for k, c in enumerate(weak)]

        def run(j):
            module, n, what, text, insts, invs = j
            found, verdicts = [], []
            for c in insts:
                v, t = attempt((module, n, what, text, c, invs, work))
                verdicts.append(v)
                if v == 'untranslatable':
                    break
                if t:
                    found.append((c, t))
                    if len(found) == 2:
                        break
            return j, found, verdicts
        jobs = [j for j in jobs if re.search(os.environ.get('ATTACK_ONLY', ''), j[2] or 'constants')]
        lines, stat = {}, {}
        with ThreadPoolExecutor(int(os.environ.get('ATTACK_JOBS', '8'))) as ex:
            for j, found, verdicts in ex.map(run, jobs):
                key = 'fails' if found else verdicts[-1]
                stat[key] = stat.get(key, 0) + 1
                print(module, j[2] or 'constants %s' % j[4], '|', ' '.join(verdicts), flush=True)
                for c, t in found:
                    lines.setdefault(line(progs[table][c['PROG'] - 1], c, t), j[2] or 'constants %s' % c)
                with open(os.path.join(outdir, obj + '.txt'), 'w') as f:
                    for l in sorted(lines, key=lambda x: (x.split(';', 1)[0], x)):
                        f.write('# %s\n%s\n' % (lines[l], l))
        print('==', module, 'mutants', len(ms), stat, 'schedules', len(lines), flush=True)


if __name__ == '__main__':
    main()
