"""Running TLC, and validating recorded histories of the real code with a trace specification."""
import glob
import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = ':'.join(sorted(glob.glob('/opt/veriftools/tla/*.jar'), key=lambda p: 'tla2tools' not in p))
TY = {'c': 0, 'r': 1, 'f': 2, 'x': 3, 'w': 4, 'e': 5, 'q': 6, 'a': 7, 'b': 8, 'd': 9, 'g': 10, 'h': 11, 'i': 12, 'j': 13, 'k': 14, 'l': 15, 'm': 16,
      'n': 17, 'o': 18, 'p': 19, 's': 20, 't': 21, 'u': 22, 'v': 23, 'y': 24, 'z': 25}
STAT = re.compile(r'(\d+) states generated, (\d+) distinct states found')
OK = 'Model checking completed. No error has been found'


class SpecError(Exception):
    pass


def java_cmd(module, cfg, mem='3g', workers='1', extra=(), props=()):
    return ['java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=.'] + list(props) + \
           ['-cp', JARS, 'tlc2.TLC', '-workers', workers, '-config', cfg, '-metadir', 'st', '-noGenerateSpecTE'] + list(extra) + [module]


def tlc_run(module, cfgtext, work, name, env=None, mem='3g', workers='1', timeout=800, extra=(), props=()):
    """runs TLC on spec/<module>.tla in a directory of its own; returns (rc, output, generated, distinct)"""
    d = os.path.join(work, 'tlc_' + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in glob.glob(SPEC + '/*.tla'):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    with open(os.path.join(d, 'm.cfg'), 'w') as f:
        f.write(cfgtext)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(java_cmd(module + '.tla', 'm.cfg', mem, workers, extra, props), cwd=d, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b''
        out = out.decode(errors='replace') if isinstance(out, bytes) else out
        rc = 'timeout'
    g = dist = 0
    for m in STAT.finditer(out):
        g, dist = int(m.group(1)), int(m.group(2))
    shutil.rmtree(d, ignore_errors=True)
    return rc, out, g, dist


def wellformed(h):
    """False for what no run of a working driver prints: broken events or numbers (the code under test has overwritten the driver's
    memory, say) and values outside the range of the specifications (TLC counts with 32 bits)"""
    try:
        for e in h.split(';'):
            f = e.split(',')
            if f[0] not in TY or len(f) < 4 or any(abs(int(x)) >= 2 ** 31 for x in f[1:]):
                return False
    except ValueError:
        return False
    return True


def build_trie(histories, out):
    """histories: event strings. Writes one JSON array per tree node; returns (nodes, leaf number -> index)"""
    nodes = [[9, 0, 0, 0, [], [], 0]]
    kids = [{}]
    leaf = []
    for idx, h in enumerate(histories):
        cur = 0
        for e in h.split(';'):
            k = kids[cur].get(e)
            if k is None:
                f = e.split(',')
                k = len(nodes)
                kids[cur][e] = k
                nodes[cur][5].append(k + 1)
                nodes.append([TY[f[0]], int(f[1]), int(f[2]), int(f[3]), [int(x) for x in f[4:]], [], 0])
                kids.append({})
            cur = k
        if nodes[cur][6] == 0:
            leaf.append(idx)
            nodes[cur][6] = len(leaf)
    foresee(nodes)
    with open(out, 'w') as o:
        for x in nodes:
            o.write(json.dumps(x, separators=(',', ':')))
            o.write('\n')
    return len(nodes), leaf


ANY = [-98]


def foresee(nodes):
    """appends to every node, per thread, the result its pending operation returns in every history below, else ANY"""
    will = [None] * len(nodes)
    for n in range(len(nodes) - 1, -1, -1):      # children come after their parents
        m = None
        for k in nodes[n][5]:
            c = nodes[k - 1]
            w = will[k - 1]
            if c[0] == 1:
                w = dict(w)
                w[c[1]] = c[4]
            elif c[0] == 0 and c[1] in w:
                w = dict(w)
                del w[c[1]]
            m = w if m is None else {t: r for t, r in m.items() if w.get(t) == r}
            will[k - 1] = None
        if nodes[n][6] or m is None:
            m = {}
        will[n] = m
        nodes[n].append([m.get(t, ANY) for t in range(max(m) + 1)] if m else [])


class Validation:
    """one group of histories to be judged by one trace specification"""

    def __init__(self, name, histories, module, consts, shard=2500, env=None):
        self.name, self.histories, self.module, self.consts, self.shard = name, histories, module, consts, shard
        self.env = env or {}
        self.rejected = []
        self.nodes = self.generated = self.distinct = 0

    def parts(self):
        # sorted histories share prefixes; contiguous shards keep the trees compact
        order = sorted(range(len(self.histories)), key=lambda i: self.histories[i][1])
        n = (len(order) + self.shard - 1) // self.shard
        return [order[i * len(order) // n:(i + 1) * len(order) // n] for i in range(n)]


def validate_all(vals, work, workers=8, timeout=800, mem='3g'):
    for v in vals:
        bad = [h for h in v.histories if not wellformed(h[1])]
        if bad:
            v.rejected += [h[0] for h in bad]
            v.histories = [h for h in v.histories if wellformed(h[1])]
    jobs = [(v, i, p) for v in vals for i, p in enumerate(v.parts())]
    jobs.sort(key=lambda j: -len(j[2]))

    def one(job):
        v, i, part = job
        name = '%s_%d' % (v.name, i)
        f = os.path.join(work, name + '.ndjson')
        nn, leaf = build_trie([v.histories[j][1] for j in part], f)
        cfg = 'SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
        cfg += ''.join('CONSTANT %s = %s\n' % kv for kv in v.consts.items())
        env = dict(v.env)
        env.update(TRACE=f, LEAVES=str(len(leaf)))
        rc, out, g, d = tlc_run(v.module, cfg, work, name, env, mem=mem, timeout=timeout)
        os.unlink(f)
        if rc != 0 or OK not in out:
            raise SpecError('TLC failed on %s rc=%s\n%s' % (name, rc, out[-3000:]))
        rej = [v.histories[part[leaf[int(m) - 1]]][0] for m in re.findall(r'<<"REJECTED", (\d+)>>', out)]
        return v, nn, g, d, rej

    with ThreadPoolExecutor(max_workers=workers) as ex:
        for v, nn, g, d, rej in ex.map(one, jobs):
            v.nodes += nn
            v.generated += g
            v.distinct += d
            v.rejected += rej
