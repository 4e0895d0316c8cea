"""Behaviours of the algorithm specifications as schedules for the real code.

TLC explores a small instance completely and dumps its state graph.  Paths that together take every transition are written
as schedules: the thread of every step and, from the suffix of its label, the access that ends the step (_r read, _w write,
_x read-modify-write, _c call of the next operation; other labels are local).  The results the specification predicts go along."""
import os
import random
import re
import shutil
import subprocess
import tlc

NODE = re.compile(r'^(-?\d+) \[label="(.*?)(?<!\\)"(,style = filled|,tooltip=.*)?\];?\s*$')
EDGE = re.compile(r'^(-?\d+) -> (-?\d+) \[label="(\w+)\((\d+)\)"')


def parse_tuple(txt):
    """nested TLA+ tuples of integers -> lists"""
    txt = re.sub(r'\s+', '', txt).replace('<<', '[').replace('>>', ']')
    return eval(txt, {'__builtins__': {}}) if re.fullmatch(r'[\[\]\-\d,]*', txt) else None


def state_graph(module, consts, work, timeout=300):
    d = os.path.join(work, 'graph_%s_%s' % (module, '_'.join(str(v) for v in consts.values())))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(tlc.SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(tlc.SPEC, f), os.path.join(d, f))
    with open(d + '/m.cfg', 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANT defaultInitValue = 0\n' + ''.join('CONSTANT %s = %s\n' % kv for kv in consts.items()))
    p = subprocess.run(tlc.java_cmd(module + '.tla', 'm.cfg', extra=['-dump', 'dot,actionlabels', 'g.dot']), cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if tlc.OK not in p.stdout:
        raise tlc.SpecError(module + ': ' + p.stdout[-1500:])
    nodes, edges, init = {}, {}, None
    for line in open(d + '/g.dot'):
        m = EDGE.match(line)
        if m:
            if m.group(1) != m.group(2):
                edges.setdefault(m.group(1), []).append((m.group(2), (m.group(3), int(m.group(4)) - 1)))
            continue
        m = NODE.match(line)
        if m and m.group(1) not in nodes:
            lab = m.group(2).replace('\\n', '\n').replace('\\"', '"').replace('\\\\', '\\')
            pc = re.search(r'/\\ pc = <<(.*?)>>', lab, re.S)
            res = re.search(r'/\\ res = (<<.*?)(?=\n/\\ |\Z)', lab, re.S)
            nodes[m.group(1)] = (re.findall(r'"(\w+)"', pc.group(1)), res.group(1) if res else '')
            if m.group(3) and m.group(3)[1] == 's':
                init = m.group(1)
    shutil.rmtree(d, ignore_errors=True)
    return nodes, edges, init


def cover(nodes, edges, init, seed, limit):
    """paths from init to the end that take every transition (as far as limit goes)"""
    rnd = random.Random(seed)
    parent = {init: None}
    order = [init]
    for s in order:
        for (d, a) in edges.get(s, ()):
            if d not in parent:
                parent[d] = (s, a)
                order.append(d)
    todo = [(s, d, a) for s in edges for (d, a) in edges[s]]
    left = set(todo)
    rnd.shuffle(todo)
    paths = []
    for e in todo:
        if e not in left:
            continue
        if len(paths) >= limit:
            break
        back, s = [], e[0]
        while parent[s]:
            back.append((parent[s][0], s, parent[s][1]))
            s = parent[s][0]
        path = back[::-1] + [e]
        s, n = e[1], 0
        while edges.get(s) and n < 4000:
            out = edges[s]
            new = [x for x in out if (s, x[0], x[1]) in left]
            d, a = rnd.choice(new or out)
            path.append((s, d, a))
            left.discard((s, d, a))
            s = d
            n += 1
        left.difference_update(path)
        paths.append(path)
    return paths, len(todo), len(todo) - len(left)


def schedules(module, consts, prog, work, seed, limit, numa=0, fibers=1):
    nodes, edges, init = state_graph(module, consts, work)
    paths, total, covered = cover(nodes, edges, init, seed, limit)
    head = '%d %d %d ; %s ; ' % (len(prog), numa, fibers, ' ; '.join(' '.join('%d,%d' % o for o in t) for t in prog))
    lines = []
    for p in paths:
        sched = []
        for (s, d, a) in p:
            if a[0][-2:] in ('_r', '_w', '_x', '_c'):
                sched.append('%d%s' % (a[1], a[0][-1]))
        res = parse_tuple(nodes[p[-1][1]][1]) if nodes[p[-1][1]][1] else None
        exp = ''
        if res:
            exp = ' '.join('%d:%d' % (t, r[0] if r else -9) for t in range(len(res)) for r in res[t])
        lines.append(head + ' '.join(sched) + ' ; ' + exp)
    return lines, dict(states=len(nodes), transitions=total, covered=covered, behaviours=len(lines))


def programs():
    txt = open(os.path.join(tlc.SPEC, 'Programs.tla')).read()
    out = {}
    for name in ('CollProg', 'LogProg'):
        m = re.search(name + r' == (<<.*?>> >>)\n(?=\w)', txt, re.S)
        s = re.sub(r'\s+', '', m.group(1)).replace('<<', '[').replace('>>', ']')
        s = re.sub(r'A\((\d+)\)', r'(0,\1)', s).replace('R', '(1,0)')
        out[name] = eval(s, {'__builtins__': {}})
    out['LockProg'] = [[[(0, 0)] * sum(t) if isinstance(t, list) else [(0, 0)] * t for t in p] for p in
                       ([2, 2], [1, 1, 1], [2, 1, 1], [2, 2, 2], [1, 1, 1, 1])]
    return out


class Guide:
    """an algorithm specification whose behaviours are replayed by a driver"""

    def __init__(self, module, table, numa=0, fibers=1, limit=1500, **consts):
        self.module, self.table, self.numa, self.fibers, self.limit, self.consts = module, table, numa, fibers, limit, consts
        self.name = module + ''.join('_%s%s' % kv for kv in consts.items())
        self.info = None

    def write(self, work, path, seed):
        prog = programs()[self.table][self.consts['PROG'] - 1]
        lines, self.info = schedules(self.module, self.consts, prog, work, seed, self.limit, self.numa, self.fibers)
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
