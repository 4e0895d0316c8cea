#!/usr/bin/env python3
"""lincheck.py KIND < driver output: exit 1 if a history is not linearizable (or was broken off).  Independent of TLA+."""
import sys
sys.setrecursionlimit(10000)


def apply(kind, s, op, a):
    if kind == 'queue':
        if op == 0: return s + (a,), ()
        return (s, (-1,)) if not s else (s[1:], (s[0],))
    if kind == 'stack':
        if op == 0: return (a,) + s, ()
        return (s, (-1,)) if not s else (s[1:], (s[0],))
    if kind == 'log': return s + (a,), (len(s),)
    if kind == 'chain': return ((s[0] * 37 + a) % 1000003,), s
    if kind == 'set':
        if op == 0: return s | {a}, ()
        if op == 1: return s, (1 if a in s else 0,)
        return s - {a}, ()


INIT = {'queue': (), 'stack': (), 'log': (), 'chain': (0,), 'set': frozenset()}


def lin(kind, ev):
    """set of configurations (state, pending) after each event; pending: thread -> (op, arg[, result])"""
    confs = {(INIT[kind], ())}
    for e in ev:
        ty, t = e[0], e[1]
        new = set()
        if ty == 'c':
            for s, p in confs: new.add((s, p + ((t, e[2], e[3], None),)))
        elif ty == 'r':
            todo, seen = list(confs), set(confs)
            while todo:
                s, p = todo.pop()
                mine = [x for x in p if x[0] == t][0]
                if mine[3] is not None:
                    if mine[3] == e[4]: new.add((s, tuple(x for x in p if x[0] != t)))
                    continue
                for k, x in enumerate(p):
                    if x[3] is None:
                        s2, r = apply(kind, s, x[1], x[2])
                        c = (s2, p[:k] + ((x[0], x[1], x[2], r),) + p[k + 1:])
                        if c not in seen: seen.add(c); todo.append(c)
        elif ty == 'f':
            new = {(s, p) for s, p in confs if len(s) == e[3] and s[e[2]:e[2] + len(e[4])] == e[4]}
        else:
            return False
        confs = new
        if not confs: return False
        if len(confs) > 20000: return True
    return True


def lock(ev, fair):
    holder, count, ahead, waiting = None, 0, {}, set()
    for ty, t, op, a, r in ev:
        if ty == 'c': ahead[t] = set(waiting)
        elif ty == 'w': waiting.add(t)
        elif ty == 'e':
            if holder is not None or (fair and ahead[t]): return False
            holder = t; waiting.discard(t); count += 1
            for u in ahead: ahead[u].discard(t)
        elif ty == 'q':
            if holder != t: return False
            holder = None
        elif ty == 'f':
            if a != count: return False
        elif ty == 'x': return False
    return True


kind = sys.argv[1]
n = bad = 0
for line in sys.stdin:
    if not line.startswith('H '): continue
    ev = []
    for x in line.split(' ', 3)[3].strip().split(';'):
        f = x.split(',')
        ev.append((f[0], int(f[1]), int(f[2]), int(f[3]), tuple(map(int, f[4:]))))
    n += 1
    ok = lock(ev, kind == 'fairlock') if kind in ('lock', 'fairlock') else lin(kind, ev)
    if not ok:
        bad += 1
        if bad < 3: print('NOT A BEHAVIOUR OF THE', kind, ':', line.strip())
print('%d histories, %d bad' % (n, bad))
sys.exit(1 if bad or not n else 0)
