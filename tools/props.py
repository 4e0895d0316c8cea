"""The registry: which drivers, trace specifications and design models decide which property."""
import json
import os
import tlc
from guide import Guide


class Unit:
    """one conformance driver (real code) with the trace specification that judges its histories"""

    def __init__(self, obj, module, consts=None, modes=('rand', 'big', 'dfs', 'world', 'long', 'small'), suf='', xdef='', main='drv_main',
                 scale=1.0, shard=2500, key=None, extra=(), guides=None):
        self.obj, self.module, self.consts, self.modes = obj, module, consts or {}, modes
        self.suf, self.xdef, self.main, self.scale, self.shard = suf, xdef, main, scale, shard
        self.key = key or (obj + suf)
        self.extra = list(extra)
        self.guides = guides or (lambda tier: [])
        # counterexample schedules of mutated algorithm specifications (tools/attack.py)
        f = os.path.join(tlc.VERIF, 'spec', 'attacks', obj + suf + '.txt')
        self.attacks = f if guides and os.path.exists(f) else None

    def campaigns(self, tier, seed):
        k = (1 if tier == 'quick' else 14) * self.scale
        out = []

        def add(n, chunks, args, base):
            for c in range(chunks):
                out.append(args + ['--execs', str(max(20, int(n * k / chunks))), '--seed', str(seed * 1000 + base + c)] + self.extra)
        ch = 1 if tier == 'quick' else 8
        for m in self.modes:
            if m == 'rand':
                add(3000, 2 * ch, [], 1)
            elif m == 'big':
                add(900, ch, ['--big', '1'], 100)
            elif m == 'size2':
                add(300, ch, ['--size', '2'], 700)
            elif m == 'world':
                add(900, ch, ['--mode', 'world'], 200)
            elif m == 'small':
                for c in range(4 if tier == 'quick' else 16):
                    out.append(['--mode', 'small', '--progs', '20' if tier == 'quick' else '40', '--cap', str(int(3000 * self.scale) if tier == 'quick' else 60000), '--seed', str(seed * 1000 + 550 + c)] + self.extra)
            elif m == 'worldlong':
                add(200, ch, ['--mode', 'worldlong'], 250)
            elif m == 'long':
                add(70, ch, ['--mode', 'long'], 300)
            elif m == 'mem':
                add(60, ch, ['--mode', 'mem'], 900)
            elif m == 'adv':
                add(600, 2 * ch, ['--mode', 'adv', '--big', '1'], 800)
                add(600, ch, ['--mode', 'adv'], 850)
            elif m == 'prog':
                add(1500, ch, ['--mode', 'stop', '--progress', '1', '--big', '1'], 450)
            elif m == 'stop':
                add(1500, ch, ['--mode', 'stop'], 400)
            elif m == 'dfs':
                for c in range(1 if tier == 'quick' else 8):
                    out.append(['--mode', 'dfs', '--progs', '5' if tier == 'quick' else '12', '--bound', '2' if tier == 'quick' or c % 2 else '3',
                                '--cap', '2500' if tier == 'quick' else '60000', '--seed', str(seed * 1000 + 500 + c)] + self.extra)
            else:
                add(m[1], ch, list(m[0]), m[2])
        return out


class Model:
    """a design specification checked by TLC on its own"""

    def __init__(self, module, cfg, name=None, extra=(), mode='exhaustive', timeout=600, workers='2'):
        self.module, self.cfg, self.name = module, cfg, name or module
        self.extra, self.mode, self.timeout, self.workers = list(extra), mode, timeout, workers

    def run(self, work, seed):
        rc, out, g, d = tlc.tlc_run(self.module, self.cfg, work, 'model_' + self.name.replace(' ', '_'), workers=self.workers,
                                    timeout=self.timeout, extra=self.extra)
        return dict(name=self.name, ok=rc == 0 and tlc.OK in out, out=out, generated=g, distinct=d, mode=self.mode)


class Prop:
    def __init__(self, title, units, models=None, level='model_checking', assumptions=()):
        self.title, self.units, self.models, self.level = title, units, models, level
        self.assumptions = list(assumptions)


def known_findings(prop):
    f = os.path.join(tlc.VERIF, 'known-findings.json')
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f))['findings'] if x['property'] == prop]


SC = ['x86 sequential consistency of the instrumented accesses (store buffers are not simulated)',
      'the library is compiled with gcc -O1 -fsanitize=thread and run by our own scheduler on virtual threads']


def lin(obj, kind, **kw):
    if kw.pop('guided', True):
        kw.setdefault('guides', GUIDES.get(obj + kw.get('suf', '')))
    return Unit(obj, 'Lin', {'Kind': '"%s"' % kind}, **kw)


def case(obj, module, scale=1.0, consts=None, modes=('rand', 'size2', 'dfs'), **kw):
    return Unit(obj, module, consts, main='drv_case', modes=modes, scale=scale, **kw)


def mem(obj, base, per):
    return Unit(obj, 'Footprint', {'Base': base, 'Per': per}, modes=('mem',), key=obj + '_mem')


PB = dict(suf='_pb', xdef='-DPOOLBLK=256', guided=False)     # pools with blocks of a few nodes
def small_pools(objs, kind, scale=0.5):
    return [lin(o, kind, scale=scale, modes=('rand', 'big', 'long', 'world'), **PB) for o in objs.split()]


# the build options of config.h
VARIANTS = dict(_dbg='-DDEBUG', _nr='-DSYNCH_POOL_NODE_RECYCLING_DISABLE -DSYNCH_DISABLE_BACKOFF', _em='-DSYNCH_EMULATE_FAA -DSYNCH_EMULATE_SWAP',
                _off='-DCONF_OFF_SYNCH_NUMA_SUPPORT -DCONF_OFF_SYNCH_COMPACT_ALLOCATION')
CONF = (((), 160, 31), (('--big', '1'), 60, 131), (('--mode', 'world'), 80, 231), (('--mode', 'long'), 3, 331))


def configured():
    out = []
    for suf, xdef in VARIANTS.items():
        for k in KINDS:
            out += [lin(o, k, modes=CONF, suf=suf, xdef=xdef, guided=False) for o in KINDS[k].split()]
        out += [Unit(o, 'LockTrace', {'Fair': 'TRUE'}, modes=CONF, suf=suf, xdef=xdef) for o in ('clh', 'mcs')]
        for o, module in (('mem', 'Blocks'), ('pool', 'Pool'), ('fibers', 'Fibers'), ('runtime', 'Runtime'), ('barrier', 'Barrier'), ('rand', 'Random'), ('place', 'Placement'),
                          ('tvec', 'ToggleVector')):
            if (o, suf) != ('pool', '_nr'):      # without recycling a pool does not reuse
                out.append(case('case_' + o, module, 0.1, modes=('rand',), suf=suf, xdef=xdef))
    return out


RECLAIM = ('ccqueue dsmqueue hqueue fcqueue osciqueue ccstack dsmstack hstack fcstack oscistack simstack ccsynch dsmsynch hsynch osci fc oyama '
           'sim lfuobject clh mcs').split()
NOBOUND = (1000000, 0)


def bounds(obj, steps=NOBOUND, served=NOBOUND, gap=NOBOUND, **kw):
    c = dict(StepsA=steps[0], StepsB=steps[1], ServedA=served[0], ServedB=served[1], GapA=gap[0], GapB=gap[1])
    return Unit(obj, 'Bounds', c, modes=('adv',), key=obj + '_bounds', **kw)


NONBLOCKING = ('sim', 'simqueue', 'simstack', 'lfuobject', 'lfstack', 'msqueue', 'lcrq')
TWO = ((('--ni', '2'), 1500, 30), (('--ni', '2', '--big', '1'), 1000, 40), (('--ni', '2', '--mode', 'world'), 500, 50))
KINDS = dict(log='ccsynch dsmsynch hsynch osci fc oyama', chain='sim lfuobject', set='clhhash dsmhash',
             queue='ccqueue dsmqueue hqueue fcqueue osciqueue simqueue lcrq msqueue', stack='ccstack dsmstack hstack fcstack oscistack simstack lfstack')
ALL = ('rand', 'big', 'dfs', 'world', 'long', 'small')
NB = ALL + ('stop',)
FIB = (('--mode', 'world', '--fibers', '3'), 900, 600)



def alg(module, invs, live=True, workers='1', timeout=840, **consts):
    """exhaustive model checking of an algorithm specification: safety (linearizability or mutual exclusion) and termination"""
    text = open(os.path.join(tlc.SPEC, module + '.tla')).read()
    cfg = 'SPECIFICATION %s\n' % ('FairSpec' if live or 'FairSpec ==' in text else 'Spec') + \
          ('CONSTANT defaultInitValue = 0\n' if 'defaultInitValue' in text else '') + ''.join('CONSTANT %s = %s\n' % kv for kv in consts.items()) + \
          ''.join('INVARIANT %s\n' % i for i in invs.split()) + ('PROPERTY Terminates\n' if live else '')
    return Model(module, cfg, name=module + ''.join('_%s%s' % kv for kv in consts.items()), workers=workers, timeout=timeout)


def algs(*specs):
    """specs: (module, invariants, [constants of the quick tier], [constants of the thorough tier])"""
    def models(tier):
        out = []
        for module, invs, quick, deep in specs:
            for c in quick + (deep if tier == 'thorough' else []):
                out.append(alg(module, invs, live=c.get('live', True), workers='1' if tier == 'quick' else '2',
                               **{k: v for k, v in c.items() if k != 'live'}))
        return out
    return models


def guides(module, table, quick, deep=(), numa=None, limit=1200):
    def gs(tier):
        return [Guide(module, table, numa=c.get('CLUSTERS', 0), limit=limit if tier == 'quick' else 20000, **c)
                for c in list(quick) + (list(deep) if tier == 'thorough' else [])]
    return gs


D = dict
COMB = 'Correct OneCombiner Bounded'
GUIDES = dict(
    ccsynch=guides('AlgCCSynch', 'LogProg', [D(PROG=2, HELP=30), D(PROG=3, HELP=30)], [D(PROG=4, HELP=40)]),
    dsmsynch=guides('AlgDSMSynch', 'LogProg', [D(PROG=2, HELP=30), D(PROG=3, HELP=30)], [D(PROG=4, HELP=40)]),
    hsynch=guides('AlgHSynch', 'LogProg', [D(PROG=2, HELP=30, CLUSTERS=1), D(PROG=3, HELP=30, CLUSTERS=2)], [D(PROG=4, HELP=40, CLUSTERS=2)]),
    osci=guides('AlgOsci', 'LogProg', [D(PROG=2, HELP=30, FIBERS=1)], [D(PROG=3, HELP=30, FIBERS=1)]),
    fc=guides('AlgFC', 'LogProg', [D(PROG=1, ROUNDS=3), D(PROG=2, ROUNDS=3)], [D(PROG=4, ROUNDS=3)]),
    oyama=guides('AlgOyama', 'LogProg', [D(PROG=1, HELP=20), D(PROG=2, HELP=20)], [D(PROG=4, HELP=20)]),
    sim=guides('AlgSim', 'LogProg', [D(PROG=1, SLOTS=4), D(PROG=2, SLOTS=4)], [D(PROG=4, SLOTS=4)]),
    lfuobject=guides('AlgLFUObject', 'LogProg', [D(PROG=2), D(PROG=5)], [D(PROG=4)]),
    msqueue=guides('AlgMSQueue', 'CollProg', [D(PROG=1), D(PROG=13)], [D(PROG=4)]),
    lfstack=guides('AlgLFStack', 'CollProg', [D(PROG=1), D(PROG=3)], [D(PROG=4)]),
    simqueue=guides('AlgSimQueue', 'CollProg', [D(PROG=k, SLOTS=4) for k in (9, 10, 11)], [D(PROG=k, SLOTS=4) for k in (12, 14)]),
    simstack=guides('AlgSimStack', 'CollProg', [D(PROG=k, SLOTS=4) for k in (9, 10, 11)], [D(PROG=k, SLOTS=4) for k in (12, 14)]),
    lcrq_r1=guides('AlgLCRQ', 'CollProg', [D(PROG=1, RING=2, RINGS=3), D(PROG=11, RING=2, RINGS=3)], [D(PROG=12, RING=2, RINGS=4), D(PROG=9, RING=2, RINGS=3)], limit=600),
    mcs=guides('AlgMCS', 'LockProg', [D(PROG=1), D(PROG=2)], [D(PROG=3)]),
    clh=guides('AlgCLH', 'LockProg', [D(PROG=1), D(PROG=2)], [D(PROG=3)]))

PROPS = {
    'P01': Prop('queue-based combining', [lin(o, 'log', scale=2) for o in ('ccsynch', 'dsmsynch', 'hsynch')], models=algs(
        ('AlgCCSynch', COMB, [D(PROG=2, HELP=2), D(PROG=3, HELP=2)], [D(PROG=4, HELP=2), D(PROG=5, HELP=2), D(PROG=7, HELP=3, live=False)]),
        ('AlgDSMSynch', COMB, [D(PROG=2, HELP=2), D(PROG=3, HELP=2)], [D(PROG=4, HELP=2), D(PROG=5, HELP=2), D(PROG=7, HELP=3, live=False)]),
        ('AlgHSynch', COMB, [D(PROG=4, HELP=2, CLUSTERS=1), D(PROG=3, HELP=2, CLUSTERS=2)],
         [D(PROG=4, HELP=2, CLUSTERS=2), D(PROG=5, HELP=2, CLUSTERS=2), D(PROG=7, HELP=2, CLUSTERS=2, live=False)])), assumptions=SC),
    'P02': Prop('cooperative combining of fibers', [lin('osci', 'log', scale=4, modes=ALL + (FIB, 'worldlong'))], models=algs(
        ('AlgOsci', 'Correct OneCombiner', [D(PROG=1, HELP=2, FIBERS=2), D(PROG=2, HELP=2, FIBERS=1), D(PROG=3, HELP=2, FIBERS=2)],
         [D(PROG=5, HELP=2, FIBERS=2), D(PROG=4, HELP=2, FIBERS=2), D(PROG=7, HELP=2, FIBERS=2, live=False)])), assumptions=SC),
    'P03': Prop('announcement combining', [lin(o, 'log', scale=3) for o in ('fc', 'oyama')], models=algs(
        ('AlgFC', COMB, [D(PROG=2, ROUNDS=2)], [D(PROG=3, ROUNDS=1), D(PROG=4, ROUNDS=2)]),
        ('AlgOyama', COMB, [D(PROG=2, HELP=2)], [D(PROG=3, HELP=1), D(PROG=4, HELP=2)])), assumptions=SC),
    'P04': Prop('universal constructions', [lin(o, 'chain', scale=3, modes=NB) for o in ('sim', 'lfuobject')] +
                [lin(o, 'reg', scale=1, modes=NB, suf='_reg', xdef='-DDRV_REG=F_REG', guided=False) for o in ('sim', 'lfuobject')], models=algs(
        ('AlgSim', 'Correct', [D(PROG=1, SLOTS=2), D(PROG=2, SLOTS=2)], [D(PROG=4, SLOTS=2), D(PROG=3, SLOTS=2, live=False)]),
        ('AlgLFUObject', 'Correct', [D(PROG=2), D(PROG=5)], [D(PROG=6), D(PROG=7)])), assumptions=SC),
    'P05': Prop('combining queues', [lin(o, 'queue', scale=1.5) for o in ('ccqueue', 'dsmqueue', 'hqueue', 'fcqueue')] +
                [lin('osciqueue', 'queue', scale=1.5, modes=ALL + ('worldlong',))] + small_pools('ccqueue dsmqueue hqueue fcqueue osciqueue', 'queue', 0.3),
                models=algs(('AlgTwoLockQueue', 'Correct NodesOK', [D(PROG=1), D(PROG=4)], [D(PROG=13), D(PROG=3), D(PROG=2), D(PROG=5, live=False)])), assumptions=SC),
    'P06': Prop('SimQueue', [lin('simqueue', 'queue', scale=5, modes=NB)] + small_pools('simqueue', 'queue', 1), models=algs(
        ('AlgSimQueue', 'Correct', [D(PROG=9, SLOTS=2), D(PROG=10, SLOTS=2), D(PROG=11, SLOTS=2)],
         [D(PROG=12, SLOTS=2), D(PROG=1, SLOTS=2), D(PROG=13, SLOTS=2, live=False)])), assumptions=SC),
    'P07': Prop('LCRQ', [lin('lcrq', 'queue', scale=2, modes=NB), lin('lcrq', 'queue', scale=3, modes=NB, suf='_r1', xdef='-DRING_POW=1'),
                          lin('lcrq', 'queue', scale=1, modes=NB, suf='_r2', xdef='-DRING_POW=2')], models=algs(
        ('AlgLCRQ', 'Correct Enough', [D(PROG=1, RING=2, RINGS=3)],
         [D(PROG=1, RING=1, RINGS=4), D(PROG=13, RING=2, RINGS=4), D(PROG=4, RING=2, RINGS=5), D(PROG=2, RING=1, RINGS=5, live=False),
          D(PROG=3, RING=2, RINGS=5, live=False)])), assumptions=SC),
    'P08': Prop('MS-Queue', [lin('msqueue', 'queue', scale=5, modes=NB)] + small_pools('msqueue', 'queue', 1), models=algs(
        ('AlgMSQueue', 'Correct ListOK', [D(PROG=1), D(PROG=13)], [D(PROG=4), D(PROG=3), D(PROG=5, live=False)])), assumptions=SC),
    'P09': Prop('combining stacks', [lin(o, 'stack', scale=1.5) for o in ('ccstack', 'dsmstack', 'hstack', 'fcstack')] +
                [lin('oscistack', 'stack', scale=1.5, modes=ALL + ('worldlong',))] + small_pools('ccstack dsmstack hstack fcstack oscistack', 'stack', 0.3),
                assumptions=SC),
    'P10': Prop('SimStack', [lin('simstack', 'stack', scale=5, modes=NB)] + small_pools('simstack', 'stack', 1), models=algs(
        ('AlgSimStack', 'Correct NodesOK', [D(PROG=9, SLOTS=2), D(PROG=10, SLOTS=2), D(PROG=11, SLOTS=2)],
         [D(PROG=12, SLOTS=2), D(PROG=1, SLOTS=2), D(PROG=13, SLOTS=2, live=False)])), assumptions=SC),
    'P11': Prop('LF-Stack', [lin('lfstack', 'stack', scale=5, modes=NB)] + small_pools('lfstack', 'stack', 1), models=algs(
        ('AlgLFStack', 'Correct', [D(PROG=1), D(PROG=3)], [D(PROG=4), D(PROG=5), D(PROG=6, live=False)])), assumptions=SC),
    'P12': Prop('locks exclude each other', [Unit(o, 'LockTrace', {'Fair': 'FALSE'}, scale=4, guides=GUIDES[o]) for o in ('clh', 'mcs')], models=algs(
        ('AlgMCS', 'Exclusion', [D(PROG=1), D(PROG=2)], [D(PROG=3), D(PROG=4), D(PROG=5)]),
        ('AlgCLH', 'Exclusion', [D(PROG=1), D(PROG=3)], [D(PROG=4), D(PROG=5)])), assumptions=SC),
    'P13': Prop('locks are fair', [Unit(o, 'LockTrace', {'Fair': 'TRUE'}, scale=4, guides=GUIDES[o]) for o in ('clh', 'mcs')], models=algs(
        ('AlgMCS', 'Exclusion Fifo', [D(PROG=1), D(PROG=2)], [D(PROG=3), D(PROG=4), D(PROG=5)]),
        ('AlgCLH', 'Exclusion Fifo', [D(PROG=1), D(PROG=3)], [D(PROG=4), D(PROG=5)])), assumptions=SC),
    'P19': Prop('wait-freedom', [bounds(o, steps=(200, 80)) for o in ('sim', 'simqueue', 'simstack')], assumptions=SC),
    'P20': Prop('lock-freedom', [Unit(o, 'Progress', modes=('prog',), key=o + '_stop', scale=2) for o in NONBLOCKING] +
                [Unit('lcrq', 'Progress', modes=('prog',), key='lcrq_r1_stop', suf='_r1', xdef='-DRING_POW=1')] +
                [bounds(o, gap=(500, 200)) for o in NONBLOCKING if o != 'lcrq'], assumptions=SC),
    'P21': Prop('bounded combining', [bounds(o, served=(0, 11)) for o in ('ccsynch', 'dsmsynch', 'hsynch', 'fc', 'oyama', 'osci')], assumptions=SC),
    'P22': Prop('instances are independent', [lin(o, k, modes=TWO, guided=False) for k in KINDS for o in KINDS[k].split()] +
                [Unit(o, 'LockTrace', {'Fair': 'TRUE'}, modes=TWO) for o in ('clh', 'mcs')], assumptions=SC),
    'P23': Prop('memory', [case('case_mem', 'Blocks', 1)] + [mem(o, 2, 8000) for o in RECLAIM] + [mem(o, 3, 100) for o in
                ('simqueue', 'msqueue', 'lfstack', 'dsmhash')] + [mem('clhhash', 3, 60)], assumptions=SC),
    'P28': Prop('build options', configured(), assumptions=SC),
    'P15': Prop('barriers', [case('case_barrier', 'Barrier', 3)], models=algs(
        ('AlgBarrier', 'Held Counters', [D(THREADS=2, ROUNDS=3), D(THREADS=3, ROUNDS=3)], [D(THREADS=4, ROUNDS=3), D(THREADS=5, ROUNDS=2)])), assumptions=SC),
    'P16': Prop('thread runtime', [case('case_runtime', 'Runtime', 2)], assumptions=SC),
    'P17': Prop('fibers', [case('case_fibers', 'Fibers', 2)], models=algs(
        ('AlgFibers', 'Counted Grounded Fair NoLeak', [D(MAX=3, YIELDS=2, SPAWNS=4), D(MAX=4, YIELDS=2, SPAWNS=5)],
         [D(MAX=5, YIELDS=2, SPAWNS=6), D(MAX=4, YIELDS=3, SPAWNS=7)])), assumptions=SC),
    'P18': Prop('object pool', [case('case_pool', 'Pool', 2)], models=algs(
        ('AlgPool', 'Disjoint Conserved Frugal Full', [D(ENTRIES=2, STEPS=9, live=False), D(ENTRIES=3, STEPS=9, live=False)],
         [D(ENTRIES=2, STEPS=13, live=False), D(ENTRIES=3, STEPS=13, live=False)])), assumptions=SC),
    'P24': Prop('atomic primitives', [case('case_atomics', 'Atomics', 4, key='atomics')] +
                [case('case_atomics', 'Atomics', 2, key='atomics_emulated', suf='_em', xdef='-DSYNCH_EMULATE_FAA -DSYNCH_EMULATE_SWAP'),
                 case('case_atomics', 'Atomics', 2, key='atomics_debug', suf='_dbg', xdef='-DDEBUG'),
                 Unit('native', 'Conserve', main='native', modes=(((), 140, 0),)),
                 Unit('native', 'Conserve', main='native', suf='_em', xdef='-DSYNCH_EMULATE_FAA -DSYNCH_EMULATE_SWAP', modes=(((), 140, 0),))],
                assumptions=SC),
    'P25': Prop('thread placement', [case('case_place', 'Placement', 2, modes=('rand', 'size2'))], assumptions=SC),
    'P27': Prop('random numbers and backoff', [case('case_rand', 'Random', 2, modes=('rand',))], assumptions=SC),
    'P29': Prop('arguments and statistics', [case('case_args', 'Args', 2, modes=('rand',)), case('case_stats', 'Stats', 1, modes=('rand', 'dfs'), suf='_dbg', xdef='-DDEBUG')], assumptions=SC),
    'P26': Prop('toggle vectors', [case('case_tvec', 'ToggleVector', 3)], assumptions=SC),
    'P14': Prop('hash tables', [lin(o, 'set', scale=4) for o in ('clhhash', 'dsmhash')] + small_pools('clhhash dsmhash', 'set'), models=algs(
        ('AlgHash', 'Correct CellsOK', [D(PROG=1, CELLS=2), D(PROG=2, CELLS=2)], [D(PROG=3, CELLS=2), D(PROG=3, CELLS=3), D(PROG=5, CELLS=2), D(PROG=4, CELLS=2, live=False)])), assumptions=SC),
}
