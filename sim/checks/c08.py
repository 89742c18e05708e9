"""C08: threads can read one atom at the same time."""
import os

from .common import *
from .. import points, sched
from ..gen import Gen
from ..ops import ident
from ..interrupt import forked, plain
from ..observe import observe, diff, query, coherent

ID = 'C08'
THREADS = True
QUICK, THOROUGH = 2400, 80000
RULE = ('2-4 real threads run seeded lists of read-only queries on one atom; a baton passes between them only at a seeded list of '
        '1-6 preemptions (placed uniformly over the code places that the threads pass) and when a thread blocks or ends; '
        'non-trivial: at least one preemption inside a query took place')
STATES = 'distinct interleavings: sequences of (thread, code place, next thread) at every change of the running thread'
REAL = [REAL_LIB, 'CPython threads, parked on semaphores whenever they are not the chosen one']
STUB = ['threading.Lock/RLock: replaced by simulator locks that hand the baton on instead of blocking']
ASSUMPTIONS = ['threads are switched where CPython switches them (function entry, backward jumps, after C calls, lock operations) and '
               'before any line of the library; inside third-party libraries other than networkx no switch takes place']

READS = ['lookup', 'lookup', 'lookup', 'items', 'items', 'titems', 'titems', 'linked', 'linked_sub', 'lifetime', 'branching', 'info',
         'tinfo', 'sorted', 'names', 'len', 'deep', 'save', 'save', 'export']


def setup():
    points.NAMES = ['PlainQuantity.__reduce__', 'UnitsContainer.__getstate__']      # Python code that runs in the middle of pickling
    points.install(lines=True)


def generate(rng, tier):
    g = Gen(rng, upset=rng.choice([0, 0, .4]), max_levels=rng.choice([2, 3]), loops='none', spins=[0.0, .5, .5, 1.0, 1.5])
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([1, 1, 2]))
    if rng.random() < .3:
        g.alias_op(0)
    if rng.random() < .4:
        g.read(0, whats=['lookup'])
    if rng.random() < .2:
        g.emit({'op': 'reload', 'a': 0})
    if rng.random() < .2:       # another atom that is read at the same time
        g.start(1, levels=rng.choice([1, 2]), trans=1)
    n = rng.choice([2, 2, 2, 3, 4])
    kinds = rng.sample(READS, rng.randint(1, 5))
    same = rng.random() < .5
    threads = []
    warm = rng.random() < .35
    if warm:        # everything exists already: short queries, so that preemptions hit narrow places
        kinds = [rng.choice(['lookup', 'lookup', 'lookup', 'linked', 'lifetime', 'branching', 'tinfo', 'info', 'len', 'sorted'])]
        if rng.random() < .3:
            kinds.append(rng.choice(READS[:-1]))
    pool = [read_spec(g, rng, kinds) for _ in range(rng.randint(1, 3) + warm)]
    if warm and rng.random() < .6:      # one way of asking, which is then preempted more often at the same place
        for r in pool:
            if 'form' in r:
                r['form'] = 'name' if len(r['t']) == 3 else 'pair'
    for _ in range(n):
        if warm:
            threads.append([dict(rng.choice(pool)) for _ in range(rng.randint(2, 4))])
        elif same:
            threads.append([dict(rng.choice(pool)) for _ in range(rng.randint(1, 2))])
        else:
            threads.append([read_spec(g, rng, kinds if rng.random() < .6 else READS) for _ in range(rng.randint(1, 3))])
    switches = []
    for _ in range(rng.choice([2, 3, 4, 6, 8] if warm else [1, 1, 2, 2, 3, 4, 6])):
        t = rng.randrange(n)
        s = {'t': t, 'to': rng.choice([x for x in range(n) if x != t])}
        if rng.random() < .3:
            s['k'] = round(rng.random() ** rng.choice([1, 2]), 5)
        else:
            s['site'] = round(rng.random(), 4)
            s['occ'] = rng.choice([0.0, 0.0, .5, .999, round(rng.random(), 3)])
        switches.append(s)
    return {'ops': g.ops, 'reads': [{'calls': t} for t in threads], 'switches': switches, 'first': rng.randrange(n),
            'cold': rng.random() < .15, 'warm': warm}


def read_spec(g, rng, kinds):
    what = rng.choice(kinds)
    r = {'what': what}
    a = 0
    if 1 in g.w.model and rng.random() < .4:
        a = r['a'] = 1
    if what in ('lookup',):
        r['kind'] = rng.choice('LTT')
    if what in ('save', 'export'):
        r['file'] = rng.choice([0, 0, 1])
    if what in ('linked', 'lifetime', 'branching'):
        r['t'] = [g.pick_level(a), None, None]
    elif what in ('items', 'info', 'linked_sub', 'len') or r.get('kind') == 'L':
        r['t'] = g.target(a, rng.choice([0, 1, 1]) if what in ('items', 'len') else None)
        r['form'] = rng.choice(['name', 'name', 'step', 'rank'])
    elif what in ('titems', 'tinfo') or r.get('kind') == 'T':
        r['t'] = g.ttarget(a, rng.choice([0, 0, 1]) if what == 'titems' else None, internal=True)
        r['form'] = rng.choice(['pair', 'pair', 'rank', 'step'])
        r['flip'] = rng.random() < .5
        if r['t'] is None:
            return {'what': 'sorted', 'a': a}
    return r


def answer(w, r):
    """(plain answer, the objects in it)"""
    a, what = r.get('a', 0), r['what']
    atom = w.real[a]
    if what == 'sorted':
        o = atom.levels[:]
        return [x.name for x in o], o
    if what == 'names':
        return [atom.levels.list_names(), [list(x) for x in atom.transitions.list_names()]], []
    if what == 'save':
        atom.save(os.path.join(w.scratch, f'save{a}{r["file"]}'))
        return 'saved', []
    if what == 'export':
        from atomtoolkit import IO
        p = os.path.join(w.scratch, f'exp{a}{r["file"]}.csv')
        IO.generate_hf_csv(atom, p)
        with open(p) as f:
            return f.read(), []
    if what == 'deep':
        ans, objs = [], []
        for t in atom.transitions.values():
            for s in t.values():
                ans.append([list(s.keys()), s.name, s.freq_Hz])
                objs.append(s)
        return ans, objs
    name = w.tname(r['t']) if what in ('linked', 'linked_sub', 'lifetime', 'branching') else None
    if what in ('linked', 'linked_sub'):
        d = atom.linked_levels(name)
        return [[k, ident(t)] for k, t in sorted(d.items())], [t for _, t in sorted(d.items())]
    if what == 'lifetime':
        return query(lambda: atom.state_lifetime(name)), []
    if what == 'branching':
        return query(lambda: atom.compute_branching_ratios(name)), []
    try:
        if what in ('items', 'info', 'len') or r.get('kind') == 'L':
            o = w.level_by(a, r['t'], r['form'])
        else:
            o = w.trans_by(a, r['t'], r['form'], r['flip'])
    except KeyError:
        return ['exc', 'KeyError'], []
    if what == 'items':
        it = list(o.items())
        return [[k, v.name] for k, v in it], [o] + [v for _, v in it]
    if what == 'titems':
        it = list(o.items())
        return [[list(k), v.name] for k, v in it], [o] + [v for _, v in it]
    if what == 'len':
        return [len(o), len(list(o)), len(o.sublevels())], [o]
    if what == 'info':
        return [o.name, o.level_Hz, o.shift_Hz], [o]
    if what == 'tinfo':
        return [o.name, o.freq_Hz, float(o.rel_strength)], [o, o.E_upper, o.E_lower]
    return ident(o), [o]


def program(w, calls):
    return lambda: [answer(w, r) for r in calls]


def execute(case, ctx):
    w = World(ctx.scratch)
    w.identity = False
    for op in case['ops']:
        w.step(op)
    if not w.real:
        return None
    if case['cold']:
        from atomtoolkit import wigner
        for f in vars(wigner).values():
            if hasattr(f, 'cache_clear'):
                f.cache_clear()
        ctx.probe('cold angular-momentum caches')
    threads = []
    for t in case['reads']:
        threads.append([r for r in t['calls'] if r.get('a', 0) in w.real and
                        ('t' not in r or w.ok({'op': 'x', 'a': r.get('a', 0), 'kind': 'L' if len(r['t']) == 3 else 'T', 't': r['t']}))])
    if len(threads) < 2:
        return None
    if case['warm']:
        for r in sum(threads, []):
            answer(w, r)
        ctx.probe('everything had been looked up before')

    def alone():
        s = sched.Scheduler([program(w, t) for t in threads], record=True).run()
        res = []
        for r in s.result:
            if r[0] == 'exc':
                raise Violation('unexpected-exception', f'a lone reader fails: {r[1]}: {r[2]} {r[3]}')
            res.append([plain(a) for a, _ in r[1]])
        return [[s._name(x) for x in t] for t in s.sites], res, {a: observe(w.real[a], 2, 1) for a in w.real}
    sites, expected, obs = forked(alone)
    for f in os.listdir(w.scratch):
        if f.startswith(('save', 'exp')):
            os.unlink(os.path.join(w.scratch, f))
    switches = {}
    for s in case['switches']:
        if s['t'] < len(threads) and s['to'] < len(threads):
            k = points.choose(sites[s['t']], s)
            if k is not None:
                switches[(s['t'], k)] = s['to']
    s = sched.Scheduler([program(w, t) for t in threads], switches).run(case['first'] % len(threads))
    inner = [x for x in s.trace if x[2] not in ('done', 'blocked')]
    ctx.fault('preemption', len(inner))
    ctx.probe('thread had to wait for a lock', sum(x[2] == 'blocked' for x in s.trace))
    ctx.log(s.trace)
    ctx.state([(a, c, d) for a, b, c, d in s.trace])
    if s.deadlock is not None:
        raise Violation('deadlock', f'threads {s.deadlock} wait for each other; switches {s.trace}')
    for i, r in enumerate(s.result):
        if r[0] == 'exc':
            raise Violation('thread-error', f'thread {i} fails: {r[1]}: {r[2]}; switches {s.trace}; {r[3]}')
    for a, f in sorted({(r.get('a', 0), r['file']) for t in threads for r in t if r['what'] == 'save'}):
        from atomtoolkit.atom import Atom
        saved = Atom.load(os.path.join(w.scratch, f'save{a}{f}.atom'))
        d = diff(obs[a], observe(saved, 2, 1)) or coherent(saved)
        if d:
            raise Violation('saved-meanwhile', f'the atom saved while others read it differs: {d}; switches {s.trace}')
        ctx.probe('saved while others read')
    for i, r in enumerate(s.result):
        for call, (a, o), x in zip(threads[i], r[1], expected[i]):
            d = diff(x, plain(a))
            if d:
                raise Violation('thread-answer', f'thread {i} asks {call["what"]} {call.get("t")}: {d}; switches {s.trace}')
            later, objs = answer(w, call)
            d = diff(plain(later), plain(a))
            if d:
                raise Violation('later-answer', f'a later reader gets another answer to {call["what"]} {call.get("t")}: {d}; switches {s.trace}')
            if len(o) != len(objs) or any(p is not q for p, q in zip(o, objs)):
                raise Violation('identity', f'thread {i} got other objects from {call["what"]} {call.get("t")} than a later reader; '
                                            f'switches {s.trace}')
    d = diff(obs, {a: observe(w.real[a], 2, 1) for a in w.real})
    if d:
        raise Violation('after-threads', f'the atom differs from one that was read by one thread: {d}; switches {s.trace}')
    ctx.nontrivial = bool(inner)
    return None
