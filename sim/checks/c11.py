"""C11: the same script gives the same atom in every process."""
import hashlib
import os
import shutil
import warnings

from .c01 import unwrap
from .common import *
from .. import server
from ..gen import Gen, GRID
from ..observe import observe, diff
from ..proc import Outcome

ID = 'C11'
PREWARM = False
QUICK, THOROUGH = 560, 24000
POOL_SEEDS = [1, 2, 3, 4, 5, 6, 7, 8]
RULE = ('a seeded script of edits and queries - with degenerate levels and loops of fixed frequencies in most of the runs - executed in '
        'three processes that differ in hash seed and memory layout, and once split over two of them; non-trivial: the script fixes '
        'at least two frequencies or has degenerate levels')
STATES = 'distinct abstract states (levels, transitions, fixed frequencies, degeneracies) at the end of a script'
REAL = [REAL_LIB, 'the interpreter with different PYTHONHASHSEED', 'matplotlib (Agg), pandas, tqdm']
STUB = ['clock of tqdm', 'memory layout: address randomisation off, and different allocations before the first import']
ASSUMPTIONS = ['dependencies of the library are themselves deterministic']

EDITS = ['add_level', 'add_level', 'add_trans', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_B', 'set_A', 'set_freq',
         'set_freq', 'set_freq', 'alias_op', 'delete', 'reload', 'close_loop']


def setup():
    server.start(POOL_SEEDS)


class DegenerateGen(Gen):
    """levels come in groups of equal energy"""
    group = 2

    def nominal(self, a, k):
        return self.slot[a][k] // self.group * GRID

    def level_spec(self, a, k):
        s = super().level_spec(a, k)
        if self.rng.random() < .7:
            s['E'] = [self.nominal(a, k), 'Hz']
        return s


def generate(rng, tier):
    grouped = rng.random() < .3
    g = DegenerateGen(rng, upset=rng.choice([0, 0, .4]), max_levels=8 if grouped else rng.choice([3, 4, 5, 6]), loops='any', spins=[0.0, .5, .5, 1.0], maxF=3.0, internal=not grouped)
    g.group = rng.choice([1, 2, 2, 3, 9])
    g.start(0, levels=rng.choice([2, 3, 4]), trans=rng.choice([1, 2, 3]))
    w = g.swarm(EDITS)
    w['set_freq'] = max(w['set_freq'], 2)
    if grouped:
        groups(g, rng)
    for _ in range(rng.randint(2, 4)):
        g.history(rng.randint(2, 6), w, reads=.3)
        r = rng.random()
        if r < .15:
            g.ops.append({'op': 'fill', 'a': 0, 'allowed': rng.choice([[True, False, False], [True, True, False], [True, True, True]]),
                          'internal': rng.random() < .3})
        elif r < .3:
            g.ops.append({'op': 'look', 'a': 0, 'depth': rng.choice([1, 2]), 'tdepth': rng.choice([0, 1])})
        elif r < .4:
            g.ops.append({'op': 'table', 'a': 0})
    for op in g.ops:
        # an object that is held is looked up again in the process that takes over; by its rank that may be another one,
        # because the model does not follow the order of equal energies
        if op.get('via') == 'held' and op.get('form') in ('rank', 'negrank', 'slice'):
            op['form'] = 'name' if op.get('kind') == 'L' else 'pair'
    return {'ops': g.ops, 'hashseeds': rng.sample(POOL_SEEDS, 3), 'split': round(rng.random(), 3)}


def groups(g, rng):
    """two or more groups of levels joined by fixed frequencies, one of them small and closed to a loop"""
    while g.add_level(0):
        pass
    ks = list(g.w.model[0].levels)
    rng.shuffle(ks)
    small, big = ks[:3], ks[3:]
    pairs = [(small[0], small[1]), (small[1], small[2]), (small[2], small[0])]
    pairs += [(rng.choice(big[:i]), big[i]) for i in range(1, len(big))]
    if rng.random() < .4:
        rng.shuffle(pairs)
    for p in pairs:
        if frozenset(p) in g.w.model[0].trans:
            g.ops.append({'op': 'set_freq', 'a': 0, 'kind': 'T', 't': [p[0], p[1], None, None], 'f': g.pair_freq(0, *p), 'attr': 'freq',
                          'via': 'fresh', 'form': 'pair', 'flip': False})
            g.w.model_step(g.ops[-1])
        else:
            g.add_trans(0, freq=True, pair=p)
    for _ in range(rng.randint(1, 4)):
        g.set_freq(0, sub=rng.choice([0, 0, 1]))


def script(ops, tag, resume=None, start=0):
    """runs ops; returns [per-op results], final observation, and what a continuing process needs"""
    scratch = os.path.join('/tmp', f'atsim-c11-{os.getpid()}')
    os.makedirs(scratch)
    try:
        return _script(ops, scratch, resume)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _script(ops, scratch, resume):
    import pickle
    os.chdir(scratch)
    w = World(scratch)
    w.identity = False
    if resume:
        w.model = pickle.loads(resume[0])
        with open('handover.atom', 'wb') as f:
            f.write(resume[1])
        from atomtoolkit.atom import Atom
        w.real[0] = Atom.load('handover.atom')
    out = []
    for op in ops:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            r = apply(w, op)
        warned = [str(x.message) for x in ws if not issubclass(x.category, (DeprecationWarning, FutureWarning))]
        out.append([op['op'], r, warned])
    if 0 not in w.real:
        return out, None, None
    w.real[0].save('handover')
    with open('handover.atom', 'rb') as f:
        data = f.read()
    return out, ordered(w.real[0], 2, 1), (pickle.dumps(w.model), data)


def ordered(atom, depth, tdepth):
    o = observe(atom, depth, tdepth)
    o['lists'] = [list(atom.levels.list_names()), [list(x) for x in atom.transitions.list_names()],
                  [l.name for l in atom.levels[:]], [str(t) for t in atom.transitions.values()]]
    return o


def apply(w, op):
    o = op['op']
    try:
        if o == 'fill':
            if 0 not in w.real:
                return None
            w.real[0].populate_transitions(allowed=tuple(op['allowed']))
            if op['internal']:
                w.real[0].populate_internal_transitions()
            t = [list(k) for k in w.real[0].transitions.keys()]
            names = {lname(k): k for k in w.model[0].levels}
            for u, v in t:      # the model follows, so that later operations know what exists
                e = frozenset((names[u], names[v]))
                if e not in w.model[0].trans:
                    w.model[0].add_trans(names[u], names[v], None, None, None)
            return t
        if o == 'look':
            return ordered(w.real[0], op['depth'], op['tdepth']) if 0 in w.real else None
        if o == 'table':
            from atomtoolkit.IO import generate_hf_csv
            generate_hf_csv(w.real[0], 'out.csv')
            with open('out.csv', newline='') as f:
                return f.read()
        if not w.ok(op):
            return 'skipped'
        r = w.real_step(op)
        w.model_step(op)
        return r
    except Exception as e:
        w.held.clear()
        return ['exc', type(e).__name__, str(e)]


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        if repr(x) != repr(y):
            return f'step {i} ({x[0]}): {_short(x, y)}'
    if repr(a[1]) != repr(b[1]):
        return f'the final observation: {_short(a[1], b[1])}'
    return None


def _short(x, y):
    if isinstance(x, dict) or (isinstance(x, list) and isinstance(x[1], dict)):
        d = diff(x[1] if isinstance(x, list) else x, y[1] if isinstance(y, list) else y, ordered=True, tol=0, rel=0)
        if d:
            return d
    x, y = repr(x), repr(y)
    k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return f'...{x[max(0, k - 60):k + 120]} / ...{y[max(0, k - 60):k + 120]}'


def execute(case, ctx):
    ops, hs = case['ops'], case['hashseeds']
    res = {}
    for h in hs:
        res[h] = unwrap(server.call(h, 'sim.checks.c11', 'script', (ops, h)))
        ctx.fault('process with another hash seed and memory layout')
    a = res[hs[0]]
    ctx.log(hashlib.sha256(repr(a[:2]).encode()).hexdigest())
    for h in hs[1:]:
        d = first_difference(a, res[h])
        if d:
            raise Violation('differs', f'processes with hash seeds {hs[0]} and {h} differ at {d}')
    # the first half in one process, the second half in another
    k = 1 + int(case['split'] * (len(ops) - 1))
    first = unwrap(server.call(hs[1], 'sim.checks.c11', 'script', (ops[:k], 's1')))
    if first[2] is not None:
        second = unwrap(server.call(hs[2], 'sim.checks.c11', 'script', (ops[k:], 's2', first[2])))
        ctx.fault('hand-over to another process')
        d = first_difference((a[0], a[1]), (first[0] + second[0], second[1]))
        if d:
            raise Violation('differs-after-handover', f'saving after step {k - 1} and continuing in a process with another hash seed differs at {d}')
    fixed = [t for t, v in (a[1] or {}).get('trans', {}).items() if v.get('Hz:set') is not None]
    E = [v['Hz:E'] for v in (a[1] or {}).get('levels', {}).values()]
    ctx.nontrivial = len(fixed) >= 2 or len(set(E)) < len(E)
    if a[1]:
        ctx.state(sorted(a[1]['levels']), sorted(a[1]['trans']), sorted(fixed), len(set(E)))
    for x in a[0]:
        if x[2]:
            ctx.probe('script that warns')
            break
    return None
