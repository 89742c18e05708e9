"""C07: an interrupted lookup can simply be repeated."""
from .common import *
from .. import points
from ..gen import Gen
from ..interrupt import forked, counted, elsewhere, interrupt, plain
from ..observe import observe, diff
from .c06 import identities

ID = 'C07'
QUICK, THOROUGH = 900, 30000
RULE = ('a seeded edit and read history in which some reads are cut short, 1-3 times in a row, at a point chosen uniformly over '
        'the code places (or the points) that the undisturbed read passes, then repeated; the answer and the whole atom are '
        'compared with an undisturbed fork; non-trivial: at least one interruption happened inside library code')
STATES = 'distinct interruption sites (function + bytecode offset) that fired'
REAL = [REAL_LIB, 'pickle, csv, matplotlib (Agg)']
STUB = ['the interruption itself: raised by a sys.monitoring callback at a place where CPython checks for signals']
ASSUMPTIONS = ['interruptions are delivered where CPython delivers them: at function entry, backward jumps, after C calls; '
               'one inside a third-party library comes out of the call to it',
               'after an interrupted drawing only the atom is compared, not the figure (C16 does that)']

EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_gF', 'set_B', 'set_A', 'set_subA',
         'set_freq', 'alias_op', 'delete', 'reload']
WHATS = ['lookup', 'lookup', 'lookup', 'names', 'iter', 'sorted', 'linked', 'linked_sub', 'linked_sub', 'lifetime',
         'branching', 'levelinfo', 'levelinfo', 'transinfo', 'transinfo', 'export', 'save', 'pickle', 'observe', 'repr', 'draw']


def setup():
    import matplotlib.pyplot        # noqa
    import atomtoolkit.render.grotrian  # noqa
    points.install()


def generate(rng, tier):
    g = Gen(rng, upset=rng.choice([0, 0, .4]), max_levels=rng.choice([2, 3]), loops='any', spins=[0.0, .5, .5, 1.0, 1.5])
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([1, 2]))
    w = g.swarm(EDITS)
    whats = rng.sample(WHATS, rng.randint(4, len(WHATS)))
    for _ in range(rng.randint(1, 4)):
        g.history(rng.randint(0, 3), w, reads=.3, whats=whats)
        n = len(g.ops)
        for _ in range(5):
            g.read(0, whats=whats)
            if len(g.ops) > n:
                break
        if len(g.ops) == n:
            continue
        g.ops[-1]['faults'] = [points.spec(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        g.ops[-1]['look'] = rng.choice(['retry', 'retry', 'observe', 'both'])
    return {'ops': g.ops}


def execute(case, ctx):
    A, B = World(ctx.scratch), World(ctx.scratch)
    fired = 0
    for i, op in enumerate(case['ops']):
        if not op.get('faults') or not A.ok(op):
            rec = A.step(op)
            ctx.log(rec)
            if not rec.get('skipped') and op['op'] != 'read':
                B.step(op)
            continue
        where = f'step {i} ({op["what"]})'
        A.identity = False

        def call():
            return A.real_step(op)

        def twin():
            sites, ans = counted(call)
            return sites, plain(ans), observe(A.real[0], 2, 1)

        def look():
            return elsewhere(lambda: observe(A.real[0], 2, 1))
        sites, ans, obs = forked(twin)
        hit = []
        for s in op['faults']:
            hit.append(interrupt(A, call, s, ctx, sites if s is op['faults'][0] else None))
        fired += sum(h is not None for h in hit)
        if op['look'] != 'retry':
            d = diff(obs, forked(look))
            if d:
                raise Violation('after-interruption', f'{where}, interrupted at {hit}: the atom is not what it would be otherwise: {d}')
        if op['look'] != 'observe':
            again = plain(call())
            ctx.log(again if op['what'] not in ('save', 'pickle') else None)
            d = diff(ans, again)
            if d:
                raise Violation('repeated-query', f'{where}, interrupted at {hit} and repeated: {d}')
            d = diff(obs, forked(look))
            if d:
                raise Violation('after-repetition', f'{where}, interrupted at {hit} and repeated: the atom is not what it would be otherwise: {d}')
        A.identity = True
    if not A.real:
        return None
    oa, ob = observe(A.real[0], 2, 1), observe(B.real[0], 2, 1)
    ctx.log(oa)
    d = diff(oa, ob)
    if d:
        raise Violation('twins-differ', f'after interruptions, the atom differs from its undisturbed twin: {d}')
    identities(A, 0)
    A.step({'op': 'reload', 'a': 0})
    d = diff(oa, observe(A.real[0], 2, 1))
    if d:
        raise Violation('saved-copy-differs', f'after interruptions, saving and loading changes the atom: {d}')
    ctx.nontrivial = fired > 0
    return None
