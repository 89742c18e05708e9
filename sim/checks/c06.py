"""C06: looking at an atom never changes it."""
from .common import *
from ..gen import Gen
from ..observe import observe, diff

ID = 'C06'
QUICK, THOROUGH = 1500, 40000
RULE = ('a seeded edit history executed on twin atoms, one of them with random reads between the edits and edits through '
        'handles obtained earlier; non-trivial: at least two reads are followed by an edit')
STATES = 'distinct placements: (kind of read, kind of the next edit, had sublevels/components been looked up)'
REAL = [REAL_LIB, 'matplotlib (Agg) for the drawing reads']
STUB = []
ASSUMPTIONS = ['nuclear spin is not changed after construction',
               'the twins run in one process, so that caches of pure functions are shared']

SHRINK = ('ops', 'asks')
EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_gF', 'set_B', 'set_A', 'set_subA',
         'set_freq', 'alias_op', 'delete', 'readd', 'putback', 'enforce']
WHATS = ['lookup', 'lookup', 'names', 'iter', 'repr', 'sorted', 'linked', 'linked_sub', 'lifetime', 'branching',
         'levelinfo', 'levelinfo', 'transinfo', 'transinfo', 'export', 'save', 'pickle', 'draw']


def setup():
    import matplotlib.pyplot        # noqa
    import atomtoolkit.render.grotrian  # noqa


def generate(rng, tier):
    g = Gen(rng, tinyA=rng.choice([0, .2]), upset=rng.choice([0, 0, .4]), max_levels=rng.choice([2, 3, 4]), loops=rng.choice(['none', 'any']))
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([0, 1, 2]))
    w = g.swarm(EDITS)
    g.history(rng.randint(8, 26), w, reads=rng.choice([.4, .6, .7]),
              whats=rng.sample(WHATS, rng.randint(3, len(WHATS))))
    n = len(g.ops)
    if rng.random() < .6:       # the same questions to both twins, before anything else is looked up
        for _ in range(rng.choice([1, 1, 2])):
            g.read(0, ['linked_sub', 'linked_sub', 'linked', 'lifetime', 'branching', 'levelinfo', 'transinfo', 'names', 'sorted'])
    asks, g.ops[n:] = g.ops[n:], []
    return {'ops': g.ops, 'tdepth': rng.choice([1, 1, 1, 2]), 'asks': asks}


def identities(w, a):
    """everything that was looked up before is still found as the same object"""
    for cid in [c for c in w.held if c[0] == a]:
        o = w.held[cid]
        if cid[1] == 'L':
            p = w.level_by(a, list(cid[2:]))
        else:
            p = w.trans_by(a, [list(x) if isinstance(x, tuple) else x for x in cid[2:]])
        if p is not o:
            raise Violation('identity', f'{cid[1]} {cid[2:]} is found as another object than before')


def execute(case, ctx):
    A, B = World(ctx.scratch), World(ctx.scratch)
    touched, prev, n = False, None, 0
    for i, op in enumerate(case['ops']):
        rec = A.step(op)
        ctx.log(rec)
        if rec.get('skipped'):
            continue
        if op['op'] == 'read':
            prev = op['what']
            touched |= op['what'] in ('linked_sub', 'transinfo', 'levelinfo', 'draw', 'lookup')
        else:
            rb = B.step(op)
            if rec.get('warn') != rb.get('warn'):
                raise Violation('warnings', f'step {i} ({op["op"]}) warns {rec.get("warn")} after reads, {rb.get("warn")} without')
            if prev:
                n += 1
                ctx.state(prev, op['op'], touched, len(A.model[op['a']].trans) if op.get('a') in A.model else 0)
                prev = None
    if not A.real:
        return None
    identities(A, 0)
    for op in case.get('asks', ()):
        ra, rb = A.step(op), B.step(op)
        ctx.log(ra)
        if repr(ra.get('r')) != repr(rb.get('r')) or bool(ra.get('skipped')) != bool(rb.get('skipped')):
            raise Violation('twins-answer', f'asked {op["what"]} in the end, the atom with reads in between answers {ra.get("r")}, its twin {rb.get("r")}')
    t = case['tdepth'] if A.model[0].I <= 1.5 else 1
    oa, ob = observe(A.real[0], 2, t), observe(B.real[0], 2, t)
    ctx.log(oa)
    d = diff(oa, ob)
    if d:
        raise Violation('twins-differ', f'with reads in between, the atom differs from its twin without: {d}')
    identities(A, 0)
    ctx.probe('edit through an old handle', sum(1 for o in case['ops'] if o.get('via') == 'held' and o['op'] != 'read'))
    ctx.nontrivial = n >= 2
    return None
