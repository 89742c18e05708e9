"""C05: energies stay consistent through every edit history."""
from .common import *
from ..gen import Gen

ID = 'C05'
QUICK, THOROUGH = 2400, 60000
RULE = ('seeded histories of 8-30 edits and reads over 1-3 interleaved atoms (swarm-weighted op kinds); non-trivial: at least '
        'two energy-relevant edits after some sublevel had been looked up')
STATES = 'distinct abstract states (spin, field, rounded level energies and coefficients, transition set) after a step'
REAL = [REAL_LIB]
STUB = []
ASSUMPTIONS = ['frequencies are not set after an edit turned a transition upside down',
               'nuclear spin is not changed after construction',
               'energies compare within 64 Hz (double rounding at 1e15 Hz), shifts within 1e-9 relative']

EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_gF', 'set_B', 'set_freq',
         'delete', 'reload', 'readd', 'putback', 'enforce']


def generate(rng, tier):
    g = Gen(rng, max_levels=rng.choice([2, 3, 4, 5]), loops='none', big=rng.choice([0, 0, 0, .5]))
    if rng.random() < .05:
        g.cfg.update(spins=[3.0, 3.5, 4.5], max_levels=2)
    n_atoms = rng.choice([1, 1, 2, 3])
    for a in range(n_atoms):
        g.start(a, levels=rng.choice([1, 2, 3]), trans=rng.choice([0, 1, 2]),
                ctor_levels=rng.choice([0, 0, 1, 2]) if rng.random() < .3 else 0)
    w = g.swarm(EDITS)
    w['set_level'] = max(1, w['set_level'])
    g.history(rng.randint(8, 30), w, reads=rng.choice([.1, .4, .6]), atoms=range(n_atoms),
              whats=['lookup', 'levelinfo', 'levelinfo', 'levelinfo', 'transinfo', 'linked', 'sorted', 'names'])
    if rng.random() < .3:       # levels pass each other
        g.cfg['upset'] = .7
        g.history(rng.randint(2, 8), {'set_level': 4, 'set_hf': 1, 'set_B': 1, 'reload': 1}, reads=.3, atoms=range(n_atoms),
                  whats=['lookup', 'levelinfo', 'transinfo', 'linked', 'sorted'])
    return {'ops': g.ops, 'watch': rng.random() < .6}


def execute(case, ctx):
    w = World(ctx.scratch)
    seen, edits = False, 0
    for i, op in enumerate(case['ops']):
        rec = w.step(op)
        ctx.log(rec)
        if rec.get('skipped'):
            continue
        where = f'after step {i} ({op["op"]})'
        if op['op'] == 'read':
            if op['what'] == 'levelinfo':
                compare_level(w, op['a'], op['t'], w.obj(op['a'], 'L', op['t'], op), where)
                seen |= op['t'][1] is not None
        else:
            for a in w.real if case.get('watch', True) else ():
                compare_energies(w, a, where)
            if seen and op['op'] in EDITS:
                edits += 1
            if 'a' in op:
                ctx.state(model_state(w.model[op['a']]))
        if op['op'] in ('set_level', 'set_hf', 'set_quad', 'set_lande') and 't' in op:
            compare_level(w, op['a'], op['t'], w.obj(op['a'], 'L', op['t'], dict(op, via='fresh')), where)
        if op['op'] == 'set_level' and op['t'][1] is not None:
            ctx.probe('sublevel edited')
        if op['op'] == 'reload':
            ctx.fault('restart (save, load, continue)')
        if op['op'] == 'set_freq' and op['t'][2] is not None:
            ctx.probe('component frequency set')
    for a in w.real:
        compare_energies(w, a, 'at the end')
        compare_all_sublevels(w, a, 'at the end')
        compare_subtransitions(w, a, 'at the end')
    ctx.nontrivial = edits >= 2
    return None
