"""C09: fixed transition frequencies are all honoured; contradictory loops are reported, consistent ones are not."""
from .common import *
from ..gen import Gen

ID = 'C09'
QUICK, THOROUGH = 2600, 80000
RULE = ('seeded histories of frequency settings (directly, through components, by adding transitions, in all units) among '
        'other edits, over trees and loops of transitions; non-trivial: two fixed transitions share a level')
STATES = 'distinct (shape of the fixed-transition graph, edited edge, order of energies) after a frequency setting'
REAL = [REAL_LIB]
STUB = []
ASSUMPTIONS = ['no edit turns a transition upside down', 'loops contradict by more than 1 kHz or by rounding only',
               'add_transition with a frequency enforces all groups, set_frequency only its own']

EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_B', 'set_freq', 'close_loop', 'delete',
         'reload', 'set_lande', 'enforce', 'putback']


def generate(rng, tier):
    loops = rng.choice(['none', 'none', 'any'])
    g = Gen(rng, max_levels=rng.choice([3, 4, 5, 6]), loops=loops, internal=False, alias=rng.random() < .3,
            free=rng.choice([0, .3, .8]) if loops == 'none' else 0)
    g.start(0, levels=rng.choice([2, 3, 4, 5]), trans=rng.choice([1, 2, 3, 4]))
    w = g.swarm(EDITS)
    w['set_freq'] = 5
    w['close_loop'] = 3 if loops == 'any' and rng.random() < .6 else 0
    w['ring'] = 2 if loops == 'any' and rng.random() < .5 else 0
    w['set_level'] = min(w['set_level'], 2)
    g.history(rng.randint(6, 24), w, reads=rng.choice([0, .1, .3]),
              whats=['lookup', 'levelinfo', 'transinfo', 'sorted', 'linked'])
    return {'ops': g.ops, 'watch': rng.random() < .7}


def execute(case, ctx):
    w = World(ctx.scratch)
    for i, op in enumerate(case['ops']):
        M = w.model.get(op.get('a'))
        before = {k: L.E for k, L in M.levels.items()} if M else {}
        known = set(before)
        rec = w.step(op)
        ctx.log(rec)
        if rec.get('skipped'):
            continue
        where = f'after step {i} ({op["op"]})'
        if op['op'] == 'read':
            continue
        M = w.model[op['a']]
        rep = rec.get('rep') or []
        fixed = {e: t for e, t in M.trans.items() if t.set_freq is not None}
        if rep:
            bad = [c for c, loop, contra in rep if contra]
            warned = rec.get('warn') or []
            if bad and not warned:
                raise Violation('no-warning', f'{where}: the loop through {[lname(k) for k in bad[0]]} contradicts itself without a warning')
            if warned and not bad:
                raise Violation('false-warning', f'{where}: warned {warned[:1]} although all fixed frequencies fit')
            for comp, loop, contra in rep:
                ctx.probe('contradictory loop' if contra else 'consistent loop' if loop else 'tree of fixed transitions')
                names = [lname(k) for k in comp]
                pre = [k for k in comp if k in known]
                if contra and len(pre) == len(comp):
                    anchor = min(pre, key=lambda k: before[k])
                    e = w.real[op['a']].levels[lname(anchor)].level_Hz
                    if not abs(e - before[anchor]) <= TOL:
                        raise Violation('anchor', f'{where}: the lowest level {lname(anchor)} moved by {e - before[anchor]} Hz')
                if not contra:
                    for e, t in fixed.items():
                        if t.u in comp and len(e) == 2:
                            r = w.real[op['a']].transitions[(lname(t.u), lname(t.v))]
                            if not abs(r.freq_Hz - t.set_freq) <= 2 * TOL:
                                raise Violation('not-honoured', f'{where}: {r.name} was last given {t.set_freq!r} Hz and has {r.freq_Hz!r}')
                ctx.state(len(comp), loop, contra, sorted(sorted((comp.index(t.u), comp.index(t.v))) for e, t in fixed.items()
                                                          if t.u in comp), op['op'], [M.ranked().index(k) for k in comp])
            if op['op'] == 'set_freq' and op['t'][2] is not None:
                ctx.probe('set through a component')
        elif rec.get('warn'):
            raise Violation('false-warning', f'{where}: warned {rec["warn"][:1]} without any frequency being set')
        if case.get('watch', True):
            compare_energies(w, op['a'], where)
        if op['op'] == 'set_freq' and op['f'] and op['t'][2] is not None and rep and not rep[0][2]:
            f = w.trans_by(op['a'], op['t']).freq_Hz
            if not abs(f - to_hz(*op['f'])) <= 4 * TOL:
                raise Violation('not-honoured', f'{where}: component {op["t"]} was given {to_hz(*op["f"])!r} Hz and has {f!r}')
        deg = {}
        for e in fixed:
            for k in e:
                deg[k] = deg.get(k, 0) + 1
        ctx.nontrivial |= any(d > 1 for d in deg.values())
    for a in w.real:
        compare_energies(w, a, 'at the end')
    return None
