"""C10: an edit that fails or is interrupted does no lasting harm."""
from .common import *
from .. import points
from ..gen import Gen
from ..interrupt import forked, counted, elsewhere, interrupt
from ..observe import observe, diff
from .c06 import identities

ID = 'C10'
QUICK, THOROUGH = 900, 30000
RULE = ('a seeded history in which some edits are given an unusable argument, or are cut short 1-2 times at a seeded point and '
        'issued again; non-trivial: at least one edit was rejected or interrupted inside library code')
STATES = 'distinct interruption sites that fired and distinct (edit, unusable argument, exception) triples'
REAL = [REAL_LIB]
STUB = ['the interruption itself: raised by a sys.monitoring callback at a place where CPython checks for signals']
ASSUMPTIONS = ['an edit is issued again with the same arguments: a transition that brought new level objects is issued again '
               'with these objects; a deletion is not issued again by energy rank, which names another level by then']

EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_gF', 'set_B', 'set_A', 'set_subA',
         'set_freq', 'alias_op', 'delete', 'putback', 'enforce']
BAD = ['kg', 'float', 'str', 'none', 'list']
REJECT = ['freq', 'freq', 'subfreq', 'A', 'level', 'sublevel', 'hf', 'B', 'alias', 'add_level', 'add_trans_key', 'add_trans_freq',
          'add_trans_freq', 'add_trans_A', 'add_trans_end', 'add_trans_alias', 'add_level_alias', 'delete', 'delete_sub', 'setitem',
          'add_trans_new_freq', 'add_trans_other', 'key', 'atom_ctor']


def setup():
    points.install()


def generate(rng, tier):
    g = Gen(rng, upset=rng.choice([0, 0, .4]), max_levels=rng.choice([2, 3, 4]), loops='any', spins=[0.0, .5, .5, 1.0, 1.5])
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([0, 1, 2]))
    w = g.swarm(EDITS)
    for _ in range(rng.randint(2, 6)):
        g.history(rng.randint(0, 3), w, reads=.4, whats=['lookup', 'lookup', 'transinfo', 'linked_sub', 'levelinfo'])
        if rng.random() < .45:
            for _ in range(rng.choice([1, 2, 3, 5])):
                b = {'op': 'reject', 'a': 0, 'what': rng.choice(REJECT), 'bad': rng.choice(BAD + ['kg', 'kg']), 't': g.target(0), 'tt': g.ttarget(0),
                     'form': rng.choice(['new', 'existing']), 'flip': rng.random() < .5, 'pick': rng.randint(0, 9)}
                free = [k for k in g.family[0] if k not in g.w.model[0].levels]
                b['free'] = free[:2]
                b['specs'] = [g.level_spec(0, k) for k in free[:2]]
                for s in b['specs']:
                    s.pop('alias', None)
                g.ops.append(b)
            continue
        n = len(g.ops)
        for _ in range(6):
            getattr(g, rng.choice(EDITS))(0)
            if len(g.ops) > n:
                break
        if len(g.ops) == n:
            continue
        op = g.ops[-1]
        if op['op'] == 'delete' and op['kind'] == 'L' and op['form'] == 'rank':
            op['form'] = 'name'
        op['faults'] = [points.spec(rng) for _ in range(rng.choice([1, 1, 2]))]
        op['look'] = rng.random() < .4
    return {'ops': g.ops}


def bad_value(w, bad):
    return {'kg': lambda: w.Q([3.0, 'kg']), 'float': lambda: 5e14, 'str': lambda: 'fast', 'none': lambda: None,
            'list': lambda: [1, 2]}[bad]()


def reject(w, op):
    """issues the unusable edit; True when it was rejected, None when not applicable"""
    from atomtoolkit.atom import Transition, EnergyLevel, Atom
    atom, M, bad = w.real[op['a']], w.model[op['a']], bad_value(w, op['bad'])
    L = T = None
    if op['t'] and w.ok({'op': 'x', 'a': op['a'], 'kind': 'L', 't': op['t']}):
        L = w.level_by(op['a'], op['t'])
    if op['tt'] and w.ok({'op': 'x', 'a': op['a'], 'kind': 'T', 't': op['tt']}):
        try:
            T = w.trans_by(op['a'], op['tt'], 'pair', op['flip'])
        except KeyError:
            T = None
    what = op['what']
    specs = [s for s in op['specs'] if s['k'] not in M.levels]
    ks = list(M.levels)
    if op['form'] == 'existing':
        pairs = [(t.u, t.v) for e, t in M.trans.items() if len(e) == 2]
    else:
        pairs = [(u, v) for u in ks for v in ks if u != v and frozenset((u, v)) not in M.trans]
    pair = pairs[op['pick'] % len(pairs)] if pairs else None
    if pair and op['flip']:
        pair = pair[::-1]
    ends = pair and [atom.levels[lname(k)] for k in pair]
    if what in ('freq', 'subfreq'):
        if T is None or bad is None:
            return None
        def call():
            if op['form'] == 'new':
                T.freq = bad
            else:
                T.set_frequency(bad)
    elif what == 'A':
        if T is None or bad is None:
            return None
        def call():
            T.A = bad
    elif what in ('level', 'sublevel'):
        if L is None:
            return None
        def call():
            L.level = bad
    elif what == 'hf':
        if L is None:
            return None
        L = L.manifold
        def call():
            setattr(L, 'hf' + 'ABC'[op['pick'] % 3], bad)
    elif what == 'B':
        def call():
            atom.B = bad
    elif what == 'alias':
        if (L if op['form'] == 'new' else T) is None:
            return None
        def call():
            (L if op['form'] == 'new' else T).alias = ['un', 'hashable']
    elif what == 'add_level':
        def call():
            (atom.add_level if op['form'] == 'new' else atom.levels.append)(bad)
    elif what == 'add_level_alias':
        if not specs:
            return None
        def call():
            l = w.new_level(specs[0], parent=atom if op['flip'] else None)
            if op['form'] == 'new':
                atom.add_level(l, alias=['un', 'hashable'])
            else:
                atom.levels[['un', 'hashable']] = l
    elif what == 'add_trans_key':
        if not ks:
            return None
        def call():
            key = (lname(ks[op['pick'] % len(ks)]), 'no such level')
            atom.add_transition(key[::-1] if op['flip'] else key)
    elif what == 'add_trans_freq':
        if not ends or bad is None:
            return None
        def call():
            if op['pick'] % 2:
                atom.add_transition(tuple(map(str, (lname(k) for k in pair))), freq=bad)
            else:
                atom.add_transition(Transition(*ends, freq=bad))
    elif what == 'add_trans_A':
        if not ends or bad is None:
            return None
        def call():
            atom.add_transition(Transition(*ends, A=bad))
    elif what == 'add_trans_end':
        if not ends:
            return None
        def call():
            e = [ends[0], bad]
            atom.add_transition(Transition(*(e[::-1] if op['flip'] else e)))
    elif what == 'add_trans_alias':
        if not ends:
            return None
        def call():
            if op['form'] == 'existing' or op['pick'] % 2:
                Transition(*ends, alias=['un', 'hashable'])
            else:
                atom.transitions[['un', 'hashable']] = Transition(*[w.new_level(s) for s in specs]) if len(specs) == 2 else None
    elif what == 'add_trans_new_freq':
        if len(specs) < 2 or bad is None:
            return None
        def call():
            n = [w.new_level(s) for s in specs]
            if op['form'] == 'existing' and ks:
                n[0] = atom.levels[lname(ks[0])]
            atom.add_transition(Transition(*n, freq=bad))
    elif what == 'add_trans_other':
        def call():
            (atom.add_transition if op['form'] == 'new' else atom.transitions.append)(bad)
    elif what == 'delete':
        def call():
            if op['form'] == 'new':
                del atom.levels['no such level']
            else:
                del atom.transitions[('no such level', lname(ks[0]) if ks else 'neither')]
    elif what == 'delete_sub':
        if L is None or op['t'][1] is None:
            return None
        def call():
            del atom.levels[w.tname(op['t'])]
    elif what == 'setitem':
        def call():
            if op['form'] == 'new':
                atom.levels['g9'] = bad
            else:
                atom.transitions['g9'] = bad
    elif what == 'key':
        def call():
            if op['form'] == 'new':
                atom.levels[bad if op['bad'] in ('str', 'none') else 'no such level']
            else:
                atom.transitions[('no such level', 'neither')]
    elif what == 'atom_ctor':
        if not ks:
            return None
        def call():
            Atom('second', I=0.5, levels=[bad])
    try:
        call()
    except Exception as e:
        return type(e).__name__
    return None


def execute(case, ctx):
    A, B = World(ctx.scratch), World(ctx.scratch)
    A.kept = {}
    n = 0

    def look():
        return observe(A.real[0], 2, 1)
    for i, op in enumerate(case['ops']):
        if op['op'] == 'reject':
            if 0 not in A.real:
                continue

            def rejected():
                """in a fork: only edits that the library rejects are a subject of this property"""
                before_free = A.real[0].levels.list_names(), [list(k) for k in A.real[0].transitions.list_names()]
                r = reject(A, op)
                return r, observe(A.real[0], 2, 1) if r else None
            r, _ = forked(rejected)
            ctx.log('reject', op['what'], op['bad'], r)
            if not r:
                continue
            before = forked(look)
            r2 = reject(A, op)
            after = forked(look)
            n += 1
            ctx.fault('edit with an unusable argument')
            ctx.state(op['what'], op['bad'], op['form'], r)
            d = diff(before, after, ordered=True)
            if d:
                raise Violation('rejected-edit', f'step {i}: the edit {op["what"]} with {op["bad"]} was rejected ({r2}), but: {d}')
            continue
        if not op.get('faults') or not A.ok(op):
            rec = A.step(op)
            ctx.log(rec)
            if not rec.get('skipped') and op['op'] != 'read':
                B.step(op)
            continue
        where = f'step {i} ({op["op"]})'
        A.identity = False

        def call():
            return A.real_step(op)

        def twin():
            sites, _ = counted(call)
            return sites, observe(A.real[0], 2, 1)
        sites, obs = forked(twin)
        hit = []
        for s in op['faults']:
            if hit and op['op'] == 'delete':
                break
            hit.append(interrupt(A, call, s, ctx, None if hit else sites))
        n += sum(h is not None for h in hit)
        if op['look']:
            # every lookup works, whatever half of the edit happened
            o = forked(elsewhere, look)
            _consistent(o, f'{where}, interrupted at {hit}')
        try:
            call()
        except KeyError:
            if op['op'] != 'delete':
                raise
            ctx.probe('deletion had already happened')
        d = diff(obs, forked(elsewhere, look))
        if d:
            raise Violation('after-reissue', f'{where}, interrupted at {hit} and issued again: the atom is not what it would be otherwise: {d}')
        A.model_step(op)
        B.step(op)
        A.identity = True
        A.held = {c: o for c, o in A.held.items() if c[0] != 0}
    if not A.real:
        return None
    for k in list(A.model):
        compare_energies(A, k, 'at the end')
    oa, ob = look(), observe(B.real[0], 2, 1)
    ctx.log(oa)
    d = diff(oa, ob)
    if d:
        raise Violation('twins-differ', f'the atom differs from a twin that saw neither rejected nor interrupted edits: {d}')
    identities(A, 0)
    A.step({'op': 'reload', 'a': 0})
    d = diff(oa, observe(A.real[0], 2, 1))
    if d:
        raise Violation('saved-copy-differs', f'saving and loading changes the atom: {d}')
    ctx.nontrivial = n > 0
    return None


def _consistent(o, where):
    """the listings of a half-edited atom agree with each other"""
    names = set(o['levels'])
    for k, t in o['trans'].items():
        if not set(t['ends']) <= names:
            raise Violation('half-built', f'{where}: transition {k} has an end that is not a level')
    for k, v in o['linked'].items():
        for other in v:
            if other not in names:
                raise Violation('half-built', f'{where}: {k} is linked to {other}, which is not a level')
