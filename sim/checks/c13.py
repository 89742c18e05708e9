"""C13: lifetimes and branching ratios follow the current linewidths."""
import math

from .common import *
from ..gen import Gen

ID = 'C13'
QUICK, THOROUGH = 1600, 40000
RULE = ('seeded histories of adding, deleting and editing transitions and linewidths in all units, with queries in between, '
        'before and after components were first looked up; non-trivial: a linewidth was edited after its components or '
        'lifetimes had been queried')
STATES = 'distinct (number of downward transitions, which linewidths are known, kinds of edits so far) at a query'
REAL = [REAL_LIB]
STUB = []
ASSUMPTIONS = ['no edit turns a transition upside down', 'not all linewidths of a level are zero',
               'with an unknown linewidth the lifetime query is not judged']

EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_freq', 'set_A', 'delete', 'reload', 'alias_op', 'set_hf',
         'set_B', 'set_subA', 'putback', 'swap']


def generate(rng, tier):
    g = Gen(rng, max_levels=rng.choice([2, 3, 4, 5]), loops='none', internal=rng.random() < .3, A_none=rng.random() < .3,
            tinyA=rng.choice([0, .2, .5]))
    g.start(0, levels=rng.choice([2, 3, 4]), trans=rng.choice([1, 2, 3, 4]))
    w = g.swarm(EDITS)
    w['set_A'] = 5
    g.history(rng.randint(8, 26), w, reads=rng.choice([.3, .5]),
              whats=['lifetime', 'branching', 'transinfo', 'lookup', 'linked', 'linked_sub'])
    return {'ops': g.ops, 'zlimit': rng.choice([1, 2, 4]), 'watch': rng.random() < .5}


def close(x, y):
    return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y)) < math.inf


def check_level(w, k, where, ctx=None, form='name'):
    M, atom = w.model[0], w.real[0]
    key = w.akey({'k': k, 'form': form}, M)
    down = {(t.v if t.u == k else t.u): t for t in M.linked(k).values() if t.upper == k}
    As = {lname(j): t.A for j, t in down.items()}
    if any(x is None for x in As.values()):
        try:
            r = atom.compute_branching_ratios(key)
        except ValueError:
            if ctx:
                ctx.probe('unknown linewidth queried')
            return
        raise Violation('unknown-linewidth', f'{where}: branching ratios of {lname(k)} are {r} although a linewidth is unknown')
    tot = sum(As.values())
    tau = atom.state_lifetime(key).to('s').magnitude
    want = 2 * math.pi / tot if tot else math.inf
    if not (tau == want or close(tau, want)):
        raise Violation('lifetime', f'{where}: the lifetime of {lname(k)} is {tau!r} s, expected {want!r}')
    br = {str(n): float(x) for n, x in atom.compute_branching_ratios(key).items()}
    if set(br) != set(As) or any(not close(br[n], As[n] / tot) for n in As):
        raise Violation('branching', f'{where}: {lname(k)} branches {br}, expected { {n: x / tot for n, x in As.items()} }')


def ends(M, s):
    k = lambda l: next(k for k in M.levels if lname(k) == l.manifold.name)
    return frozenset((k(l), float(l.term.F), None if l.term.mF is None else float(l.term.mF)) for l in (s.E_1, s.E_2))


def check_components(w, where, zlimit, ctx=None):
    """every component's linewidth, and the sums over the components that leave a hyperfine level"""
    M, atom = w.model[0], w.real[0]
    leaving, unknown = {}, set()
    nz = 0
    for t in atom.transitions.values():
        e = [k for k in M.levels if lname(k) in (t.E_1.name, t.E_2.name)]
        A, sub = M.trans[frozenset(e)].A, M.trans[frozenset(e)].subA
        got = None if t.A is None else t.A.to('Hz').magnitude
        if (A is None) != (got is None) or (A is not None and not close(A, got)):
            raise Violation('linewidth', f'{where}: {t.name} has linewidth {got!r} Hz, expected {A!r}')
        for s in t.values():
            own = sub.get(ends(M, s))
            if A is None and own is None:
                if s.A is not None:
                    raise Violation('component-linewidth', f'{where}: {s.name} has linewidth {s.A} while its parent has none')
                unknown.update((s.E_1.name, s.E_2.name))
                continue
            x = s.A.to('Hz').magnitude
            if not close(x, A * float(s.rel_strength) if own is None else own):
                raise Violation('component-linewidth', f'{where}: {s.name} has {x!r} Hz, was given {own!r} Hz, its parent {A!r} Hz times {float(s.rel_strength)!r}')
            if s.E_1 is not s.E_2:
                leaving.setdefault(s.E_upper.name, []).append((s.E_lower.name, x))
            if nz < zlimit and s.E_1.term.F + s.E_2.term.F <= 4:
                nz += 1
                for z in s.values():
                    y = z.A.to('Hz').magnitude
                    own = sub.get(ends(M, z))
                    if not close(y, x * float(z.rel_strength) if own is None else own):
                        raise Violation('component-linewidth', f'{where}: {z.name} has {y!r} Hz, was given {own!r} Hz, its parent {x!r} Hz times {float(z.rel_strength)!r}')
    for k in M.levels:
        for F in M.F_of(k):
            n = w.tname([k, F, None])
            if n in unknown:
                continue
            tot = sum(x for _, x in leaving.get(n, ()))
            tau = atom.state_lifetime(n).to('s').magnitude
            want = 2 * math.pi / tot if tot else math.inf
            if not (tau == want or close(tau, want)):
                raise Violation('sublevel-lifetime', f'{where}: the lifetime of {n} is {tau!r} s, expected {want!r}')
            if tot:
                br = {str(a): float(b) for a, b in atom.compute_branching_ratios(n).items()}
                exp = {}
                for m, x in leaving[n]:
                    exp[m] = exp.get(m, 0) + x / tot
                if set(br) != set(exp) or any(not close(br[m], exp[m]) for m in br):
                    raise Violation('sublevel-branching', f'{where}: {n} branches {br}, expected {exp}')


def execute(case, ctx):
    w = World(ctx.scratch)
    queried, kinds = False, set()
    for i, op in enumerate(case['ops']):
        rec = w.step(op)
        ctx.log(rec)
        if rec.get('skipped') or op['op'] == 'atom':
            continue
        where = f'step {i} ({op["op"]})'
        M = w.model[0]
        if op['op'] == 'read':
            if op['what'] in ('lifetime', 'branching'):
                check_level(w, op['k'], where, ctx, op.get('form', 'name'))
                down = [t for t in M.linked(op['k']).values() if t.upper == op['k']]
                ctx.state(len(down), sorted(t.A is None for t in down), tuple(sorted(kinds)))
            if op['what'] == 'transinfo' and rec['r'][0] != 'exc' and op['t'][2] is None:
                A = M.trans[frozenset(op['t'][:2])].A
                if (A is None) != (rec['r'][2] is None) or (A is not None and not close(A, rec['r'][2])):
                    raise Violation('linewidth', f'{where}: {op["t"]} has linewidth {rec["r"][2]!r}, expected {A!r}')
            queried |= op['what'] in ('lifetime', 'branching', 'transinfo', 'linked_sub')
        else:
            kinds.add(op['op'])
            if op['op'] == 'set_A' and queried:
                ctx.nontrivial = True
            if op['op'] == 'reload':
                ctx.fault('restart (save, load, continue)')
            if op['op'] in ('set_A', 'delete', 'add_trans') and case.get('watch', True):
                for k in M.levels:
                    check_level(w, k, f'after {where}', ctx)
    if w.real:
        for k in w.model[0].levels:
            check_level(w, k, 'at the end', ctx)
        check_components(w, 'at the end', case['zlimit'], ctx)
    return None
