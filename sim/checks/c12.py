"""C12: every way of naming a thing finds that thing, through any history of structure edits."""
from .common import *
from ..gen import Gen
from ..ops import ident

ID = 'C12'
QUICK, THOROUGH = 1200, 30000
RULE = ('seeded histories of adding, aliasing, deleting, re-adding, frequency setting, saving and loading, with lookups by '
        'every key form in between and a sweep over every key of everything at the end; non-trivial: something was deleted '
        'or re-ordered in energy before a lookup')
STATES = 'distinct (key form, kind of target, kinds of the structure edits so far)'
REAL = [REAL_LIB]
STUB = []
ASSUMPTIONS = ['energy ranks are only used for levels that are more than 1 kHz from any other', 'an alias is not also the name of something else']

EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_freq', 'alias_op', 'delete', 'reload', 'set_hf', 'readd', 'putback', 'churn']
LFORMS = ['name', 'step', 'rank', 'alias', 'alias_step', 'mJ', 'step_mJ', 'slice', 'negrank']
TFORMS = ['pair', 'rank', 'alias', 'step', 'mixalias', 'mJ']


def generate(rng, tier):
    g = Gen(rng, big=rng.choice([0, 0, 0, .5]), upset=rng.choice([0, 0, .4]), near=rng.choice([0, .2, .5]), max_levels=rng.choice([2, 3, 4]), loops='none')
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([0, 1, 2, 3]))
    w = g.swarm(EDITS)
    w['churn'] = rng.choice([0, 1, 3])
    w['delete'] = max(w['delete'], rng.choice([1, 3]))
    w['alias_op'] = max(1, w['alias_op'])
    w['add_level'] = w['add_trans'] = 3
    reads = rng.choice([.3, .5])
    for _ in range(rng.choice([1, 2, 3])):
        g.history(rng.randint(5, 14), w, reads=reads,
                  whats=['lookup', 'lookup', 'lookup', 'linked', 'linked_sub', 'lifetime', 'branching', 'names'])
        t = g.target(0, rng.choice([1, 2]))
        if t and rng.random() < .3:
            g.ops.append({'op': 'delsub', 'a': 0, 'kind': 'L', 't': t})
        t = g.ttarget(0, rng.choice([1, 1, 2]))
        if t and t[2] and rng.random() < .5:
            g.ops.append({'op': 'delsub', 'a': 0, 'kind': 'T', 't': t, 'flip': rng.random() < .5})
    return {'ops': g.ops, 'zlimit': rng.choice([1, 2, 4]), 'watch': rng.random() < .6}


def expected(w, op):
    t = op['t']
    if op['kind'] == 'L':
        k, F, m = t
        return ['EnergyLevel' if F is None else 'HFLevel' if m is None else 'ZLevel', w.tname(t), lname(k)]
    u, v, eu, ev = t
    cls = 'Transition' if eu is None else 'HFTransition' if eu[1] is None else 'ZTransition'
    return [cls] + sorted([w.tname([u, *(eu or (None, None))]), w.tname([v, *(ev or (None, None))])])


def must_fail(f, key, where):
    try:
        o = f()
    except KeyError:
        return
    raise Violation('ghost', f'{where}: {key!r} was deleted but still finds {ident(o)}')


def execute(case, ctx):
    w = World(ctx.scratch)
    gone_l, gone_t, gone_al = set(), set(), set()
    edits = []
    for i, op in enumerate(case['ops']):
        M = w.model.get(0)
        if op['op'] == 'delete' and w.ok(op):
            if op['kind'] == 'L':
                k = op['t'][0]
                al = {x for x, y in M.laliases.items() if y[0] == k} | {x for x, y in M.taliases.items() if k in y[:2]}
            else:
                al = {x for x, y in M.taliases.items() if frozenset(y[:2]) == frozenset(op['t'][:2])}
        where = f'step {i} ({op["op"]})'
        if op['op'] == 'delsub':
            if 0 in w.real and w.ok(op):
                delete_part(w, op, where)
                ctx.probe('deletion of a part')
            continue
        rec = w.step(op)
        ctx.log(rec)
        if rec.get('skipped') or op['op'] == 'atom':
            continue
        if op['op'] == 'read':
            if op['what'] == 'lookup':
                if rec['r'] != expected(w, op):
                    raise Violation('wrong-object', f'{where}: looking up {op["t"]} by {op.get("form")} finds {rec["r"]}')
                ctx.state(op.get('form'), len([x for x in op['t'] if x is not None]), tuple(sorted(set(edits))))
            if op['what'] == 'linked_sub':
                missing = linked_parts(w, op['t']) - {n for n, _ in rec['r']}
                if missing:
                    raise Violation('components', f'{where}: linked_levels({w.tname(op["t"])!r}) lacks {sorted(missing)[:3]}')
            continue
        M, atom = w.model[0], w.real[0]
        edits.append(op['op'])
        if op['op'] == 'delete':
            ctx.fault('deletion')
            ctx.nontrivial = True
            gone_al |= al
            (gone_l.add(op['t'][0]) if op['kind'] == 'L' else gone_t.add(frozenset(op['t'][:2])))
        if op['op'] == 'putback':
            ctx.probe('removed object put back')
        if op['op'] == 'reload':
            ctx.fault('restart (save, load, continue)')
        gone_l -= set(M.levels)
        gone_t = {e for e in gone_t if e not in M.trans and len(e) and all(k in M.levels for k in e)}
        gone_al -= set(M.laliases) | set(M.taliases)
        if case.get('watch', True):
            compare_energies(w, 0, f'after {where}')
        for k in gone_l:
            must_fail(lambda: atom.levels[lname(k)], lname(k), f'after {where}')
            F = M.F_of(k)[-1]
            must_fail(lambda: atom.levels[lname(k) + f' F={fs(F)}'], lname(k) + f' F={fs(F)}', f'after {where}')
            for j in list(M.levels)[:3]:
                must_fail(lambda: atom.transitions[(lname(k), lname(j))], (lname(k), lname(j)), f'after {where}')
                if lname(k) in atom.linked_levels(lname(j)):
                    raise Violation('ghost', f'after {where}: {lname(j)} is linked to the deleted {lname(k)}')
        for e in gone_t:
            ks = sorted(e) * (3 - len(e))
            must_fail(lambda: atom.transitions[(lname(ks[0]), lname(ks[1]))], ks, f'after {where}')
            must_fail(lambda: atom.transitions[(lname(ks[1]), lname(ks[0]))], ks, f'after {where}')
            if len(e) == 2 and lname(ks[1]) in atom.linked_levels(lname(ks[0])):
                raise Violation('ghost', f'after {where}: the deleted transition {ks} still links its levels')
        # a deleted object's alias that another object still carries (it was taken over from it) may lead back to that
        # one when it is registered again (and stays its alias when that one gets another), so it need not fail any more
        gone_al -= {l.alias for l in atom.levels.values()} | {t.alias for t in atom.transitions.values()}
        for al in gone_al:
            if al not in M.laliases:
                must_fail(lambda: atom.levels[al], al, f'after {where}')
            if al not in M.taliases:
                must_fail(lambda: atom.transitions[al], al, f'after {where}')
    if w.real:
        sweep(w, ctx, case['zlimit'])
    return None


def linked_parts(w, t):
    """the names of the sublevels with which a sublevel has transitions"""
    M, comp, (k, F, m) = w.model[0], _Comp(w), t
    out = set()
    for e, tr in M.trans.items():
        if k not in e:
            continue
        for u, v in {(tr.u, tr.v), (tr.v, tr.u)}:
            if u != k:
                continue
            if F is None:
                out.add(w.tname([v, None, None]))
                continue
            for Fu, Fv, h in comp.components(0, u, v):
                for a, b, flip in ((Fu, Fv, False), (Fv, Fu, True)) if u == v else ((Fu, Fv, False),):
                    if a != F:
                        continue
                    if m is None:
                        out.add(w.tname([v, b, None]))
                    else:
                        for mu, mv in comp.zcomponents(Fu, Fv, h):
                            x, y = (mv, mu) if flip else (mu, mv)
                            if x == m:
                                out.add(w.tname([v, b, y]))
    return out - {w.tname(t)}


def delete_part(w, op, where):
    """sublevels and subtransitions come and go with the level or transition they belong to"""
    atom, t = w.real[0], op['t']
    if op['kind'] == 'L':
        d, key = atom.levels, w.tname(t)
    else:
        d, key = atom.transitions, (w.tname([t[0], *t[2]]), w.tname([t[1], *t[3]]))
        key = key[::-1] if op['flip'] else key
    try:
        o = d[key]
    except KeyError:        # a component that the selection rules exclude
        return
    try:
        del d[key]
    except KeyError:
        pass
    try:
        if d[key] is not o:
            raise Violation('wrong-object', f'{where}: after an attempt to delete {key} alone, it finds another object')
    except KeyError:
        raise Violation('not-found', f'{where}: an attempt to delete {key} alone took it away from what it belongs to')


def sweep(w, ctx, zlimit):
    """every key of everything that exists"""
    M, atom = w.model[0], w.real[0]
    n = 0

    def look(kind, t, form, flip=False):
        op = {'op': 'read', 'a': 0, 'what': 'lookup', 'kind': kind, 't': t, 'form': form, 'flip': flip}
        try:
            r = w.r_read(op)
        except KeyError as e:
            raise Violation('not-found', f'at the end: {kind} {t} is not found by {form}{" flipped" if flip else ""}: KeyError {e}')
        if r != expected(w, op):
            raise Violation('wrong-object', f'at the end: {kind} {t} by {form}{" flipped" if flip else ""} finds {r}')
    for k in M.levels:
        ts = [[k, None, None]]
        for F in M.F_of(k):
            ts.append([k, F, None])
            ts += [[k, F, m] for m in m_values(F)]
        for t in ts:
            for form in LFORMS if t[1] is None or t[2] is None else ('name', 'step', 'rank', 'mJ', 'step_mJ'):
                look('L', t, form)
                n += 1
    if all(M.distinct(k) for k in M.levels):
        if [l.name for l in atom.levels[:]] != [lname(k) for k in M.ranked()]:
            raise Violation('wrong-order', f'by energy the levels are {[l.name for l in atom.levels[:]]}, expected {[lname(k) for k in M.ranked()]}')
    for al, t in M.laliases.items():
        look('L', list(t), 'alias')
        if ident(atom.levels[al]) != expected(w, {'kind': 'L', 't': t}):
            raise Violation('wrong-object', f'alias {al!r} finds {ident(atom.levels[al])}')
        if t[1] is None:
            for what in ('linked', 'lifetime', 'branching'):
                by_name = w.r_read({'op': 'read', 'a': 0, 'what': what, 'k': t[0], 'form': 'name'})
                by_alias = w.r_read({'op': 'read', 'a': 0, 'what': what, 'k': t[0], 'form': 'alias'})
                if repr(by_name) != repr(by_alias):
                    raise Violation('alias-query', f'{what} by alias {al!r} gives {by_alias}, by name {by_name}')
    for al, t in M.taliases.items():
        if ident(atom.transitions[al]) != expected(w, {'kind': 'T', 't': t}):
            raise Violation('wrong-object', f'transition alias {al!r} finds {ident(atom.transitions[al])}')
    from ..gen import Gen
    comp = _Comp(w)
    for e, t in M.trans.items():
        for form in TFORMS:
            for flip in (False, True):
                look('T', [t.u, t.v, None, None], form, flip)
                n += 1
        cs = comp.components(0, t.u, t.v)
        ends = {frozenset((s.E_1.name, s.E_2.name)) for s in atom.transitions[(lname(t.u), lname(t.v))].values()}
        want = {frozenset((w.tname([t.u, Fu, None]), w.tname([t.v, Fv, None]))) for Fu, Fv, _ in cs}
        if not want <= ends:
            raise Violation('components', f'{lname(t.u)} - {lname(t.v)} has components {sorted(map(sorted, ends))}, '
                                          f'expected {sorted(map(sorted, want))}')
        for j, (Fu, Fv, h) in enumerate(cs):
            for form in ('pair', 'step'):
                for flip in (False, True):
                    look('T', [t.u, t.v, [Fu, None], [Fv, None]], form, flip)
            if j < zlimit and Fu + Fv <= 4:
                for mu, mv in comp.zcomponents(Fu, Fv, h):
                    if t.u == t.v and Fu == Fv and mu > mv:
                        continue
                    for form in ('pair', 'step', 'mJ'):
                        look('T', [t.u, t.v, [Fu, mu], [Fv, mv]], form, False)
                    look('T', [t.u, t.v, [Fu, mu], [Fv, mv]], 'pair', True)
                    n += 4
    ctx.probe('keys swept', n)


class _Comp:
    def __init__(self, w):
        self.w = w
    from ..gen import Gen as _G
    components, zcomponents = _G.components, _G.zcomponents
