"""Everything a user can see of an atom, as plain data, and comparison of two such observations."""
import math

HZ = 'Hz:'      # dictionary keys with this prefix hold energies/frequencies in Hz (compared with an absolute tolerance)


def q(x):
    return None if x is None else float(x.to('Hz').magnitude)


def trans_obs(t, depth, full=True):
    d = {'name': t.name, 'ends': [t.E_1.name, t.E_2.name], 'upper': t.E_upper.name, 'lower': t.E_lower.name,
         HZ + 'freq': float(t.freq_Hz), 'A': q(t.A), 'strength': float(t.rel_strength), 'alias': t.alias,
         'types': [bool(x) for x in t.allowed_types]}
    if t.parent is None:
        d[HZ + 'set'] = q(t.set_freq)
    if depth > 0:
        d['sub'] = {'|'.join(k): trans_obs(s, depth - 1, full) for k, s in t.items()}
    return d


def level_obs(l, depth):
    d = {'name': l.name, HZ + 'E': float(l.level_Hz), HZ + 'shift': float(l.shift_Hz), 'alias': l.alias,
         'J': float(l.term.J), 'F': None if l.term.F is None else float(l.term.F),
         'm': None if l.term.mF is None else float(l.term.mF)}
    if l is l.manifold:
        d['terms'] = [[x.name, float(x.percentage), x.coupling] for x in l.term.terms]
        d.update({'lande': float(l.lande), HZ + 'hfA': float(l.hfA_Hz), HZ + 'hfB': float(l.hfB_Hz),
                  HZ + 'hfC': float(l.hfC_Hz)})
    else:
        d['gF'] = float(l.gF)
    if hasattr(l, 'quadratic_zeeman'):
        d['quad'] = float(l.quadratic_zeeman)
    elif depth > 0:
        d['sub'] = {k: level_obs(s, depth - 1) for k, s in l.items()}
    return d


def query(f):
    try:
        r = f()
    except (ValueError, TypeError, AttributeError, ArithmeticError) as e:
        return 'exc:' + type(e).__name__
    if isinstance(r, dict):
        return {str(k): float(v) for k, v in r.items()}
    return float(r.to('s').magnitude)


def observe(atom, depth=2, tdepth=1, queries=True):
    """depth: 0 levels, 1 + hyperfine, 2 + Zeeman; tdepth the same for transitions"""
    L, T = atom.levels, atom.transitions
    d = {'name': atom.name, 'I': float(atom.I), 'B': float(atom.B.to('gauss').magnitude), 'n': [len(L), len(T)],
         'order': [str(x) for x in L.keys()], 'torder': [list(x) for x in T.keys()]}
    d['levels'] = {str(n): level_obs(L[n], depth) for n in L.keys()}
    d['trans'] = {'|'.join(k): trans_obs(T[k], tdepth) for k in T.keys()}
    d['laliases'] = {str(k): [v.name, v.manifold.name] for k, v in L.aliases.items()}
    d['taliases'] = {str(k): sorted([v.E_1.name, v.E_2.name]) for k, v in T.aliases.items()}
    if queries:
        d['sorted'] = [l.name for l in L[:]]
        d['linked'] = {str(n): {str(m): t.name for m, t in atom.linked_levels(n).items()} for n in L.keys()}
        d['lifetime'] = {str(n): query(lambda: atom.state_lifetime(n)) for n in L.keys()}
        d['branching'] = {str(n): query(lambda: atom.compute_branching_ratios(n)) for n in L.keys()}
    return d


def coherent(atom):
    """the objects of one atom refer to each other, not to copies; returns the first contradiction"""
    L, T = atom.levels, atom.transitions
    for n in L.keys():
        l = L[n]
        if l.atom is not atom:
            return f'level {n} belongs to another atom'
        if l.manifold is not l:
            return f'level {n} is not its own manifold'
        for h in l.values():
            if h.parent is not l or h.atom is not atom or h.manifold is not l:
                return f'sublevel {h.name} is not a part of its level'
            if L[h.name] is not h:
                return f'{h.name} is another object than the sublevel of {n}'
    for a, l in L.aliases.items():
        if L[l.name] is not l:
            return f'alias {a} is another object than {l.name}'
    for k in T.keys():
        t = T[k]
        if t.atom is not atom:
            return f'transition {k} belongs to another atom'
        for e in (t.E_1, t.E_2, t.E_upper, t.E_lower):
            if L[e.name] is not e:
                return f'the end {e.name} of transition {k} is not the level of that name'
        for s in t.values():
            if s.parent is not t or L[s.E_1.name] is not s.E_1 or L[s.E_2.name] is not s.E_2:
                return f'subtransition {s.name} does not connect sublevels of {k}'
    for a, t in T.aliases.items():
        if T[(t.E_1.name, t.E_2.name)] is not t:
            return f'alias {a} is another object than the transition {t.name}'
    return None


def diff(x, y, path='', ordered=False, tol=64.0, rel=1e-9, hz=False):
    """first difference between two observations, or None"""
    if isinstance(x, dict) and isinstance(y, dict):
        if (list(x) != list(y)) if ordered else (set(x) != set(y)):
            only = [k for k in x if k not in y][:3], [k for k in y if k not in x][:3]
            return f'{path}: keys differ {only}' if any(only) else f'{path}: order differs {list(x)} {list(y)}'
        for k in x:
            r = diff(x[k], y[k], f'{path}/{k}', ordered, tol, rel, hz or str(k).startswith(HZ))
            if r:
                return r
        return None
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return f'{path}: {x!r:.200} != {y!r:.200}'
        for i, (a, b) in enumerate(zip(x, y)):
            r = diff(a, b, f'{path}[{i}]', ordered, tol, rel, hz)
            if r:
                return r
        return None
    if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, str) or isinstance(y, str):
        return None if x == y else f'{path}: {x!r} != {y!r}'
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if x == y or (math.isnan(x) and math.isnan(y)):
            return None
        if abs(x - y) <= max(tol if hz else 1e-12, rel * max(abs(x), abs(y)) * (1e-3 if hz else 1)):
            return None
        return f'{path}: {x!r} != {y!r}'
    return None if x == y else f'{path}: {x!r} != {y!r}'
