from ..ops import World, Violation, TOL
from ..pool import *
from .. import racah

REAL_LIB = 'atomtoolkit (all modules the workload reaches), networkx, pint, numpy: real code'


def compare_energies(w, a, where):
    """every level and transition of atom a against the model"""
    atom, M = w.real[a], w.model[a]
    names = [str(n) for n in atom.levels.keys()]
    if sorted(names) != sorted(lname(k) for k in M.levels):
        raise Violation('levels', f'{where}: atom {a} lists {names}, expected {[lname(k) for k in M.levels]}')
    for k in M.levels:
        e = atom.levels[lname(k)].level_Hz
        if not abs(e - M.levels[k].E) <= TOL:
            raise Violation('level-energy', f'{where}: {lname(k)} of atom {a} is at {e!r} Hz, expected {M.levels[k].E!r}')
    ts = {frozenset((t.E_1.name, t.E_2.name)): t for t in atom.transitions.values()}
    if set(ts) != {frozenset((lname(t.u), lname(t.v))) for t in M.trans.values()} or len(atom.transitions) != len(M.trans):
        raise Violation('transitions', f'{where}: atom {a} has transitions {sorted(map(sorted, ts))}')
    for e, t in M.trans.items():
        r = ts[frozenset((lname(t.u), lname(t.v)))]
        f = M.freq((t.u, t.v, None, None))
        if not abs(r.freq_Hz - f) <= 2 * TOL:
            raise Violation('transition-freq', f'{where}: {r.name} has {r.freq_Hz!r} Hz, ends are {f!r} apart')
        if not abs(r.freq.to('Hz').magnitude - f) <= 2 * TOL:
            raise Violation('transition-freq', f'{where}: {r.name}.freq is {r.freq!r}, ends are {f!r} Hz apart')
        if f > 1e9 and not abs(r.wl.to('m').magnitude * f / C_LIGHT - 1) <= 2 * TOL / f + 1e-9:
            raise Violation('transition-freq', f'{where}: {r.name}.wl is {r.wl!r}, ends are {f!r} Hz apart')


def compare_level(w, a, t, o, where):
    """one level/sublevel object against the model"""
    M = w.model[a]
    t = tuple(t)
    e, s = M.energy(t), M.shift(t)
    if not abs(o.level_Hz - e) <= TOL:
        raise Violation('sublevel-energy' if t[1] is not None else 'level-energy',
                        f'{where}: {w.tname(t)} is at {o.level_Hz!r} Hz, expected {e!r}')
    if not abs(o.level.to('Hz').magnitude - e) <= TOL:
        raise Violation('sublevel-energy', f'{where}: {w.tname(t)}.level is {o.level!r}, expected {e!r} Hz')
    if t[1] is None:
        L = M.levels[t[0]]
        for n, x in (('hfA', L.A), ('hfB', L.B), ('hfC', L.C)):
            if not abs(getattr(o, n).to('Hz').magnitude - x) <= 1e-9 * max(1, abs(x)):
                raise Violation('coefficient', f'{where}: {o.name} has {n} {getattr(o, n)!r}, expected {x!r} Hz')
    if t[1] is not None:
        if not abs(o.shift_Hz - s) <= 1e-3 + 1e-9 * abs(s):
            raise Violation('sublevel-shift', f'{where}: {w.tname(t)} is shifted by {o.shift_Hz!r} Hz, expected {s!r}')
        if not abs(o.shift.to('Hz').magnitude - s) <= 1e-3 + 1e-9 * abs(s):
            raise Violation('sublevel-shift', f'{where}: {w.tname(t)}.shift is {o.shift!r}, expected {s!r}')
        g = M.gF(t)
        if not abs(o.gF - g) <= 1e-9:
            raise Violation('gF', f'{where}: {w.tname(t)} has gF {o.gF!r}, expected {g!r}')


def compare_all_sublevels(w, a, where, zeeman=True):
    atom, M = w.real[a], w.model[a]
    for k in M.levels:
        l = atom.levels[lname(k)]
        compare_level(w, a, (k, None, None), l, where)
        keys = [str(x) for x in l.keys()]
        exp = [f'F={fs(F)}' for F in M.F_of(k)]
        if sorted(keys) != sorted(exp):
            raise Violation('sublevels', f'{where}: {lname(k)} has sublevels {keys}, expected {exp}')
        for F in M.F_of(k):
            h = l[f'F={fs(F)}']
            compare_level(w, a, (k, F, None), h, where)
            if not zeeman:
                continue
            zk = [str(x) for x in h.keys()]
            zx = [f'mF={fs(m)}' for m in m_values(F)]
            if sorted(zk) != sorted(zx):
                raise Violation('sublevels', f'{where}: {h.name} has sublevels {zk}, expected {zx}')
            for m in m_values(F):
                compare_level(w, a, (k, F, m), h[f'mF={fs(m)}'], where)


def compare_subtransitions(w, a, where, limit=3):
    """frequencies of the components of the transitions"""
    atom, M = w.real[a], w.model[a]
    n = 0
    for t in atom.transitions.values():
        for s in t.values():
            exp = abs(s.E_1.level_Hz - s.E_2.level_Hz)
            if not abs(s.freq_Hz - exp) <= TOL or not abs(s.freq.to('Hz').magnitude - exp) <= TOL:
                raise Violation('component-freq', f'{where}: {s.name} has {s.freq_Hz!r} Hz, its ends are {exp!r} apart')
            if n < limit and s.E_1.term.F + s.E_2.term.F <= 4:
                n += 1
                for z in s.values():
                    exp = abs(z.E_1.level_Hz - z.E_2.level_Hz)
                    if not abs(z.freq_Hz - exp) <= TOL:
                        raise Violation('component-freq', f'{where}: {z.name} has {z.freq_Hz!r} Hz, its ends are {exp!r} apart')


def model_state(M):
    """fingerprint of an atom's abstract state"""
    return (M.I, round(M.B, 3), sorted((k, round(L.E / 1e9), round(L.A / 1e6), bool(L.quad)) for k, L in M.levels.items()),
            sorted((tuple(sorted(e)), t.set_freq is not None, t.A is not None) for e, t in M.trans.items()))
