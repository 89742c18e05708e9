"""Executable reference model of an atom: the smallest thing that says what every public number must be.

Levels are identified by their index k in the pool, sublevels by (k, F) and (k, F, mF) with exact half-integer strings.
The model is driven by the same op list as the real library (sim/ops.py).  It raises nothing and keeps no caches.
"""
from .pool import *


class MLevel:
    def __init__(self, k, E, lande, hf, alias):
        self.k, self.E, self.lande = k, E, lande
        self.A, self.B, self.C = hf
        self.alias = alias
        self.quad = {}      # (F, m) -> Hz/G^2
        self.gF = {}        # (F, m) -> what the computed value is overridden with
        self.J = J_of(k)


class MTrans:
    def __init__(self, u, v, A, lower):
        self.u, self.v = u, v       # E_1, E_2
        self.A = A
        self.set_freq = None
        self.subA = {}      # linewidths that components were given: frozenset of ends -> Hz
        self.alias = None
        self.lower = lower
        self.upper = v if lower == u else u


class MAtom:
    def __init__(self, name, I, B):
        self.name, self.I, self.B = name, I, B
        self.levels = {}        # k -> MLevel, insertion order
        self.trans = {}         # frozenset -> MTrans
        self.laliases = {}      # alias -> canonical level id
        self.taliases = {}      # alias -> canonical transition id
        self.gone = {}          # level key or edge -> what was last removed under it

    # ---- energies
    def F_of(self, k):
        return F_values(J_of(k), self.I)

    def gF(self, lid):
        k, F, m = lid
        L = self.levels[k]
        return L.gF.get((F, m), g_F(L.lande, self.I, L.J, F))

    def shift(self, lid):
        k, F, m = lid
        L = self.levels[k]
        if m is not None:
            return self.gF(lid) * m * MU_B * self.B + L.quad.get((F, m), 0.0) * self.B ** 2
        if F is not None:
            return hf_shift(L.A, L.B, L.C, self.I, L.J, F)
        return L.E

    def energy(self, lid):
        k, F, m = lid
        e = self.levels[k].E
        if F is not None:
            e += self.shift((k, F, None))
        if m is not None:
            e += self.shift(lid)
        return e

    # ---- edits
    def add_level(self, k, E, lande, hf, alias=None):
        self.gone.pop(k, None)
        self.levels[k] = MLevel(k, E, lande, hf, alias)
        if alias is not None:
            self.laliases[alias] = (k, None, None)

    def set_energy(self, lid, E):
        self.levels[lid[0]].E += E - self.energy(lid)

    def add_trans(self, u, v, A=None, freq=None, alias=None):
        lower = u if (u == v or self.levels[v].E > self.levels[u].E) else v
        t = MTrans(u, v, A, lower)
        t.ends = self.levels[u], self.levels[v]
        self.gone.pop(frozenset((u, v)), None)
        self.trans[frozenset((u, v))] = t
        if alias is not None:
            t.alias = alias
            self.taliases[alias] = (u, v, None, None)
        t.set_freq = freq
        if freq is not None:
            return self.enforce()
        return []

    def freq(self, tid):
        u, v, a, b = tid      # a, b: (F, m) of the end in u / v, or None
        la = (u,) + (a or (None, None))
        lb = (v,) + (b or (None, None))
        return abs(self.energy(la) - self.energy(lb))

    def set_freq(self, tid, f):
        """returns the list of components in which the loops contradict / exist"""
        u, v, a, b = tid
        t = self.trans[frozenset((u, v))]
        if a is None or f is None:
            t.set_freq = f
        else:
            t.set_freq = self.freq((u, v, None, None)) + f - self.freq(tid)
        return self.enforce(frozenset((u, v)))

    def fixed_components(self):
        adj = {}
        for e, t in self.trans.items():
            if t.set_freq is not None and len(e) == 2:
                adj.setdefault(t.u, []).append(t)
                adj.setdefault(t.v, []).append(t)
        seen, comps = set(), []
        for n in adj:
            if n in seen:
                continue
            comp, stack, edges = [], [n], set()
            seen.add(n)
            while stack:
                x = stack.pop()
                comp.append(x)
                for t in adj[x]:
                    edges.add(t)
                    for y in (t.u, t.v):
                        if y not in seen:
                            seen.add(y)
                            stack.append(y)
            comps.append((comp, edges, adj))
        return comps

    def enforce(self, only=None):
        """places every component of fixed transitions; only: restrict to the component containing that edge.
        Returns [(component, has_loop, contradictory)]"""
        out = []
        for comp, edges, adj in self.fixed_components():
            if only is not None and not any(frozenset((t.u, t.v)) == only for t in edges):
                continue
            anchor = min(comp, key=lambda k: self.levels[k].E)
            placed, stack = {anchor}, [anchor]
            while stack:
                x = stack.pop()
                for t in adj[x]:
                    y = t.v if t.u == x else t.u
                    if y in placed:
                        continue
                    sign = 1 if t.upper == y else -1
                    self.levels[y].E = self.levels[x].E + sign * t.set_freq
                    placed.add(y)
                    stack.append(y)
            bad = [t for t in edges if abs(self.freq((t.u, t.v, None, None)) - t.set_freq) > 1000.0]
            out.append((tuple(sorted(comp)), len(edges) > len(comp) - 1, bool(bad)))
        return out

    def del_trans(self, u, v):
        e = frozenset((u, v))
        self.gone[e] = self.trans.pop(e)
        self.taliases = {a: t for a, t in self.taliases.items() if frozenset(t[:2]) != frozenset((u, v))}

    def del_level(self, k):
        for e in [e for e in self.trans if k in e]:
            t = self.trans[e]
            self.del_trans(t.u, t.v)
        self.gone[k] = self.levels.pop(k)
        self.laliases = {a: l for a, l in self.laliases.items() if l[0] != k}

    def can_return(self, key):
        """what was removed can be put back, without taking an alias over"""
        x = self.gone.get(key)
        if x is None or x.alias in (self.laliases if isinstance(x, MLevel) else self.taliases):
            return False
        if isinstance(x, MLevel):
            return key not in self.levels
        return key not in self.trans and all(self.levels.get(L.k) is L for L in x.ends)

    def put_back(self, key):
        x = self.gone.pop(key)
        if isinstance(x, MLevel):
            self.levels[key] = x
            if x.alias is not None:
                self.laliases[x.alias] = (key, None, None)
            return []
        self.trans[key] = x
        if x.alias is not None:
            self.taliases[x.alias] = (x.u, x.v, None, None)
        return self.enforce() if x.set_freq is not None else []

    # ---- queries
    def ranked(self):
        return sorted(self.levels, key=lambda k: self.levels[k].E)

    def distinct(self, *ks):
        """no other level is so close that rounding decides the order"""
        return not any(0 < abs(self.levels[k].E - L.E) < 1000 for k in ks for L in self.levels.values())

    def linked(self, k):
        out = {}
        for e, t in self.trans.items():
            if len(e) == 2 and k in e:
                out[t.v if t.u == k else t.u] = t
        return out
