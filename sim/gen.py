"""Seeded generation of op lists.  The only module that draws random numbers; runs are executed from its output alone."""
import copy

from .pool import *
from .model import MAtom
from .ops import World, _same_t
from . import racah


class ModelWorld(World):
    """the model half of World, to know what is applicable while generating"""
    def __init__(self):
        super().__init__('/nonexistent')

    def _resync(self, a, report):
        return report

    def push(self, op):
        if not self.ok(op):
            return False
        self.model_step(op)
        return True


NAMES = ['171Yb+', 'Yb II', 'Ca', 'x.y', 'Tm-II']
ALIASES = ['g', 'ground', 'e1', 'e2', 'cool', 'clock', 'd', 'F', 'repump', 'my level', 'a,b', 'F=1', 'mF=0 clock',
           'up mJ=1/2', 'F=2 F=3 mF=0']


def upright(M):
    """the upper level of each transition is the higher one, by more than any splitting"""
    E = sorted(L.E for L in M.levels.values())
    return all(M.levels[t.upper].E - M.levels[t.lower].E > 5e11 for e, t in M.trans.items() if len(e) == 2) and \
        all(y - x > 1e6 for x, y in zip(E, E[1:]))


class Gen:
    def __init__(self, rng, **cfg):
        self.rng = rng
        self.w = ModelWorld()
        self.ops = []
        self.family = {}
        self.slot = {}
        self.cfg = dict(loops='none', spins=None, max_levels=5, sub_targets=True, freq_none=True, internal=True,
                        maxF=4.0, alias=True, A_none=True, units=True,
                        upset=0, free=0, near=0, tinyA=0, big=0)
        self.cfg.update(cfg)
        self.counter = 0

    def emit(self, op):
        if op is None:
            return None
        old = copy.deepcopy(self.w.model.get(op.get('a'))) if self.cfg['free'] and op['op'] != 'read' else None
        if not self.w.push(op):
            return None
        if old is not None and not upright(self.w.model[op['a']]):
            self.w.model[op['a']] = old
            return None
        self.ops.append(op)
        return op

    def anywhere(self):
        return 10 ** self.rng.uniform(12, 14.8)

    # ------------------------------------------------------------------ atoms and levels
    def atom(self, a=0, **kw):
        r = self.rng
        fam = kw.pop('family', None) or r.choice(['half', 'int'])
        self.family[a] = r.sample(FAMILY[fam], self.cfg['max_levels'] + 2)
        big = r.random() < self.cfg['big']
        if big:
            self.family[a][:2] = BIG[fam]
        self.slot[a] = {k: i for i, k in enumerate(self.family[a])}
        perm = list(range(len(self.family[a])))
        r.shuffle(perm)
        for k, p in zip(self.family[a], perm):
            self.slot[a][k] = p
        spins = self.cfg['spins'] or ([0.0, 0.5, 0.5, 1.0, 1.5, 1.5, 2.5] if fam == 'half' else [0.0, 0.5, 0.5, 1.0, 1.5, 1.5, 2.0])
        I = r.choice([0.0, .5, 1.5] if big else spins)
        op = {'op': 'atom', 'a': a, 'name': kw.get('name') or r.choice(NAMES), 'I': fs(I) if r.random() < .4 else I}
        if r.random() < .6:
            op['B'] = self.field()
        if kw.get('ctor_levels'):
            n, op['levels'] = kw['ctor_levels'], []
            for k in r.sample(self.family[a], n):
                s = self.level_spec(a, k)
                if any(s.get('alias') == x.get('alias') for x in op['levels']):
                    s.pop('alias', None)
                op['levels'].append(s)
            if n > 1 and kw.get('ctor_trans'):      # levels may come with the transitions
                op['trans'] = []
                ks = [s['k'] for s in op['levels']]
                for i in range(1, n):
                    if r.random() < .7:
                        t = {'u': ks[i], 'v': r.choice(ks[:i]), 'A': self.aval()}
                        if r.random() < .5:
                            t['u'], t['v'] = t['v'], t['u']
                        if self.cfg['alias'] and r.random() < .3:
                            t['alias'] = f't{i}'
                        op['trans'].append(t)
                        op['levels'][i]['brought'] = r.random() < .5
                if op['trans'] and r.random() < .5:
                    t = op['trans'][-1]
                    t['freq'] = self.hz(abs(self.nominal(a, t['u']) - self.nominal(a, t['v'])) + r.uniform(-1e12, 1e12))
        return self.emit(op)

    def field(self):
        r = self.rng
        u = r.choice(list(B_UNITS))
        b = r.choice([0.0, r.uniform(.1, 20), r.uniform(50, 400), r.uniform(50, 400) if r.random() < .8 else r.uniform(1e3, 2e4)]) * r.choice([1, 1, 1, -1])
        return [round(b / B_UNITS[u], 9) + 0.0, u]

    def nominal(self, a, k):
        return self.slot[a][k] * GRID

    def unit(self, exclude=()):
        if not self.cfg['units']:
            return 'Hz'
        return self.rng.choice([u for u in ('Hz', 'kHz', 'MHz', 'GHz', 'THz', '1/cm', 'nm') if u not in exclude])

    def hz(self, f, positive=True, unit=None):
        """[value, unit] for about f Hz"""
        u = unit or self.unit(() if f > 1e12 else ('nm', '1/cm', 'THz'))
        if u == 'Hz':
            return [float(round(f)), u]
        return [float(f'{from_hz(f, u):.15g}'), u]

    def hfval(self, scale=5e9):
        r = self.rng
        if r.random() < .15:
            return [0.0, 'GHz']
        u = r.choice(['Hz', 'kHz', 'MHz', 'GHz'])
        return [float(f'{r.uniform(-scale, scale) / FREQ_UNITS[u]:.9g}'), u]

    def level_spec(self, a, k):
        r = self.rng
        e = self.nominal(a, k)
        if self.slot[a][k] == 0 and r.random() < .6:
            e = 0.0
        else:
            e += r.uniform(-1e12, 1e12)
        if self.slot[a][k] == 0 and e < 0:
            e = -e
        E = [0.0, r.choice(['Hz', '1/cm', 'THz'])] if e == 0 else self.hz(e, unit=None if e > 1e12 else 'GHz')
        if E[1] == 'nm':
            E = self.hz(e, unit='1/cm')
        spec = {'k': k, 'E': E, 'lande': 0.0 if J_of(k) == 0 else round(r.uniform(-.5, 2.3), 6)}
        if r.random() < .7:
            spec['hf'] = [self.hfval(), self.hfval(1e9), self.hfval(1e8)]
        if r.random() < .2:     # a mixture of configurations
            spec['mix'] = [[r.randrange(len(HALF + INT)), p] for p in r.choice([[30.0], [21.0, 9.5], [20]])]
        if self.cfg['alias'] and r.random() < .3:
            al = self.free_alias(a, 'L')
            if al:
                spec['alias'] = al
        return spec

    def free_alias(self, a, kind):
        used = set()
        if a in self.w.model:
            M = self.w.model[a]
            used = set(M.laliases if kind == 'L' else M.taliases)
        self.counter += 1
        c = [x for x in ALIASES if x not in used]
        if self.rng.random() < .3 or not c:
            return f'al{self.counter}'
        return self.rng.choice(c)

    def add_level(self, a=0, k=None):
        M = self.w.model[a]
        free = [k for k in self.family[a] if k not in M.levels]
        if not free or len(M.levels) >= self.cfg['max_levels']:
            return None
        k = self.rng.choice(free) if k is None else k
        op = dict({'op': 'add_level', 'a': a}, **self.level_spec(a, k))
        op['how'] = self.rng.choice(['add', 'add', 'ctoralias', 'parent', 'prelook', 'append', 'setitem', 'populate'])
        return self.emit(op)

    # ------------------------------------------------------------------ targets
    def pick_level(self, a):
        M = self.w.model[a]
        return self.rng.choice(list(M.levels)) if M.levels else None

    def target(self, a, sub=None):
        """a level target [k, F, m]"""
        M = self.w.model[a]
        k = self.pick_level(a)
        if k is None:
            return None
        d = sub if sub is not None else self.rng.choice([0, 0, 1, 1, 2])
        if d == 0:
            return [k, None, None]
        F = self.rng.choice(M.F_of(k))
        if d == 1:
            return [k, F, None]
        return [k, F, self.rng.choice(m_values(F))]

    def components(self, a, u, v):
        """allowed hyperfine components as [(Fu, Fv, types)]"""
        M = self.w.model[a]
        ty = racah.types(J_of(u), J_of(v), parity(u), parity(v), u == v)
        out = []
        for Fu in M.F_of(u):
            for Fv in M.F_of(v):
                if u == v and Fu > Fv:
                    continue
                if abs(Fu - Fv) > racah.reach(ty):
                    continue
                h = racah.hf_types(ty, J_of(u), J_of(v), Fu, Fv, M.I)
                if any(h):
                    out.append((Fu, Fv, h))
        return out

    def zcomponents(self, Fu, Fv, h):
        return [(mu, mv) for mu in m_values(Fu) for mv in m_values(Fv)
                if abs(mu - mv) <= racah.reach(h) and any(racah.z_types(h, Fu, mu, Fv, mv))]

    def ttarget(self, a, sub=None, internal=False):
        M = self.w.model[a]
        es = [t for e, t in M.trans.items() if internal or len(e) == 2]
        if not es:
            return None
        t = self.rng.choice(es)
        u, v = t.u, t.v
        d = sub if sub is not None else self.rng.choice([0, 0, 1, 1, 2])
        if self.rng.random() < .5:
            u, v = v, u
        if d:
            c = self.components(a, u, v)
            if not c:
                return [u, v, None, None]
            Fu, Fv, h = self.rng.choice(c)
            if d == 1:
                return [u, v, [Fu, None], [Fv, None]]
            z = self.zcomponents(Fu, Fv, h)
            if u == v and Fu == Fv:
                z = [p for p in z if p[0] <= p[1]]
            if not z:
                return [u, v, [Fu, None], [Fv, None]]
            mu, mv = self.rng.choice(z)
            return [u, v, [Fu, mu], [Fv, mv]]
        return [u, v, None, None]

    def lform(self):
        return self.rng.choice(['name', 'name', 'step', 'rank', 'alias', 'alias_step', 'mJ', 'step_mJ', 'slice', 'negrank'])

    def tform(self):
        return self.rng.choice(['pair', 'pair', 'rank', 'alias', 'step', 'mixalias', 'mJ'])

    def via(self, op, kind='L'):
        op['via'] = self.rng.choice(['fresh', 'held'])
        op['form'] = self.lform() if kind == 'L' else self.tform()
        if kind == 'T':
            op['flip'] = self.rng.random() < .5
        return op

    # ------------------------------------------------------------------ transitions
    def would_loop(self, a, u, v):
        M = self.w.model[a]
        for comp, edges, adj in M.fixed_components():
            if u in comp and v in comp:
                return not any(frozenset((t.u, t.v)) == frozenset((u, v)) for t in edges)
        return False

    def pair_freq(self, a, u, v):
        d = abs(self.nominal(a, u) - self.nominal(a, v)) + self.rng.uniform(-1e12, 1e12)
        if self.rng.random() < self.cfg['free']:
            d = self.anywhere()
        return self.hz(d)

    def add_trans(self, a=0, internal=None, freq=None, pair=None):
        M, r = self.w.model[a], self.rng
        ks = list(M.levels)
        pairs = [(u, v) for u in ks for v in ks if u != v and frozenset((u, v)) not in M.trans]
        if internal or (internal is None and self.cfg['internal'] and r.random() < .12):
            pairs = [(u, u) for u in ks if frozenset((u,)) not in M.trans]
        if pair:
            pairs = [pair] if frozenset(pair) not in M.trans else []
        if not pairs:
            return None
        if r.random() < .85:
            al = [p for p in pairs if any(racah.types(J_of(p[0]), J_of(p[1]), parity(p[0]), parity(p[1]), p[0] == p[1]))]
            pairs = al or pairs
        u, v = r.choice(pairs)
        op = {'op': 'add_trans', 'a': a, 'u': u, 'v': v,
              'how': r.choice(['obj', 'names', 'levels', 'append', 'setitem', 'ctor', 'prelook'])}
        if u != v:
            if (freq or (freq is None and r.random() < .35)) and \
                    (self.cfg['loops'] != 'none' or not self.would_loop(a, u, v)):
                op['freq'] = self.pair_freq(a, u, v)
                if op['how'] == 'ctor':
                    op['how'] = 'obj'
            if r.random() < .7 or not self.cfg['A_none']:
                op['A'] = self.aval()
        if self.cfg['alias'] and r.random() < .3:
            op['alias'] = self.free_alias(a, 'T')
        if op['how'] == 'names' and r.random() < .4:
            op['byalias'] = True
        if 'freq' in op and op['how'] == 'setitem':
            op['how'] = 'append'
        return self.emit(op)

    def add_trans_new(self, a=0):
        """a transition that brings one or two new levels with it"""
        M, r = self.w.model[a], self.rng
        free = [k for k in self.family[a] if k not in M.levels]
        n = r.choice([1, 2]) if M.levels else 2
        if len(free) < n or len(M.levels) + n > self.cfg['max_levels'] + 1:
            return None
        new = r.sample(free, n)
        u, v = (new if n == 2 else [new[0], r.choice(list(M.levels))])
        if r.random() < .5:
            u, v = v, u
        specs = []
        for k in new:
            s = self.level_spec(a, k)
            if any(s.get('alias') == x.get('alias') for x in specs):
                s.pop('alias', None)
            specs.append(s)
        op = {'op': 'add_trans', 'a': a, 'u': u, 'v': v, 'how': 'newlevels', 'new': specs}
        if r.random() < .5:
            op['freq'] = self.pair_freq(a, u, v)
        if r.random() < .7:
            op['A'] = self.aval()
        if self.cfg['alias'] and r.random() < .3:
            op['alias'] = self.free_alias(a, 'T')
        return self.emit(op)

    def aval(self):
        u = self.rng.choice(['Hz', 'kHz', 'MHz', 'GHz'])
        x = self.rng.uniform(-9, 3) if self.rng.random() < self.cfg['tinyA'] else self.rng.uniform(3, 8.5)
        return [float(f'{10 ** x / FREQ_UNITS[u]:.6g}'), u]

    # ------------------------------------------------------------------ edits
    def set_level(self, a=0):
        t = self.target(a, None if self.cfg['sub_targets'] else 0)
        if t is None:
            return None
        M = self.w.model[a]
        k = t[0]
        c = self.nominal(a, k) + self.rng.uniform(-2e12, 2e12)
        if self.rng.random() < self.cfg['upset']:   # past other levels
            c = self.rng.randrange(len(self.family[a])) * GRID + self.rng.uniform(-20e12, 20e12)
        elif self.rng.random() < self.cfg['free']:
            c = self.anywhere()
        if self.rng.random() < self.cfg['near'] and len(M.levels) > 1:
            c = M.levels[self.rng.choice([x for x in M.levels if x != k])].E + self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(4, 11)
        elif self.slot[a][k] == 0:
            c = abs(c)
        e = c + M.energy(tuple(t)) - M.levels[k].E
        op = self.via({'op': 'set_level', 'a': a, 'kind': 'L', 't': t,
                       'E': self.hz(e, unit=self.unit(('nm',)) if e > 1e12 else self.rng.choice(['Hz', 'MHz', 'GHz'])),
                       'attr': self.rng.choice(['level', 'level', 'level_Hz'])})
        return self.emit(op)

    def set_hf(self, a=0):
        k = self.pick_level(a)
        if k is None:
            return None
        w = self.rng.choice('AABC')
        v = self.hfval({'A': 5e9, 'B': 1e9, 'C': 1e8}[w])
        if self.rng.random() < .2:      # the opposite of what it is, or what another one is
            v = self.said(a, lambda o: o['v'] if o['op'] == 'set_hf' and o['which'] == w else
                          o['hf']['ABC'.index(w)] if o['op'] == 'add_level' and o.get('hf') else None) or v
            v = [v[0] * self.rng.choice([1, -1]) + 0.0, v[1]]
        return self.emit(self.via({'op': 'set_hf', 'a': a, 'k': k, 'which': w, 'v': v}))

    def said(self, a, f):
        """a value that was given before"""
        vs = [v for v in (f(o) for o in self.ops if o.get('a') == a) if v]
        return self.rng.choice(vs[-4:]) if vs else None

    def set_lande(self, a=0):
        k = self.pick_level(a)
        if k is None or J_of(k) == 0:
            return None
        return self.emit(self.via({'op': 'set_lande', 'a': a, 'k': k, 'v': round(self.rng.uniform(-.5, 2.3), 6)}))

    def set_quad(self, a=0):
        t = self.target(a, 2)
        if t is None:
            return None
        return self.emit(self.via({'op': 'set_quad', 'a': a, 'kind': 'L', 't': t,
                                   'v': round(self.rng.uniform(-500, 500), 3)}))

    def set_gF(self, a=0):
        t = self.target(a, 2)
        if t is None:
            return None
        return self.emit(self.via({'op': 'set_gF', 'a': a, 'kind': 'L', 't': t, 'v': round(self.rng.uniform(-2, 2), 4)}))

    def set_subA(self, a=0):
        t = self.ttarget(a, self.rng.choice([1, 1, 2]), internal=True)
        if t is None or not t[2]:
            return None
        return self.emit(self.via({'op': 'set_subA', 'a': a, 'kind': 'T', 't': t, 'v': self.aval()}, 'T'))

    def enforce(self, a=0):
        return self.emit({'op': 'enforce', 'a': a}) if a in self.w.model else None

    def set_B(self, a=0):
        v = self.field()
        if self.rng.random() < .25:     # the field is reversed
            vs = [o.get('B') or o['v'] for o in self.ops if o.get('a') == a and (o.get('B') or o['op'] == 'set_B')]
            v = [-vs[-1][0] + 0.0, vs[-1][1]] if vs else v
        return self.emit({'op': 'set_B', 'a': a, 'v': v})

    def set_A(self, a=0):
        t = self.ttarget(a, 0)
        if t is None:
            return None
        v = None if self.cfg['A_none'] and self.rng.random() < .1 else self.aval()
        if self.rng.random() < .25:     # two transitions exchange their A
            now = {}
            for o in self.ops:
                if o.get('a') == a and o['op'] == 'add_trans' and frozenset((o['u'], o['v'])) in self.w.model[a].trans:
                    now[frozenset((o['u'], o['v']))] = o.get('A')
                elif o.get('a') == a and o['op'] == 'set_A' and frozenset(o['t'][:2]) in self.w.model[a].trans:
                    now[frozenset(o['t'][:2])] = o['v']
            es = [e for e in now if now[e] and len(e) == 2]
            pairs = [(x, y) for x in es for y in es if x != y and x & y]
            if pairs:
                x, y = self.rng.choice(sorted(pairs, key=lambda p: (sorted(p[0]), sorted(p[1]))))
                vx, vy = now[x], now[y]
                ask = {'op': 'read', 'a': a, 'what': 'branching', 'k': max(x & y), 'form': 'name'}
                self.emit(dict(ask))
                for e, val in ((x, vy), (y, vx)):
                    self.emit({'op': 'set_A', 'a': a, 'kind': 'T', 't': [*sorted(e), None, None], 'v': val, 'via': 'fresh'})
                return self.emit(ask)
        return self.emit(self.via({'op': 'set_A', 'a': a, 'kind': 'T', 't': t, 'v': v}, 'T'))

    def set_freq(self, a=0, sub=None):
        t = self.ttarget(a, sub)
        if t is None:
            return None
        M = self.w.model[a]
        u, v = t[:2]
        if self.cfg['loops'] == 'none' and self.would_loop(a, u, v):
            return None
        if t[2] is None and self.cfg['freq_none'] and self.rng.random() < .15:
            return self.emit(self.via({'op': 'set_freq', 'a': a, 'kind': 'T', 't': t, 'f': None}, 'T'))
        f = abs(self.nominal(a, u) - self.nominal(a, v)) + self.rng.uniform(-1e12, 1e12)
        if self.rng.random() < self.cfg['free']:
            f = self.anywhere()
        fixed = M.trans[frozenset((u, v))].set_freq
        if t[2] is None and fixed and self.rng.random() < .25:
            return self.same_freq(a, u, v)
        f += M.freq((u, v, t[2] and tuple(t[2]), t[3] and tuple(t[3]))) - M.freq((u, v, None, None))
        return self.emit(self.via({'op': 'set_freq', 'a': a, 'kind': 'T', 't': t, 'f': self.hz(f),
                                   'attr': self.rng.choice(['freq', 'set_frequency'])}, 'T'))

    def ring(self, a=0):
        """transitions between three or four levels, all of them fixed but one"""
        ks = list(self.w.model[a].levels)
        n = self.rng.choice([3, 3, 4])
        if len(ks) < n:
            return None
        ks = self.rng.sample(ks, n)
        for i in range(n):
            u, v = ks[i], ks[(i + 1) % n]
            self.add_trans(a, pair=(u, v), freq=False)
            t = self.w.model[a].trans.get(frozenset((u, v)))
            if i and t and t.set_freq is None and not self.would_loop(a, u, v):
                self.emit(self.via({'op': 'set_freq', 'a': a, 'kind': 'T', 't': [t.u, t.v, None, None],
                                    'f': self.pair_freq(a, u, v), 'attr': 'freq'}, 'T'))
        return self.close_loop(a)

    def same_freq(self, a, u, v):
        """once more the frequency it has been given"""
        return self.emit(self.via({'op': 'set_freq', 'a': a, 'kind': 'T', 't': [u, v, None, None],
                                   'f': [self.w.model[a].trans[frozenset((u, v))].set_freq, 'Hz'],
                                   'attr': self.rng.choice(['freq', 'set_frequency'])}, 'T'))

    def close_loop(self, a=0):
        """fixes a transition between two levels that fixed transitions connect already, at the present distance"""
        M = self.w.model[a]
        c = [t for e, t in M.trans.items() if len(e) == 2 and t.set_freq is None and self.would_loop(a, t.u, t.v)]
        if not c:
            return None
        t = self.rng.choice(c)
        op = {'op': 'set_freq', 'a': a, 'kind': 'T', 't': [t.u, t.v, None, None], 'f': [1.0, 'Hz'], 'close': True}
        if self.rng.random() < .4:      # slightly off
            op['off'] = self.rng.choice([-1, 1]) * round(10 ** self.rng.uniform(3.5, 10))
        if self.emit(self.via(op, 'T')) is None:
            return None
        if self.rng.random() < .5:      # the loop moves as a whole
            comp, edges, _ = next(c for c in M.fixed_components() if t in c[1])
            k = min(comp, key=lambda k: M.levels[k].E)
            e = sorted(edges, key=lambda x: (x.u, x.v))
            if self.slot[a][k] and self.rng.random() < .7:
                E = M.levels[k].E + self.rng.uniform(-2e12, 0)
                self.emit(self.via({'op': 'set_level', 'a': a, 'kind': 'L', 't': [k, None, None], 'E': self.hz(max(E, 1e11), unit='Hz'),
                                    'attr': 'level_Hz'}))
            x = self.rng.choice(e)
            self.same_freq(a, x.u, x.v)
        return True

    def alias_op(self, a=0):
        kind = self.rng.choice('LLT')
        t = self.target(a) if kind == 'L' else self.ttarget(a)
        if t is None:
            return None
        op = self.via({'op': 'alias', 'a': a, 'kind': kind, 't': t, 'alias': self.free_alias(a, kind)}, kind)
        M = self.w.model[a]
        used = list(M.laliases if kind == 'L' else M.taliases)
        if used and self.rng.random() < .15:        # an alias that names something else so far
            op.update(alias=self.rng.choice(used), steal=True)
        return self.emit(op)

    def delete(self, a=0, kind=None):
        kind = kind or self.rng.choice('LTT')
        t = self.target(a, 0) if kind == 'L' else self.ttarget(a, 0, internal=True)
        if t is None:
            return None
        return self.emit({'op': 'delete', 'a': a, 'kind': kind, 't': t, 'flip': self.rng.random() < .5,
                          'form': self.rng.choice(['name', 'name', 'alias', 'rank'])})

    def readd(self, a=0):
        t = self.ttarget(a, 0, internal=True)
        if t is None:
            return None
        return self.emit({'op': 'readd', 'a': a, 'kind': 'T', 't': t, 'flip': self.rng.random() < .5,
                          'form': self.rng.choice(['names', 'alias', 'levels'])})

    def putback(self, a=0):
        M = self.w.model[a]
        keys = sorted((k for k in M.gone if M.can_return(k)), key=lambda k: (not isinstance(k, frozenset), str(sorted(k) if isinstance(k, frozenset) else k)))
        if not keys:
            return None
        k = self.rng.choice(keys)
        x = M.gone[k]
        return self.emit({'op': 'putback', 'a': a, 'kind': 'T' if isinstance(k, frozenset) else 'L',
                          't': [x.u, x.v, None, None] if isinstance(k, frozenset) else [k, None, None],
                          'how': self.rng.choice(['add', 'append'])})

    def churn(self, a=0):
        """removes something whose parts were looked at, has it or its like again, and looks at the parts"""
        r = self.rng
        t = self.ttarget(a, r.choice([1, 2, 2]))
        if t is None or not t[2]:
            return None
        M = self.w.model[a]
        u, v = t[:2]
        A, B = [u, *t[2]], [v, *t[3]]
        looks = [dict({'op': 'read', 'a': a, 'what': 'linked_sub', 'kind': 'L', 't': x}, via='fresh', form='name') for x in (A, B)]
        look = r.choice(looks)
        self.emit(dict(look))
        what = r.choice('LLT') if u != v else 'T'
        gone = [u, None, None] if what == 'L' else [u, v, None, None]
        if self.emit({'op': 'delete', 'a': a, 'kind': what, 't': gone, 'flip': r.random() < .5, 'form': 'name'}) is None:
            return None
        M = self.w.model[a]
        key = u if what == 'L' else frozenset((u, v))
        if r.random() < .5 and M.can_return(key):
            self.emit({'op': 'putback', 'a': a, 'kind': what, 't': gone, 'how': 'add'})
        elif what == 'L':
            self.add_level(a, k=u)
        else:
            self.add_trans(a, pair=(u, v), internal=u == v, freq=False)
        if what == 'L' and r.random() < .5 and u in self.w.model[a].levels:
            self.add_trans(a, pair=(u, v), freq=False)
        if u in self.w.model[a].levels:
            for x in r.sample(looks, r.choice([1, 2])):
                self.emit(dict(x))
        return True

    def swap(self, a=0):
        """a pair of levels is connected anew after they changed places"""
        M, r = self.w.model[a], self.rng
        deg = {}
        for e in [*M.trans, *(k for k in M.gone if isinstance(k, frozenset))]:
            for k in e:
                deg[k] = deg.get(k, 0) + 1
        c = [t for e, t in M.trans.items() if len(e) == 2 and all(deg[k] == 1 for k in e)]
        if not c:
            return None
        t = r.choice(c)
        u, v, A = t.u, t.v, t.A
        asks = [{'op': 'read', 'a': a, 'what': what, 'k': k, 'form': 'name'} for what in ('lifetime', 'branching') for k in (u, v)]
        asks = r.sample(asks, r.choice([1, 2, 4]))
        for x in asks:
            self.emit(dict(x))
        self.emit({'op': 'delete', 'a': a, 'kind': 'T', 't': [u, v, None, None], 'flip': r.random() < .5, 'form': 'name'})
        self.slot[a][u], self.slot[a][v] = self.slot[a][v], self.slot[a][u]
        for k in r.sample([u, v], 2):
            E = abs(self.nominal(a, k) + r.uniform(-2e12, 2e12))
            self.emit(self.via({'op': 'set_level', 'a': a, 'kind': 'L', 't': [k, None, None], 'E': self.hz(E, unit='Hz'), 'attr': 'level'}))
        if self.add_trans(a, pair=(u, v), freq=False) and A and r.random() < .7:
            self.emit({'op': 'set_A', 'a': a, 'kind': 'T', 't': [u, v, None, None], 'v': [A, 'Hz'], 'via': 'fresh'})
        for x in asks:
            self.emit(dict(x))
        return True

    def reload(self, a=0):
        return self.emit({'op': 'reload', 'a': a})

    # ------------------------------------------------------------------ reads
    def read(self, a=0, whats=None):
        r = self.rng
        what = r.choice(whats or ['lookup', 'lookup', 'lookup', 'names', 'iter', 'repr', 'sorted', 'linked', 'linked_sub',
                                  'lifetime', 'branching', 'levelinfo', 'transinfo', 'export', 'save', 'pickle'])
        op = {'op': 'read', 'a': a, 'what': what}
        if what == 'lookup':
            op['kind'] = r.choice('LLT')
            op['t'] = self.target(a) if op['kind'] == 'L' else self.ttarget(a, internal=True)
            if op['t'] is None:
                return None
            self.via(op, op['kind'])
        elif what in ('levelinfo', 'linked_sub'):
            op['kind'] = 'L'
            op['t'] = self.target(a)
            if op['t'] is None:
                return None
            self.via(op)
        elif what == 'transinfo':
            op['kind'] = 'T'
            op['t'] = self.ttarget(a, internal=True)
            if op['t'] is None:
                return None
            self.via(op, 'T')
        elif what in ('linked', 'lifetime', 'branching'):
            op['k'] = self.pick_level(a)
            if op['k'] is None:
                return None
            op['form'] = r.choice(['name', 'name', 'alias'])
        elif what == 'draw':
            M = self.w.model[a]
            op['ks'] = [k for k in M.levels if r.random() < .7]
            op['strategy'] = r.choice(['gross', 'hf', 'zeeman'])
            op['quick'] = r.random() < .3
            if op['strategy'] == 'zeeman':
                op['ks'] = [k for k in op['ks'] if J_of(k) + M.I >= 1]
            if not op['ks'] or max(J_of(k) for k in op['ks']) + M.I > 3:
                return None
        elif what == 'observe':
            op.update(depth=r.choice([1, 2]), tdepth=r.choice([0, 1, 1]))
        elif what in ('repr',) and not self.w.model[a].levels:
            return None
        return self.emit(op)

    # ------------------------------------------------------------------ histories
    EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_B', 'set_A',
             'set_freq', 'alias_op', 'delete', 'reload']

    def swarm(self, kinds=None):
        """random weights, some kinds switched off"""
        kinds = kinds or self.EDITS
        return {k: self.rng.choice([0, 1, 1, 2, 4]) for k in kinds}

    def start(self, a=0, levels=3, trans=2, **kw):
        if levels > 1 and trans and not kw.get('ctor_levels') and self.rng.random() < .2:
            kw.update(ctor_levels=min(levels, self.cfg['max_levels']), ctor_trans=True)
            levels = trans = 0
        self.atom(a, **kw)
        for _ in range(levels):
            self.add_level(a)
        for _ in range(trans):
            self.add_trans(a)

    def history(self, n, weights, reads=.4, atoms=(0,), whats=None):
        kinds = [k for k, w in weights.items() for _ in range(w)]
        for _ in range(n):
            a = self.rng.choice(list(atoms))
            if not kinds or self.rng.random() < reads:
                self.read(a, whats)
            else:
                k = self.rng.choice(kinds)
                if k == 'delete' and self.rng.random() < .4:
                    continue
                getattr(self, k)(a)
