"""Executes op lists on the real library (through its public API) and, in step, on the reference model."""
import os
import pickle
import warnings

from .pool import *
from .model import MAtom

TOL = 64.0      # Hz: double-precision rounding of ~1e15 Hz energies, with room to spare


class Violation(Exception):
    def __init__(self, cls, msg, **detail):
        super().__init__(msg)
        self.cls, self.msg, self.detail = cls, msg, detail


def at():
    import atomtoolkit
    return atomtoolkit


_REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


def exc_name(e):
    return type(e).__name__


class World:
    """Real atoms and their models.  Every public call goes through step() or one of the helpers below."""

    def __init__(self, scratch, model=True):
        self.scratch = scratch
        self.real = {}
        self.model = {}
        self.held = {}          # (a, canonical id) -> object looked up before
        self.identity = True    # check that repeated lookups return the same object
        self.removed = {}       # a -> {level key or edge: the object that was last removed under it}
        self.saves = 0
        self.reports = []
        self.probes = {}
        self.kept = None        # op id -> objects an interrupted edit was given, for issuing it again

    # ------------------------------------------------------------------ helpers
    def Q(self, vu):
        import atomtoolkit
        v, u = vu
        return atomtoolkit.Q_(v, {'G': 'gauss', 'kG': 'kilogauss', 'mG': 'milligauss'}.get(u, u))

    def new_level(self, op, parent=None, alias=None):
        from atomtoolkit.atom import EnergyLevel
        from atomtoolkit.term import Term
        conf, term, J = POOL[op['k']]
        kw = {}
        if op.get('hf'):
            kw = {n: self.Q(x) for n, x in zip(('hfA', 'hfB', 'hfC'), op['hf'])}
        t = Term(conf, term, J)
        if op.get('mix'):
            from atomtoolkit.term import MultiTerm
            t = MultiTerm(*[Term(*POOL[k][:2], J, percentage=pct) for k, pct in op['mix']], Term(conf, term, J, percentage=61.0))
        return EnergyLevel(t, self.Q(op['E']), lande=op['lande'], parent=parent, alias=alias, **kw)

    def build(self, op, f):
        if self.kept is None:
            return f()
        if id(op) not in self.kept:
            self.kept[id(op)] = f()
        return self.kept[id(op)]

    def tname(self, t):
        """full key string of a level target [k, F, m]"""
        k, F, m = t
        s = lname(k)
        if F is not None:
            s += f' F={fs(F)}'
        if m is not None:
            s += f' mF={fs(m)}'
        return s

    def level_by(self, a, t, form='name'):
        """looks up a level target with a key form; returns the real object"""
        atom, M = self.real[a], self.model[a]
        k, F, m = t
        L = atom.levels
        if form == 'alias':
            al = [x for x, y in M.laliases.items() if y == (k, F, m)]
            if al:
                return L[al[0]]
            form = 'name'
        if form == 'alias_step':
            al = [x for x, y in M.laliases.items() if y == (k, None, None)]
            if al:
                o = L[al[0]]
                if F is not None:
                    o = o[f'F={fs(F)}']
                if m is not None:
                    o = o[f'mF={fs(m)}']
                return o
            form = 'name'
        if form in ('mJ', 'step_mJ') and (M.I != 0 or m is None):
            form = 'name'
        if form == 'mJ':
            return L[f'{lname(k)} mJ={fs(m)}']
        if form == 'step_mJ':
            return L[lname(k)][f'mJ={fs(m)}']
        if form in ('rank', 'negrank', 'slice') and not M.distinct(k):
            form = 'step' if F is not None else 'name'
        if form in ('rank', 'negrank'):
            r = M.ranked().index(k)
            o = L[r if form == 'rank' else r - len(M.levels)]
        elif form == 'slice':
            r = M.ranked().index(k)
            o = L[r:r + 1][0]
        elif form == 'step':
            o = L[lname(k)]
        else:
            return L[self.tname(t)]
        if F is not None:
            o = o[f'F={fs(F)}']
        if m is not None:
            o = o[f'mF={fs(m)}']
        return o

    def trans_by(self, a, t, form='pair', flip=False):
        """t = [u, v, (Fu, mu)|None, (Fv, mv)|None]"""
        atom, M = self.real[a], self.model[a]
        u, v, eu, ev = t
        T = atom.transitions
        lu, lv = [u, *(eu or (None, None))], [v, *(ev or (None, None))]
        if form == 'alias':
            al = [x for x, y in M.taliases.items() if _same_t(y, t)]
            if al:
                return T[al[0]]
            form = 'pair'
        if form == 'rank' and eu is None and M.distinct(u, v):
            r = M.ranked()
            key = (r.index(u), r.index(v))
            return T[key[::-1] if flip else key]
        if form == 'step' and eu is not None:
            o = T[(lname(u), lname(v))]
            key = (f'F={fs(eu[0])}', f'F={fs(ev[0])}')
            low, up = self._low_up(M, u, v)
            if low != u:
                key = key[::-1]
            o = o[key]
            if eu[1] is not None:
                key = (f'mF={fs(eu[1])}', f'mF={fs(ev[1])}')
                o = o[key if low == u else key[::-1]]
            return o
        if form == 'mixalias' and eu is None:
            al = [x for x, y in M.laliases.items() if y == (u, None, None)]
            key = (al[0] if al else lname(u), lname(v))
        elif form == 'mJ' and M.I == 0 and eu is not None and eu[1] is not None:
            key = (f'{lname(u)} mJ={fs(eu[1])}', f'{lname(v)} mJ={fs(ev[1])}')
        else:
            key = (self.tname(lu), self.tname(lv))
        return T[key[::-1] if flip else key]

    def _low_up(self, M, u, v):
        t = M.trans[frozenset((u, v))]
        return t.lower, t.upper

    def obj(self, a, kind, t, op):
        """the object an op works on: a fresh lookup, or the handle obtained earlier"""
        cid = (a, kind) + _freeze(t)
        if op.get('via') == 'held' and cid in self.held:
            return self.held[cid]
        o = self.level_by(a, t, op.get('form', 'name')) if kind == 'L' else \
            self.trans_by(a, t, op.get('form', 'pair'), op.get('flip', False))
        self.remember(a, kind, t, o)
        return o

    def remember(self, a, kind, t, o):
        if kind == 'T':
            u, v, eu, ev = t
            if u == v and eu is not None:
                return
            t = _canon_t(t)
        cid = (a, kind) + _freeze(t)
        if cid in self.held:
            if self.identity and self.held[cid] is not o:
                raise Violation('identity', f'looking up {kind} {t} again returned another object')
        else:
            self.held[cid] = o

    def forget(self, a, pred):
        for cid in [c for c in self.held if c[0] == a and pred(c)]:
            del self.held[cid]

    # ------------------------------------------------------------------ applicability (by the model)
    def ok(self, op):
        o = op['op']
        if o == 'atom':
            return True
        a = op.get('a')
        if a is not None and a not in self.model:
            return False
        M = self.model.get(a)

        def has(t):
            k, F, m = t
            return k in M.levels and (F is None or F in M.F_of(k)) and (m is None or abs(m) <= F)

        def hast(t):
            u, v, eu, ev = t
            return frozenset((u, v)) in M.trans and (eu is None or (has([u, *eu]) and has([v, *ev])))
        if o == 'putback':
            return M.can_return(gone_key(op))
        if o == 'add_level':
            return op['k'] not in M.levels and (op.get('alias') is None or op['alias'] not in M.laliases)
        if o == 'add_trans':
            if frozenset((op['u'], op['v'])) in M.trans or (op.get('alias') is not None and op['alias'] in M.taliases):
                return False
            if op.get('how') == 'newlevels':
                return all(x['k'] not in M.levels for x in op['new']) and \
                    all(y in M.levels or any(x['k'] == y for x in op['new']) for y in (op['u'], op['v']))
            return op['u'] in M.levels and op['v'] in M.levels
        if 'alias' in op and o == 'alias' and not op.get('steal') and op['alias'] in (M.laliases if op['kind'] == 'L' else M.taliases):
            return False
        if o == 'readd' and hast(op['t']):      # adding it again would take back an alias that was taken from it
            al = M.trans[frozenset(op['t'][:2])].alias
            return al is None or (al in M.taliases and _same_t(M.taliases[al], op['t']))
        if op.get('kind') == 'L':
            return has(op['t'])
        if op.get('kind') == 'T':
            return hast(op['t'])
        if 'k' in op:
            return op['k'] in M.levels
        return True

    # ------------------------------------------------------------------ edits
    def step(self, op):
        """applies op to the real atom and to the model; returns a log record"""
        if not self.ok(op):
            return {'op': op['op'], 'skipped': True}
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = self.real_step(op)
        warned = [str(x.message) for x in w if 'Constraint' in str(x.message)]
        rep = self.model_step(op)
        rec = {'op': op['op']}
        if r is not None:
            rec['r'] = r
        if warned:
            rec['warn'] = warned
        if rep:
            rec['rep'] = rep
        return rec

    def real_step(self, op):
        return getattr(self, 'r_' + op['op'])(op)

    def model_step(self, op):
        f = getattr(self, 'm_' + op['op'], None)
        return f(op) if f else None

    # atom
    def r_atom(self, op):
        from atomtoolkit.atom import Atom
        kw = {}
        if op.get('levels'):
            new = {l['k']: self.new_level(l, alias=l.get('alias')) for l in op['levels']}
            kw['levels'] = [new[l['k']] for l in op['levels'] if not l.get('brought')]
            if op.get('trans'):
                from atomtoolkit.atom import Transition
                kw['transitions'] = []
                for t in op['trans']:
                    tk = {x: self.Q(t[x]) for x in ('freq', 'A') if t.get(x)}
                    kw['transitions'].append(Transition(new[t['u']], new[t['v']], alias=t.get('alias'), **tk))
        if op.get('B'):
            kw['B'] = self.Q(op['B'])
        self.real[op['a']] = Atom(op['name'], I=op['I'], **kw)
        self.forget(op['a'], lambda c: True)

    def m_atom(self, op):
        I = op['I'] if not isinstance(op['I'], str) else frac(op['I'])
        B = op['B'][0] * B_UNITS[op['B'][1]] if op.get('B') else 0.0
        M = self.model[op['a']] = MAtom(op['name'], float(I), B)
        for l in op.get('levels') or ():
            self.m_add_level(dict(l, a=op['a']))
        rep = []
        for t in op.get('trans') or ():
            rep += self.m_add_trans(dict(t, a=op['a']))
        return rep

    # levels
    def r_add_level(self, op):
        atom, how, al = self.real[op['a']], op.get('how', 'add'), op.get('alias')
        if how == 'ctoralias':
            l = atom.add_level(self.new_level(op, alias=al))
        elif how in ('parent', 'prelook'):
            l = self.new_level(op, parent=atom)
            if how == 'prelook':        # its sublevels were looked at before it was added
                for h in l.values():
                    h.keys()
            l = atom.add_level(l, alias=al)
        elif how == 'append':
            l = self.new_level(op)
            atom.levels.append(l)
            if al is not None:
                l.alias = al
        elif how == 'setitem' and al is not None:
            l = self.new_level(op)
            atom.levels[al] = l
        elif how == 'populate':
            l = atom.add_level(self.new_level(op), populate_sublevels=True, alias=al)
        else:
            l = atom.add_level(self.new_level(op), alias=al)
        self.remember(op['a'], 'L', [op['k'], None, None], l)

    def m_add_level(self, op):
        hf = [to_hz(*x) for x in op['hf']] if op.get('hf') else [0.0, 0.0, 0.0]
        self.model[op['a']].add_level(op['k'], to_hz(*op['E']), op['lande'], hf, op.get('alias'))

    # transitions
    def r_add_trans(self, op):
        from atomtoolkit.atom import Transition
        atom, how, al = self.real[op['a']], op.get('how', 'obj'), op.get('alias')
        kw = {}
        if op.get('freq'):
            kw['freq'] = self.Q(op['freq'])
        if op.get('A'):
            kw['A'] = self.Q(op['A'])
        if how == 'newlevels':
            new = self.build(op, lambda: {x['k']: self.new_level(x, alias=x.get('alias')) for x in op['new']})
            ends = [new[k] if k in new else atom.levels[lname(k)] for k in (op['u'], op['v'])]
            t = atom.add_transition(Transition(*ends, alias=al, **kw))
        elif how == 'names':
            names = [lname(op['u']), lname(op['v'])]
            if op.get('byalias'):
                of = {y[0]: x for x, y in self.model[op['a']].laliases.items() if y[1] is None}
                names = [of.get(k, n) for k, n in zip((op['u'], op['v']), names)]
            t = atom.add_transition(tuple(names), alias=al, **kw)
        else:
            ends = [atom.levels[lname(op['u'])], atom.levels[lname(op['v'])]]
            if how == 'levels':
                t = atom.add_transition(tuple(ends), alias=al, **kw)
            elif how == 'append':
                t = Transition(*ends, alias=al, **kw)
                atom.transitions.append(t)
            elif how == 'setitem' and al is not None:
                t = Transition(*ends, **kw)
                atom.transitions[al] = t
            elif how == 'ctor' and not op.get('freq'):
                t = Transition(*ends, alias=al, **kw)
            elif how == 'prelook':      # its subtransitions were looked at before it was added
                t = Transition(*ends, alias=al, **kw)
                for s in t.values():
                    s.keys()
                atom.add_transition(t)
            else:
                t = atom.add_transition(Transition(*ends, alias=al, **kw))
        self.remember(op['a'], 'T', [op['u'], op['v'], None, None], t)

    def m_add_trans(self, op):
        M = self.model[op['a']]
        for x in op.get('new') or ():
            self.m_add_level(dict(x, a=op['a']))
        return self._resync(op['a'], M.add_trans(op['u'], op['v'], to_hz(*op['A']) if op.get('A') else None,
                                                 to_hz(*op['freq']) if op.get('freq') else None, op.get('alias')))

    # a transition that is there already, named in any way, is not made again
    def r_readd(self, op):
        a = op['a']
        atom, M, u, v = self.real[a], self.model[a], *op['t'][:2]
        t = atom.transitions[(lname(u), lname(v))]
        if op['form'] == 'levels':
            ends = [atom.levels[lname(k)] for k in (u, v)]
        else:
            of = {y[0]: x for x, y in M.laliases.items() if y[1] is None} if op['form'] == 'alias' else {}
            ends = [of.get(k, lname(k)) for k in (u, v)]
        r = atom.add_transition(tuple(ends[::-1] if op['flip'] else ends))
        if r is not t or atom.transitions[(lname(u), lname(v))] is not t:
            raise Violation('identity', f'adding the transition {lname(u)} - {lname(v)}, which exists, by {op["form"]} makes another one')

    def m_readd(self, op):
        M = self.model[op['a']]
        t = M.trans[frozenset(op['t'][:2])]
        return self._resync(op['a'], M.enforce()) if t.set_freq is not None else []

    # what was removed is put back
    def r_putback(self, op):
        atom, key = self.real[op['a']], gone_key(op)
        o = self.removed[op['a']][key]
        if op['kind'] == 'L':
            atom.levels.append(o) if op['how'] == 'append' else atom.add_level(o)
            self.remember(op['a'], 'L', [key, None, None], o)
        else:
            atom.transitions.append(o) if op['how'] == 'append' else atom.add_transition(o)
            self.remember(op['a'], 'T', [*op['t'][:2], None, None], o)

    def m_putback(self, op):
        return self._resync(op['a'], self.model[op['a']].put_back(gone_key(op)))

    def _resync(self, a, report):
        """where fixed transitions contradict each other, nothing is said about who wins: take it from the atom"""
        for comp, loop, bad in report:
            if bad:
                for k in comp:
                    self.model[a].levels[k].E = self.real[a].levels[lname(k)].level_Hz
        self.reports.append(report)
        return report

    # edits of values
    def r_set_level(self, op):
        o = self.obj(op['a'], 'L', op['t'], op)
        if op.get('attr') == 'level_Hz' and op['t'][1] is None:
            o.level_Hz = to_hz(*op['E'])
        else:
            o.level = self.Q(op['E'])

    def m_set_level(self, op):
        self.model[op['a']].set_energy(tuple(op['t']), to_hz(*op['E']))

    def r_set_hf(self, op):
        setattr(self.obj(op['a'], 'L', [op['k'], None, None], op), 'hf' + op['which'], self.Q(op['v']))

    def m_set_hf(self, op):
        setattr(self.model[op['a']].levels[op['k']], op['which'], to_hz(*op['v']))

    def r_set_lande(self, op):
        self.obj(op['a'], 'L', [op['k'], None, None], op).lande = op['v']

    def m_set_lande(self, op):
        self.model[op['a']].levels[op['k']].lande = op['v']

    def r_set_quad(self, op):
        self.obj(op['a'], 'L', op['t'], op).quadratic_zeeman = op['v']

    def m_set_quad(self, op):
        k, F, m = op['t']
        self.model[op['a']].levels[k].quad[(F, m)] = op['v']

    def r_set_gF(self, op):
        self.obj(op['a'], 'L', op['t'], op).gF = op['v']

    def m_set_gF(self, op):
        self.model[op['a']].levels[op['t'][0]].gF[tuple(op['t'][1:])] = op['v']

    def r_set_subA(self, op):
        try:
            o = self.obj(op['a'], 'T', op['t'], op)
        except KeyError:        # a component that the selection rules exclude
            return
        o.A = self.Q(op['v'])

    def m_set_subA(self, op):
        u, v, eu, ev = op['t']
        self.model[op['a']].trans[frozenset((u, v))].subA[frozenset(((u, *eu), (v, *ev)))] = to_hz(*op['v'])

    # the fixed frequencies are enforced on demand
    def r_enforce(self, op):
        self.real[op['a']].enforce_consistency()

    def m_enforce(self, op):
        return self._resync(op['a'], self.model[op['a']].enforce())

    def r_set_B(self, op):
        self.real[op['a']].B = self.Q(op['v'])

    def m_set_B(self, op):
        self.model[op['a']].B = op['v'][0] * B_UNITS[op['v'][1]]

    def r_set_A(self, op):
        self.obj(op['a'], 'T', op['t'], op).A = self.Q(op['v']) if op['v'] else None

    def m_set_A(self, op):
        self.model[op['a']].trans[frozenset(op['t'][:2])].A = to_hz(*op['v']) if op['v'] else None

    def r_set_freq(self, op):
        t = self.obj(op['a'], 'T', op['t'], op)
        f = self.Q(op['f']) if op['f'] else None
        if op.get('close'):
            f = self.Q(self._distance(op))
        if op.get('attr') == 'set_frequency':
            t.set_frequency(f)
        else:
            t.freq = f

    def m_set_freq(self, op):
        f = to_hz(*op['f']) if op['f'] else None
        if op.get('close'):
            f = self.model[op['a']].freq(_tt(op['t'])) + op.get('off', 0)
        return self._resync(op['a'], self.model[op['a']].set_freq(_tt(op['t']), f))

    def _distance(self, op):
        """the present distance of the ends, so that fixing the transition closes a consistent loop"""
        L = self.real[op['a']].levels
        return [abs(L[lname(op['t'][0])].level_Hz - L[lname(op['t'][1])].level_Hz) + op.get('off', 0), 'Hz']

    # aliases, deletion
    def r_alias(self, op):
        o = self.obj(op['a'], op['kind'], op['t'], op)
        old = o.alias
        o.alias = op['alias']
        if o.alias != op['alias']:
            raise Violation('alias', f'{o.name} was given the alias {op["alias"]!r} and says that it is {o.alias!r} (before: {old!r})')

    def m_alias(self, op):
        M = self.model[op['a']]
        (M.laliases if op['kind'] == 'L' else M.taliases)[op['alias']] = \
            tuple(op['t']) if op['kind'] == 'L' else _tt(op['t'])
        if op['kind'] == 'T' and op['t'][2] is None:
            M.trans[frozenset(op['t'][:2])].alias = op['alias']
        if op['kind'] == 'L' and op['t'][1] is None:
            M.levels[op['t'][0]].alias = op['alias']

    def del_key(self, op):
        """the key a deletion op uses"""
        M = self.model[op['a']]
        t, form = op['t'], op.get('form', 'name')
        if op['kind'] == 'L':
            k = t[0]
            if form == 'alias':
                al = [x for x, y in M.laliases.items() if y == (k, None, None)]
                if al:
                    return al[0]
            return M.ranked().index(k) if form == 'rank' and M.distinct(k) else lname(k)
        u, v = t[:2]
        if form == 'alias':
            al = [x for x, y in M.taliases.items() if _same_t(y, [u, v, None, None])]
            if al:
                return al[0]
        key = (M.ranked().index(u), M.ranked().index(v)) if form == 'rank' and M.distinct(u, v) else (lname(u), lname(v))
        return key[::-1] if op.get('flip') else key

    @staticmethod
    def note(removed, key, f):
        try:
            removed[key] = f()
        except KeyError:        # a deletion that is issued again: this part is gone already
            pass

    def r_delete(self, op):
        a = op['a']
        atom = self.real[a]
        key = self.del_key(op)
        M, removed = self.model[a], self.removed.setdefault(a, {})
        for e, t in M.trans.items():
            if (op['t'][0] in e) if op['kind'] == 'L' else (e == frozenset(op['t'][:2])):
                self.note(removed, e, lambda: atom.transitions[(lname(t.u), lname(t.v))])
        if op['kind'] == 'L':
            k = op['t'][0]
            self.note(removed, k, lambda: atom.levels[lname(k)])
            del atom.levels[key]
            self.forget(a, lambda c: k in c[2:4] if c[1] == 'T' else c[2] == k)
        else:
            del atom.transitions[key]
            e = frozenset(op['t'][:2])
            self.forget(a, lambda c: c[1] == 'T' and frozenset(c[2:4]) == e)

    def m_delete(self, op):
        M = self.model[op['a']]
        if op['kind'] == 'L':
            M.del_level(op['t'][0])
        else:
            M.del_trans(*op['t'][:2])

    # persistence inside a history
    def r_reload(self, op):
        from atomtoolkit.atom import Atom
        a = op['a']
        path = os.path.join(self.scratch, f'reload{a}.atom')
        self.real[a].save(path)
        self.real[a] = Atom.load(path)
        self.removed.pop(a, None)
        self.forget(a, lambda c: True)

    def m_reload(self, op):
        self.model[op['a']].gone.clear()

    # ------------------------------------------------------------------ reads
    def r_read(self, op):
        """one public query; its answer as plain data.  Queries that the library documents to raise give ['exc', name]"""
        a, what = op['a'], op['what']
        atom = self.real[a]
        M = self.model[a]
        if what == 'lookup':
            if op['kind'] == 'L':
                o = self.level_by(a, op['t'], op.get('form', 'name'))
                self.remember(a, 'L', op['t'], o)
                return ident(o)
            t = op['t']
            try:
                o = self.trans_by(a, t, op.get('form', 'pair'), op.get('flip', False))
            except KeyError:
                if t[2] is None:
                    raise
                return ['exc', 'KeyError']      # a forbidden component
            self.remember(a, 'T', t, o)
            return ident(o)
        if what == 'names':
            out = [list(map(str, spoil(atom.levels.list_names()))), [list(x) for x in spoil(atom.transitions.list_names())],
                   len(atom.levels), len(atom.transitions)]
            L, T = atom.levels, atom.transitions
            keys = list(L.keys())
            if not list(L) == keys == [l.name for l in L.values()] == [l.name for l in L.levels()] \
                    or len(keys) != out[2] or out[0] != list(map(str, keys)):
                raise Violation('names', f'the levels are different by iteration {list(L)}, keys {keys}, values and list {out[0]}')
            keys = list(T.keys())
            if not list(T) == keys or {frozenset((t.E_1.name, t.E_2.name)) for t in T.values()} != {frozenset(k) for k in keys} \
                    or len(list(T.values())) != len(keys):
                raise Violation('names', f'the transitions are different by iteration {list(T)}, keys {keys} and values')
            if sorted(out[0]) != sorted(lname(k) for k in M.levels) or len(M.levels) != out[2]:
                raise Violation('names', f'{out[2]} levels are listed as {out[0]}, there are {[lname(k) for k in M.levels]}')
            every = [list(x) for x in atom.transitions.list_names(hide_self_transitions=False)]
            want = sorted(sorted((lname(t.u), lname(t.v))) for t in M.trans.values())
            if sorted(map(sorted, every)) != want or len(want) != out[3] or out[1] != [x for x in every if x[0] != x[1]]:
                raise Violation('names', f'{out[3]} transitions are listed as {every} or {out[1]}, there are {want}')
            return out
        if what == 'iter':
            return [[x for x in atom.levels], [x.name for x in atom.levels.values()],
                    [list(x) for x in atom.transitions], [x.name for x in atom.transitions.values()]]
        if what == 'repr':
            out = [repr(atom), str(atom)]
            if len(M.levels):
                out.append(repr(atom.levels))
            if len(M.trans):
                out.append(repr(atom.transitions))
            for l in atom.levels.values():      # the number of sublevels in it is that of the ones looked up so far
                repr(l), repr(l.level)
                out.append(str(l))
                for n, s in l.items():
                    repr(s), out.append(str(s))
            for t in atom.transitions.values():
                out += [str(t), repr(t)]
            return out
        if what == 'sorted':
            return [l.name for l in spoil(atom.levels[:])]
        key = self.akey(op, M) if 'k' in op else None
        if what == 'linked':
            d = spoil(atom.linked_levels(key))
            self.same_objects(atom, lname(op['k']), d)
            return sorted((n, ident(t)) for n, t in d.items())
        if what == 'linked_sub':
            d = spoil(atom.linked_levels(self.tname(op['t'])))
            self.same_objects(atom, self.tname(op['t']), d)
            return sorted((n, ident(t)) for n, t in d.items())
        if what == 'draw':
            import matplotlib.pyplot as plt
            from atomtoolkit.render.grotrian import Grotrian, draw_levels
            fig = plt.figure()
            try:
                if op.get('quick'):
                    draw_levels(atom)
                else:
                    g = Grotrian()
                    for k in op['ks']:
                        if k in M.levels:
                            g.add_level(atom.levels[lname(k)], strategy=op['strategy'])
                    if any(k in M.levels for k in op['ks']):
                        g.render_levels(plt.gca())
            finally:
                plt.close(fig)
            return None
        if what in ('lifetime', 'branching'):
            try:
                if what == 'lifetime':
                    return atom.state_lifetime(key).to('s').magnitude
                return sorted((n, float(x)) for n, x in spoil(atom.compute_branching_ratios(key)).items())
            except (ValueError, TypeError, AttributeError, ArithmeticError) as e:     # which of them, is not specified
                return ['exc', exc_name(e)]
        if what == 'levelinfo':
            l = self.obj(a, 'L', op['t'], op)
            out = [l.level_Hz, l.shift_Hz, l.level.to('Hz').magnitude, l.shift.to('Hz').magnitude]
            if op['t'][1] is not None:
                out.append(float(l.gF))
            if op['t'][2] is None:
                spoil(l.sublevels())
                out.append([str(x) for x in l.keys()])
                out.append(len(l))
                if not list(l) == list(l.keys()) == [n for n, _ in l.items()] or list(l.values()) != l.sublevels() \
                        or l.sublevels() != [s for _, s in l.items()]:
                    raise Violation('parts', f'{l.name} gives different parts by iteration, keys, values, items and sublevels')
            return out
        if what == 'transinfo':
            try:
                t = self.obj(a, 'T', op['t'], op)
            except KeyError:
                if op['t'][2] is None:
                    raise
                return ['exc', 'KeyError']
            out = [t.freq_Hz, t.freq.to('Hz').magnitude, None if t.A is None else t.A.to('Hz').magnitude,
                   float(t.rel_strength), t.E_upper.name, t.E_lower.name]
            if op.get('wl'):
                out.append(t.wl.to('m').magnitude)
            if op['t'][2] is None or op['t'][2][1] is None:
                out.append(sorted(list(x) for x in t.keys()))
                out.append(len(spoil(t.subtransitions())))
                if not list(t) == list(t.keys()) == [n for n, _ in t.items()] or list(t.values()) != t.subtransitions() \
                        or t.subtransitions() != [s for _, s in t.items()] or len(t) != out[-1]:
                    raise Violation('parts', f'{t.name} gives different parts by iteration, keys, values, items and subtransitions')
            return out
        if what == 'export':
            from atomtoolkit import IO
            p = os.path.join(self.scratch, f'exp{a}.csv')
            IO.generate_hf_csv(atom, p)
            with open(p, 'rb') as f:
                return f.read().decode()
        if what == 'save':
            p = os.path.join(self.scratch, f'exp{a}.atom')
            atom.save(p)
            return os.path.getsize(p) > 0
        if what == 'observe':
            from .observe import observe
            return observe(atom, op['depth'], op['tdepth'])
        if what == 'pickle':
            return len(pickle.dumps(atom)) > 0
        raise AssertionError(what)

    def same_objects(self, atom, name, linked):
        if not self.identity:
            return
        for n, t in list(linked.items())[:12]:
            if atom.transitions[(name, n)] is not t:
                raise Violation('identity', f'linked_levels({name!r})[{n!r}] is not the transition between the two')

    def akey(self, op, M):
        k = op['k']
        form = op.get('form', 'name')
        if form == 'alias':
            al = [x for x, y in M.laliases.items() if y == (k, None, None)]
            if al:
                return al[0]
        if form == 'rank' and M.distinct(k):
            return M.ranked().index(k)
        return lname(k)


def gone_key(op):
    return op['t'][0] if op['kind'] == 'L' else frozenset(op['t'][:2])


def spoil(c):
    """a copy of an answer; the answer itself, which belongs to the caller, is emptied"""
    out = c.copy()
    c.clear()
    return out


def ident(o):
    """what an object is, in plain data"""
    if hasattr(o, 'term'):
        return [type(o).__name__, o.name, o.manifold.name]
    return [type(o).__name__] + sorted([o.E_1.name, o.E_2.name])


def _freeze(t):
    return tuple(_freeze(x) if isinstance(x, (list, tuple)) else x for x in t)


def _tt(t):
    return (t[0], t[1], tuple(t[2]) if t[2] else None, tuple(t[3]) if t[3] else None)


def _canon_t(t):
    t = _tt(t)
    a, b = (t[0], t[2]), (t[1], t[3])
    if repr(a) > repr(b):
        a, b = b, a
    return (a[0], b[0], a[1], b[1])


def _same_t(x, y):
    return _canon_t(x) == _canon_t(y)
