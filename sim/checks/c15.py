"""C15: populating an atom from tables is complete and repeatable."""
import csv
import errno
import os
import sys

from .common import *
from .. import points
from ..gen import Gen, ModelWorld
from ..interrupt import forked, counted
from ..observe import observe, diff, coherent
from .c06 import identities

ID = 'C15'
QUICK, THOROUGH = 1000, 40000
RULE = ('atoms built from seeded level tables and filled 1-4 times - by selection rules, transition tables, internal transitions, or all '
        'at once - with hand-made transitions and edits in between, where a filling may be cut short 1-2 times, by an interruption or a '
        'progress bar that cannot be written, and done again; non-trivial: a filling was cut short, or it found transitions in place')
STATES = 'distinct interruption sites that fired, and distinct (kind of filling, levels, transitions in place, added, faults)'
REAL = [REAL_LIB, 'pandas, csv, tqdm']
STUB = ['the clock that tqdm reads', 'standard error as tqdm writes to it (fails on command)', 'the interruption itself: raised by a '
        'sys.monitoring callback at a place where CPython checks for signals']
ASSUMPTIONS = ['level tables have distinct, parseable names; transition tables list no pair twice and none that the atom has already',
               'fixed frequencies in a table form no loops and keep the order of the levels', 'whether filling by rules adds a transition '
               'between a level and itself is not specified',
               'a file of hyperfine data that is absent may be passed over']
RULES = [(True, True, True), (True, False, False), (False, True, False), (False, False, True), (True, True, False), (True, False, True),
         (False, True, True), (False, False, False)]
SECOND = [('5d6s', '3D'), ('4f13.(2F*<7/2>).5d.6s.(3D)', '3[3/2]*'), ('6s6p', '1P*')]
TABLE_COLS = ['conf_l', 'term_l', 'j_l', 'conf_u', 'term_u', 'j_u']
EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_freq', 'set_A', 'alias_op', 'delete', 'reload', 'set_B']


class Clock:
    """what tqdm thinks the time is"""
    def __init__(self, steps):
        self.steps, self.n, self.t, self.total = steps or [0.0], 0, 1.7e9, 0.0

    def __call__(self):
        s = self.steps[self.n % len(self.steps)]
        self.n += 1
        self.t += s
        self.total += abs(s)
        return self.t


class Stderr:
    """standard error that takes k writes, then fails once or for good"""
    encoding = 'utf-8'

    def __init__(self, k=None, err='EPIPE', once=False):
        self.k, self.n, self.err, self.once = k, 0, err, once

    def write(self, s):
        self.n += 1
        if self.k is not None and (self.n == self.k + 1 or self.n > self.k and not self.once):
            e = getattr(errno, self.err)
            raise OSError(e, os.strerror(e))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def setup():
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    points.install()


# ---------------------------------------------------------------------- the workload
class Pop:
    """what the operations of this check do to the model"""
    def ok(self, op):
        return op['op'] == 'build' or super().ok(op)

    def m_build(self, op):
        a = op['a']
        I = op['I'] if not isinstance(op['I'], str) else frac(op['I'])
        M = self.model[a] = MAtom('built', float(I), op['B'][0] * B_UNITS[op['B'][1]] if op.get('B') else 0.0)
        n = len(op['rows']) if op['n'] is None else op['n']
        for r in op['rows'][:n]:
            M.add_level(r['k'], r['E'] * 100 * C_LIGHT, float('nan') if r['lande'] is None else r['lande'], [0.0, 0.0, 0.0])
        if op['how'] == 'full':
            for k, *hf in op.get('hf') or ():
                if k in M.levels:
                    L = M.levels[k]
                    L.A, L.B, L.C = (to_hz(*x) for x in hf)
            tr = op.get('trans')
            if isinstance(tr, list):
                self.m_table(dict(op, rows=tr))
            else:
                self.m_rules(dict(op, allowed=(op.get('allowed') or [True] * 3) if tr == 'none' else [True, False, False]))
            self.m_internal(op)

    def m_rules(self, op):
        M = self.model[op['a']]
        ks = list(M.levels)
        for i, u in enumerate(ks):
            for v in ks[i + 1:]:
                if frozenset((u, v)) in M.trans:
                    continue
                ty = racah.types(J_of(u), J_of(v), parity(u), parity(v))
                if any(x and y for x, y in zip(ty, op['allowed'])):
                    M.add_trans(u, v)

    def m_internal(self, op):
        M = self.model[op['a']]
        for k in M.levels:
            if frozenset((k,)) not in M.trans:
                M.add_trans(k, k)

    def listed(self, op):
        """rows of a table that this check is about: no pair twice, none that is there already"""
        M = self.model.get(op['a'])
        seen = set(M.trans) if M and op['op'] != 'build' else set()
        out = []
        for r in op['rows']:
            e = frozenset((r['u'], r['v']))
            if len(e) == 2 and e not in seen:
                seen.add(e)
                out.append(r)
        return out

    def m_table(self, op):
        M = self.model[op['a']]
        for r in self.listed(dict(op, op='table')):
            if r['u'] in M.levels and r['v'] in M.levels:
                self._resync(op['a'], M.add_trans(r['u'], r['v'], to_hz(*r['A']) if r['A'] else None, to_hz(*r['f']) if r['f'] else None))


class PopModel(Pop, ModelWorld):
    pass


from ..model import MAtom  # noqa: E402


class PopWorld(Pop, World):
    def frame(self, rows):
        import pandas as pd
        df = pd.DataFrame({
            'Level (cm-1)': [r['E'] for r in rows], 'J': [r['js'] for r in rows], 'Lande': [r['lande'] for r in rows],
            'Configuration': [POOL[r['k']][0] for r in rows], 'Term': [POOL[r['k']][1] for r in rows], 'Percentage': [float(r['p']) for r in rows],
            'Configuration_2': [r['second'][0] if r['second'] else None for r in rows],
            'Term_2': [r['second'][1] if r['second'] else None for r in rows],
            'Percentage_2': [float(r['second'][2]) if r['second'] else None for r in rows]})
        df['Lande'] = pd.to_numeric(df['Lande'], errors='coerce')
        df['Level (cm-1)'] = df['Level (cm-1)'].astype('pint[cm**-1]')
        df['Level (Hz)'] = df['Level (cm-1)'].pint.to('Hz')
        return df

    def transitions(self, rows, how):
        import pandas as pd
        vals = [dict(zip(TABLE_COLS, (*POOL[r['u']][:2], r['jform'][0] % J_of(r['u']) if r['jform'] else J_of(r['u']),
                                      *POOL[r['v']][:2], r['jform'][0] % J_of(r['v']) if r['jform'] else J_of(r['v'])))) for r in rows]
        if how.startswith('csv'):
            from atomtoolkit.IO import load_transition_data
            cols = {c: f'col {c}' for c in TABLE_COLS}
            if any(r['A'] for r in rows):
                cols[how == 'csv2' and 'A_coeff' or 'A'] = 'A (MHz)'
            kw = {}
            if any(r['f'] for r in rows):       # frequencies with units, as read_csv can be told to understand them
                cols[len(rows) % 2 and 'freq' or 'frequency'] = 'f'
                kw['converters'] = {'f': lambda x: self.Q([float(x.split()[0]), x.split()[1]]) if x else None}
            p = os.path.join(self.scratch, 'transitions.csv')
            with open(p, 'w', newline='') as f:
                w = csv.writer(f)
                w.writerow([cols[c] for c in TABLE_COLS] + ['A (MHz)', 'remark', 'f'])
                for v, r in zip(vals, rows):
                    w.writerow([v[c] for c in TABLE_COLS] + [repr(to_hz(*r['A']) / 1e6) if r['A'] else '', 'x',
                                                             f'{r["f"][0]!r} {r["f"][1]}' if r['f'] else ''])
            return load_transition_data(p, cols, **kw)
        df = pd.DataFrame(vals, columns=TABLE_COLS)
        for c, n in (('freq', 'f'), ('A', 'A')):
            s = pd.Series([None] * len(rows), dtype=object)
            for i, r in enumerate(rows):
                s[i] = self.Q(r[n]) if r[n] else None
            df[c] = s
        return df

    def r_build(self, op):
        from atomtoolkit.atom import Atom
        from atomtoolkit.IO import generate_full_from_dataframe
        df = self.frame(op['rows'])
        kw = {'I': op['I']}
        if op.get('B'):
            kw['B'] = self.Q(op['B'])
        if op['n'] is not None:
            kw['num_levels'] = op['n']
        if op['how'] == 'full':
            if op.get('hf') is not None:
                kw['hf_csv'] = p = os.path.join(self.scratch, 'hf.csv')
                if op['hf'] != []:
                    with open(p, 'w', newline='') as f:
                        csv.writer(f).writerows([lname(k), *(f'{v!r} {u}' for v, u in hf)] for k, *hf in op['hf'])
                        if op.get('hfbad'):
                            f.write(op['hfbad'] + '\r\n')
                elif os.path.exists(p):
                    os.unlink(p)
            tr = op.get('trans')
            if isinstance(tr, list):
                kw['transitions_df'] = self.transitions(self.listed(dict(op, rows=tr)), op['thow'])
            elif tr == 'none':
                kw['transitions_df'] = None
                if op.get('allowed'):
                    kw['allowed'] = tuple(op['allowed'])
            atom = generate_full_from_dataframe(df, 'built', **kw)
        else:
            atom = Atom.from_dataframe(df, 'built', **kw)
        self.real[op['a']] = atom
        self.forget(op['a'], lambda c: True)

    def r_rules(self, op):
        kw = {} if op['allowed'] == [True] * 3 and op.get('default') else {'allowed': tuple(op['allowed'])}
        self.real[op['a']].populate_transitions(**kw)

    def r_internal(self, op):
        self.real[op['a']].populate_internal_transitions()

    def r_table(self, op):
        self.real[op['a']].populate_transitions_df(self.transitions(self.listed(op), op['thow']))


def generate(rng, tier):
    nmax = rng.choice([2, 3, 4, 5, 6, 8])
    g = Gen(rng, max_levels=nmax, sub_targets=False, maxF=4.0)
    g.w = PopModel()
    fam = rng.choice(['half', 'int'])
    g.family[0] = rng.sample(FAMILY[fam], min(nmax + 2, len(FAMILY[fam])))
    if len(g.family[0]) > 2 and rng.random() < .15:
        g.family[0][:2] = HUGE[fam]
    perm = list(range(len(g.family[0])))
    rng.shuffle(perm)
    g.slot[0] = dict(zip(g.family[0], perm))

    def faults(op):
        op['clock'] = [rng.choice([0.0, .001, .05, .2, 1.0, 30.0, -5.0, 1e5]) for _ in range(rng.choice([1, 1, 3]))]
        if rng.random() < .5:
            op['faults'] = [dict(points.spec(rng), type='interrupt') if rng.random() < .7 else
                            {'type': 'stderr', 'k': round(rng.random(), 3), 'err': rng.choice(['EPIPE', 'ENOSPC', 'EAGAIN', 'EIO']), 'once': rng.random() < .5}
                            for _ in range(rng.choice([1, 1, 2]))]
            op['look'] = rng.random() < .4
        return g.emit(op)

    def table(present, trans, n):
        """rows of a transition table"""
        import copy
        M2 = copy.deepcopy(g.w.model.get(0)) or MAtom('x', 0, 0)
        g2 = Gen(rng, loops='none')
        g2.w.model[0] = M2
        g2.slot, g2.family = g.slot, g.family
        if not M2.levels:
            for k in present:
                M2.add_level(k, g.nominal(0, k), 0, [0, 0, 0])
        how = rng.choice(['df', 'df', 'csv', 'csv2'])
        noA = rng.random() < .25
        rows, seen = [], set(trans)
        for _ in range(n):
            u, v = rng.sample(g.family[0], 2)
            e = frozenset((u, v))
            if e in seen:
                continue
            seen.add(e)
            r = {'u': u, 'v': v, 'f': None, 'A': None if noA or how == 'df' and rng.random() < .2 else g.aval(),
                 'jform': rng.choice([None, None, ['%.1f'], ['%g']]) if how == 'df' else None}
            there = u in M2.levels and v in M2.levels
            if how != 'csv' and rng.random() < .4 and not (there and g2.would_loop(0, u, v)):
                r['f'] = g.pair_freq(0, u, v)
            if there:
                M2.add_trans(u, v, None, to_hz(*r['f']) if r['f'] else None)
            rows.append(r)
        return rows, how

    n = rng.randint(1, nmax)
    ks = rng.sample(g.family[0], min(n, len(g.family[0])))
    rows = []
    for k in ks:
        s = g.level_spec(0, k)
        e = float(f'{from_hz(to_hz(*s["E"]), "1/cm"):.3f}')
        p = rng.choice([100, 97, 60])
        rows.append({'k': k, 'E': e, 'js': rng.choice(['', '', ' ']) + POOL[k][2], 'lande': s['lande'] if rng.random() < .9 else None, 'p': p,
                     'second': [*rng.choice(SECOND), rng.choice([5, 30])] if rng.random() < .3 else None})
    fam_spins = [0.0, .5] if HUGE[fam][0] in g.family[0] else [0.0, .5, .5, 1.0, 1.5]
    I = rng.choice(fam_spins)
    op = {'op': 'build', 'a': 0, 'how': rng.choice(['df', 'df', 'full']), 'rows': rows, 'n': rng.choice([None, None, None, n - 1, n + 3, 0]),
          'I': fs(I) if rng.random() < .3 else I, 'B': g.field() if rng.random() < .4 else None}
    if op['how'] == 'full':
        if rng.random() < .5:
            if rng.random() < .15:
                op['hfbad'] = rng.choice([f'{lname(ks[0])},1.0 kg,0 Hz,0 Hz', f'{lname(ks[0])},1.0 GHz', f'{lname(ks[0])},1.0 qqz,0 Hz,0 Hz'])
            op['hf'] = [[k, g.hfval(), g.hfval(1e9), g.hfval(1e8)] for k in rng.sample(g.family[0], rng.randint(1, 3) if op.get('hfbad') else rng.randint(0, 3))]
        c = rng.random()
        if c < .4:
            op['trans'], op['thow'] = table(ks[:op['n']], (), rng.randint(1, 2 * n))
        elif c < .7:
            op['trans'] = 'none'
            if rng.random() < .5:
                op['allowed'] = list(rng.choice(RULES))
    faults(op)
    w = g.swarm(EDITS)
    w['set_freq'] = min(w['set_freq'], 1)
    g.set_freq = lambda a=0: Gen.set_freq(g, a, 0)      # (a component of a level without a Lande factor has no energy)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .2:       # as many levels as before, but others
            g.delete(0, 'L')
            g.add_level(0)
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            g.history(1, w, reads=.4, whats=['lookup', 'lookup', 'transinfo', 'linked', 'linked_sub', 'sorted', 'names', 'lifetime'])
        c = rng.choice(['rules', 'rules', 'rules', 'table', 'table', 'internal'])
        op = {'op': c, 'a': 0}
        if c == 'rules':
            op['allowed'] = list(rng.choice(RULES))
            op['default'] = rng.random() < .5
        elif c == 'table':
            M = g.w.model[0]
            op['rows'], op['thow'] = table(list(M.levels), M.trans, rng.randint(1, 3 + len(M.levels)))
        faults(op)
    return {'ops': g.ops}


# ---------------------------------------------------------------------- one run
POPS = ('build', 'rules', 'table', 'internal')


def execute(case, ctx):
    import tqdm.std
    w = PopWorld(ctx.scratch)

    def scened(op, fn, k=None, err=None, once=False):
        """fn() with the clock and standard error of the step"""
        clock, old = Clock(op.get('clock')), (tqdm.std.time, sys.stderr)
        tqdm.std.time, sys.stderr = clock, Stderr(k, err, once)
        try:
            return fn(), sys.stderr.n
        finally:
            ctx.sim_s += clock.total
            if any(s < 0 or s > 100 for s in op.get('clock') or ()) and clock.n:
                ctx.fault('clock jump')
            tqdm.std.time, sys.stderr = old

    def look():
        return observe(w.real[0], 2, 1) if 0 in w.real else None

    for i, op in enumerate(case['ops']):
        if op['op'] not in POPS:
            ctx.log(w.step(op))
            continue
        if not w.ok(op) or (op['op'] != 'build' and 0 not in w.real):
            continue
        where = f'step {i} ({op["op"]}{" full" if op.get("how") == "full" else ""})'
        M = w.model.get(0)
        build = op['op'] == 'build'
        before = {} if build else {frozenset((t.E_1.name, t.E_2.name)): t for t in w.real[0].transitions.values()}
        had = 0 if build else len(M.trans)
        if op.get('hfbad'):
            try:
                scened(op, lambda: w.r_build(op))
            except Exception as e:
                ctx.fault('unusable hyperfine table')
                ctx.log('rejected', type(e).__name__)
            else:
                raise Violation('silent', f'{where}: a hyperfine table with {op["hfbad"]} was passed over in silence')
            op = dict(op, hfbad=None)
        call = lambda: w.r_build(op) if build else getattr(w, 'r_' + op['op'])(op)
        hit = []
        if op.get('faults'):
            def twin():
                (sites, _), writes = scened(op, lambda: counted(call))
                return sites, writes, look()
            sites, writes, expected = forked(twin)
            for f in op['faults']:
                r, done = None, False
                if f['type'] == 'interrupt':
                    k = points.choose(sites if not hit else forked(lambda: scened(op, lambda: counted(call))[0][0]), f)
                    if k is None:
                        continue
                    inj = points.Inject(k, f['exc'])
                    (st, _), _ = scened(op, lambda: inj.run(call))
                    done = st == 'done'
                    r = inj.fired
                    if r:
                        ctx.fault(f['exc'])
                        ctx.state(r)
                        ctx.log('interrupted', r, st)
                else:
                    try:
                        scened(op, call, int(f['k'] * writes), f['err'], f['once'])
                        done = True
                    except OSError as e:
                        if e.errno != getattr(errno, f['err']):
                            raise
                        r = 'stderr ' + f['err']
                        ctx.fault('standard error ' + f['err'])
                        ctx.log(where, r)
                hit.append(r)
                if done:
                    d = diff(expected, forked(look))
                    if d:
                        raise Violation('incomplete', f'{where}: returned as if nothing had happened, under {f}, but: {d}')
            if op['look'] and not build:
                usable(forked(look), f'{where}, cut short at {hit}')
        scened(op, call)
        if op.get('faults'):
            d = diff(expected, forked(look))
            if d:
                raise Violation('after-redo', f'{where}, cut short at {hit} and done again: the atom is not what it would be otherwise: {d}')
        # the model
        if build:
            w.m_build(op)
        else:
            getattr(w, 'm_' + op['op'])(op)
        M = w.model[0]
        if op['op'] in ('rules', 'build'):
            adopt(w)
        where += f', cut short at {hit}' if hit else ''
        compare_energies(w, 0, where)
        compare_tables(w, where)
        for e, t in before.items():
            n = sorted(e) * (3 - len(e))
            if w.real[0].transitions[(n[0], n[1])] is not t:
                raise Violation('replaced', f'{where}: the transition {t.name} was in the atom before and has been replaced')
        ctx.state(op['op'], op.get('how'), len(M.levels), had, len(M.trans) - had, [h and h.split('+')[0] for h in hit])
        ctx.log(where, len(M.levels), len(M.trans), hit)
        ctx.nontrivial |= any(hit) or had > 0
        if had:
            ctx.probe('filled an atom that had transitions')
    if 0 not in w.real:
        return None
    compare_energies(w, 0, 'at the end')
    if not any(L.lande != L.lande for L in w.model[0].levels.values()):
        compare_all_sublevels(w, 0, 'at the end')
    bad = coherent(w.real[0])
    if bad:
        raise Violation('incoherent', f'at the end: {bad}')
    o = look()
    ctx.log(o)
    identities(w, 0)
    w.step({'op': 'reload', 'a': 0})
    d = diff(o, look())
    if d:
        raise Violation('saved-copy-differs', f'saving and loading changes the atom: {d}')
    return None


def adopt(w):
    """whether filling by rules connects a level with itself is left open"""
    M = w.model[0]
    for t in w.real[0].transitions.values():
        if t.E_1 is t.E_2:
            k = next((k for k in M.levels if lname(k) == t.E_1.name), None)
            if k is not None and frozenset((k,)) not in M.trans:
                M.add_trans(k, k)


def compare_tables(w, where):
    """everything the tables say about levels and transitions"""
    atom, M = w.real[0], w.model[0]
    for k, L in M.levels.items():
        r = atom.levels[lname(k)]
        if not (r.lande == L.lande or (r.lande != r.lande and L.lande != L.lande)):
            raise Violation('table', f'{where}: {r.name} has the Lande factor {r.lande!r}, listed is {L.lande!r}')
        for x in 'ABC':
            if not abs(getattr(r, f'hf{x}_Hz') - getattr(L, x)) <= 1e-3:
                raise Violation('table', f'{where}: hf{x} of {r.name} is {getattr(r, f"hf{x}_Hz")!r}, listed is {getattr(L, x)!r}')
        if float(r.term.J) != L.J or r.term.parity != parity(k):
            raise Violation('table', f'{where}: {r.name} has J {r.term.J} and parity {r.term.parity}')
    for e, t in M.trans.items():
        r = atom.transitions[(lname(t.u), lname(t.v))]
        ty = racah.types(J_of(t.u), J_of(t.v), parity(t.u), parity(t.v), t.u == t.v)
        if [bool(x) for x in r.allowed_types] != [bool(x) for x in ty]:
            raise Violation('types', f'{where}: {r.name} is of types {r.allowed_types}')
        if (r.A is None) != (t.A is None) or (t.A is not None and not abs(r.A.to('Hz').magnitude - t.A) <= 1e-9 * abs(t.A)):
            raise Violation('table', f'{where}: {r.name} has A {r.A}, listed is {t.A} Hz')
        s = None if r.set_freq is None else r.set_freq.to('Hz').magnitude
        if (s is None) != (t.set_freq is None) or (s is not None and not abs(s - t.set_freq) <= 2 * TOL):
            raise Violation('table', f'{where}: {r.name} is fixed at {s}, listed is {t.set_freq} Hz')


def usable(o, where):
    """the listings of a half-filled atom agree with each other"""
    names = set(o['levels'])
    for k, t in o['trans'].items():
        if not set(t['ends']) <= names:
            raise Violation('half-built', f'{where}: transition {k} has an end that is not a level')
    for k, v in o['linked'].items():
        if not set(v) <= names:
            raise Violation('half-built', f'{where}: {k} is linked to {sorted(set(v) - names)}, which are no levels')
