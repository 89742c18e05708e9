"""C04: importing a hyperfine table is all or nothing."""
import csv
import errno
import io
import os

from .common import *
from .. import disk, points
from ..gen import Gen
from ..interrupt import forked, counted, interrupt
from ..observe import observe, diff
from ..pool import FREQ_UNITS, POOL, lname

ID = 'C04'
QUICK, THOROUGH = 1400, 80000
RULE = ('a seeded edit history with 1-4 imports of tables that are whole, damaged, cut short or unreadable from some read on; non-trivial: an '
        'import that must fail had a row for a level of the atom before the damage, or one that succeeded changed a coefficient')
STATES = 'distinct (kind of damage, place in the table, outcome) and (rows, levels named, unknown levels)'
REAL = [REAL_LIB, 'csv, pint, the file system']
STUB = ['disk seam (LD_PRELOAD): fails, splits and interrupts the reads', 'interruptions: raised by a sys.monitoring callback']
ASSUMPTIONS = ['no two rows name the same level', 'a table cut exactly at the end of a row is a whole, shorter table']
EDITS = ['add_level', 'add_trans', 'set_level', 'set_hf', 'set_hf', 'set_lande', 'set_B', 'alias_op', 'delete', 'reload']
UNITS = {'hertz': 1.0, 'Hz': 1.0, 'kHz': 1e3, 'kilohertz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'gigahertz': 1e9, 'THz': 1e12,
         '1/s': 1.0}
UNKNOWN = ['no such level', '', 'x', '4f14.6s', '4f14.6s 2S', '2S1/2', '9z 2S1/2', 'name', 'Level', '171', '5s2 1S7', 'a,b']


def setup():
    points.install()


def field(rng):
    u = rng.choice(list(UNITS))
    v = rng.choice([0.0, 1.0, rng.uniform(-1, 1) * 10 ** rng.choice([-3, 0, 2, 5]), rng.uniform(-20, 20), 12.642812118])
    if abs(v) * UNITS[u] > 3e12:
        v = 2.0
    form = rng.choice(['repr', 'repr', 'e', 'int'])
    s = repr(v) if form == 'repr' else '%.15e' % v if form == 'e' else str(int(v))
    if form == 'int':
        v = float(int(v))
    return [s, u, v]


def generate(rng, tier):
    g = Gen(rng, big=rng.choice([0, 0, 0, .5]), max_levels=rng.choice([1, 2, 3, 4, 6]), loops='any', spins=[0.0, .5, .5, 1.0, 1.5, 2.5])
    g.start(0, levels=rng.choice([0, 1, 2, 3, 4]), trans=rng.choice([0, 1]))
    w = g.swarm(EDITS)
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        g.history(rng.randint(0, 4), w, reads=.3, whats=['lookup', 'levelinfo', 'lookup', 'transinfo'])
        M = g.w.model.get(0)
        rows = []
        for k in M.levels:
            if rng.random() < .75:
                al = [x for x, t in M.laliases.items() if t == (k, None, None)]
                rows.append({'k': k, 'name': al[0] if al and rng.random() < .3 else lname(k), 'v': [field(rng) for _ in 'ABC']})
        for _ in range(rng.choice([0, 0, 1, 2])):
            absent = [lname(k) for k in range(len(POOL)) if k not in M.levels]
            rows.append({'k': None, 'name': rng.choice(UNKNOWN + absent), 'v': [field(rng) for _ in 'ABC']})
        for n in range(rng.choice([0] * 12 + [150, 300])):
            rows.append({'k': None, 'name': f'pad {n}', 'v': [['0.0', 'hertz', 0.0]] * 3})
        rng.shuffle(rows)
        names = set(M.laliases)
        rows = [r for r in rows if r['k'] is not None or r['name'] not in names]
        op = {'op': 'import', 'a': 0, 'rows': rows, 'end': rng.choice(['\r\n', '\r\n', '\n']), 'last': rng.random() < .8,
              'quote': rng.random() < .2}
        d = rng.random()
        if d < .2:
            op['damage'] = {'kind': 'none'}
        elif d < .45:
            op['damage'] = {'kind': 'cut', 'k': rng.choice([.999, round(rng.random(), 4), round(rng.random(), 4)])}
        elif d < .65:
            op['damage'] = {'kind': rng.choice(['field', 'field', 'missing', 'extra', 'blank', 'bytes', 'label']),
                            'row': rng.choice([0.0, .999, round(rng.random(), 3)]), 'f': rng.randint(1, 3),
                            'text': rng.choice(['12.6', '3 kg', 'abc', '', '5 GHz GHz', '--', 'None', '1 T', '7 kelvin', 'hfA'])}
        elif d < .8:
            op['damage'] = {'kind': 'read', 'k': rng.choice([0.0, .999, round(rng.random(), 3)]), 'err': rng.choice(['EIO', 'EACCES', 'EIO']),
                            'short': rng.choice([None, 1000, 4096])}
        elif d < .85:
            op['damage'] = {'kind': rng.choice(['absent', 'directory'])}
        else:
            op['damage'] = {'kind': 'interrupt', 'spec': points.spec(rng)}
        if rng.random() < .5:
            op['reads'] = [disk.benign(rng, 1) for _ in range(rng.randint(1, 5))]
        g.ops.append(op)
        # what a successful import means for the generator's model
        if op['damage']['kind'] in ('none', 'interrupt'):
            for r in rows:
                if r['k'] is not None:
                    for c, x in zip('ABC', r['v']):
                        g.w.model_step({'op': 'set_hf', 'a': 0, 'k': r['k'], 'which': c, 'v': [x[2] * UNITS[x[1]], 'Hz']})
    g.history(rng.randint(0, 3), w, reads=.3)
    return {'ops': g.ops}


def text_of(op):
    """-> (list of rows as text, whole file)"""
    rows = []
    for r in op['rows']:
        b = io.StringIO()
        csv.writer(b, lineterminator=op['end'], quoting=csv.QUOTE_ALL if op['quote'] and op['damage']['kind'] != 'cut' else csv.QUOTE_MINIMAL).writerow(
            [r['name']] + [f'{s} {u}' for s, u, _ in r['v']])
        rows.append(b.getvalue())
    return rows


def coefficients(atom):
    return {str(n): (atom.levels[n].hfA_Hz, atom.levels[n].hfB_Hz, atom.levels[n].hfC_Hz) for n in atom.levels.keys()}


def execute(case, ctx):
    from atomtoolkit.IO import apply_hf_csv
    root = os.path.join(ctx.scratch, 'data')
    log = os.path.join(ctx.scratch, 'log')
    os.makedirs(root)
    os.chdir(root)
    A, B = World(ctx.scratch), World(ctx.scratch)
    B.identity = False
    for i, op in enumerate(case['ops']):
        if op['op'] != 'import':
            rec = A.step(op)
            if not rec.get('skipped') and op['op'] != 'read':
                B.step(op)
            continue
        if 0 not in A.real:
            continue
        atom, M = A.real[0], A.model[0]
        dm = op['damage']
        rows = [dict(r) for r in op['rows']]
        text = text_of(op)
        path = os.path.join(root, 'table.csv')
        want = rows             # rows that take effect on success
        must_fail = False
        data = None
        if dm['kind'] == 'cut':
            raw = ''.join(text).encode()
            cut = min(int(dm['k'] * len(raw)), len(raw))
            data, n, want = raw[:cut], 0, []
            must_fail = True
            for r, t in zip(rows, text):
                whole = len(t.rstrip('\r\n').encode())
                if n + whole <= cut:
                    want.append(r)
                    if cut - n in range(whole, len(t.encode()) + 1):
                        must_fail = False
                n += len(t.encode())
            if cut == 0:
                must_fail = False
            ctx.fault('table cut short')
        elif dm['kind'] in ('field', 'missing', 'extra', 'blank', 'bytes', 'label') and rows:
            j = min(int(dm['row'] * len(rows)), len(rows) - 1)
            cells = [rows[j]['name']] + [f'{s} {u}' for s, u, _ in rows[j]['v']]
            if dm['kind'] == 'field':
                cells[dm['f']] = dm['text']
            elif dm['kind'] == 'missing':
                del cells[dm['f']]
            elif dm['kind'] == 'extra':
                cells.append('1 GHz')
            elif dm['kind'] == 'label':
                cells = ['name', 'hfA', 'hfB', 'hfC']
            b = io.StringIO()
            csv.writer(b, lineterminator=op['end']).writerow(cells)
            text[j] = op['end'] if dm['kind'] == 'blank' else b.getvalue()
            data = ''.join(text).encode()
            if dm['kind'] == 'bytes':
                at = len(''.join(text[:j]).encode()) + 2
                data = data[:at] + b'\xff\xfe' + data[at:]
            must_fail = True
            ctx.fault('damaged row')
        if data is None:
            if not op['last'] and text:
                text[-1] = text[-1].rstrip('\r\n')
            data = ''.join(text).encode()
        if dm['kind'] == 'absent':
            if os.path.exists(path):
                os.unlink(path)
            must_fail = True
        elif dm['kind'] == 'directory':
            path = os.path.join(root, 'dir')
            os.makedirs(path, exist_ok=True)
            must_fail = True
        else:
            with open(path, 'wb') as f:
                f.write(data)
        D = disk.Disk(root, log)
        faults = []
        if dm['kind'] == 'read' or op.get('reads'):
            forked(lambda: D.call(lambda: apply_hf_csv(atom, path)) and None)
            rd = [o for o in D.log() if o.type >= disk.OPENR]
            if dm['kind'] == 'read' and rd:
                o = rd[min(int(dm['k'] * len(rd)), len(rd) - 1)]
                e = disk.ERRS[dm['err'] if o.type == disk.OPENR else 'EIO']
                faults = [(1, o.k, disk.ERRNO, e, 0)]
                if dm['short'] and o.type == disk.READ:
                    faults = [(1, o.k, disk.SHORT, dm['short'], 0), (1, o.k + 1, disk.ERRNO, e, 0)]
            elif op.get('reads'):
                faults = disk.benign_faults(op['reads'], None, {1: [o.k for o in rd if o.type == disk.READ]})
        before = forked(lambda: observe(atom, 2, 1))
        cur = coefficients(atom)
        exp = {n: tuple(v) for n, v in cur.items()}
        for r in want:
            if r['k'] is not None and r['k'] in M.levels and (r['name'] == lname(r['k']) or r['name'] in M.laliases):
                exp[lname(r['k'])] = tuple(x[2] * UNITS[x[1]] for x in r['v'])
        what = f'step {i}: importing {len(rows)} rows ({dm})'
        named = [r for r in want if r['k'] is not None]
        if dm['kind'] == 'interrupt':
            h = interrupt(A, lambda: apply_hf_csv(atom, path), dm['spec'], ctx)
            what += f', interrupted at {h} and issued again'
        r, e = D.call(lambda: apply_hf_csv(atom, path), faults)
        fired = sum(D.fired.values())
        if dm['kind'] == 'read' and fired:
            ctx.fault('read error')
            # a short read followed by an error that never comes is just a short read
            must_fail = bool(D.fired[disk.ERRNO])
        elif fired:
            ctx.fault('short or interrupted read', fired)
        got = coefficients(atom)
        ctx.log(i, r, type(e).__name__, sorted(got.items()))
        if must_fail:
            if r == 'ok':
                raise Violation('not-raised', f'{what}: the table is unusable, but importing it raises nothing')
            ctx.nontrivial |= any(r['k'] is not None for r in rows)
            if got != cur:
                bad = [n for n in cur if got.get(n) != cur[n]]
                raise Violation('half-imported', f'{what} raises {e!r}, but {bad[0]} is {got.get(bad[0])}, before {cur[bad[0]]}')
            d = diff(before, forked(lambda: observe(atom, 2, 1)), ordered=True)
            if d:
                raise Violation('half-imported', f'{what} raises {e!r}, but changed the atom: {d}')
        else:
            if r == 'exc':
                raise Violation('import-failed', f'{what} fails: {e!r}')
            for n in exp:
                # untouched coefficients exactly, imported ones up to the rounding of the unit conversion
                ok = got[n] == cur[n] if exp[n] is cur[n] or exp[n] == cur[n] else \
                    all(abs(x - y) <= 1e-12 * max(abs(x), abs(y)) for x, y in zip(got[n], exp[n]))
                if not ok:
                    raise Violation('wrong-coefficients', f'{what}: {n} is {got[n]}, expected {exp[n]} (before {cur[n]})')
            ctx.nontrivial |= got != cur
            for r in named:
                n = lname(r['k'])
                if exp.get(n) != cur.get(n):
                    for c, v in zip('ABC', got[n]):
                        s = {'op': 'set_hf', 'a': 0, 'k': r['k'], 'which': c, 'v': [v, 'Hz']}
                        A.model_step(s)
                        B.step(s)
        ctx.state(dm['kind'], round(dm.get('row', dm.get('k', 0)) or 0, 1), r, must_fail)
        ctx.state(len(rows), len(named), len(rows) - len(named))
    if 0 in A.real:
        compare_energies(A, 0, 'at the end')
        compare_all_sublevels(A, 0, 'at the end', zeeman=False)
        d = diff(observe(A.real[0], 2, 1), observe(B.real[0], 2, 1))
        if d:
            raise Violation('twins-differ', f'at the end the atom differs from one whose coefficients were set one by one: {d}')
    return None
