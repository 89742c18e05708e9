"""C03: hyperfine tables round-trip exactly and exports are crash-safe."""
import csv
import io
import os
import pickle

from .c01 import look, unwrap
from .common import *
from .crashsafe import *
from ..gen import Gen
from ..interrupt import forked
from ..observe import diff
from ..proc import Zygote

ID = 'C03'
QUICK, THOROUGH = 1000, 40000
RULE = ('a seeded edit history with 1-5 exports to 1-2 files, most under one fault each; every file is imported by a restarted process and, for '
        'whole exports, by a second atom of the same process; non-trivial: some level has a coefficient with a full double-precision '
        'mantissa, or a fault fired over an existing table')
STATES = 'distinct (fault kind, file operation or interruption site it hit, outcome) and exported coefficient magnitudes'
REAL = [REAL_LIB, 'csv, the file system']
STUB = ['disk seam (LD_PRELOAD): fails, splits and interrupts operations and ends processes at them',
        'power loss: the recorded operations replayed against a model of an ordered-metadata file system that may lose or tear data '
        'that was not synced', 'interruptions: raised by a sys.monitoring callback']
ASSUMPTIONS = ['coefficients are finite double-precision numbers', 'no alias of the importing atom is the name of another level']
EDITS = ['add_level', 'add_trans', 'set_level', 'set_hf', 'set_hf', 'alias_op', 'delete', 'reload']
NAMES = ['hf.csv', 'table', 'sub/hf.csv', 'a.b.c', None]
SENTINEL = (12345.5, -3.25, 7.0)


def setup():
    points.install()


def coefficient(rng):
    u = rng.choice(['Hz', 'kHz', 'MHz', 'GHz', 'Hz'])
    m = rng.random()
    if m < .08:
        v = rng.choice([0, 0.0, -0.0])
    elif m < .2:
        v = rng.choice([1, -5, 12, 12643, 10 ** 10])
    elif m < .3:
        v = rng.choice([1e-300, 5e-324, 1.7e300, -2.5e-17, 1e22, 123456789012345678.0])
    else:
        v = rng.uniform(-1, 1) * 10 ** rng.choice([-6, -2, 0, 1, 3, 6, 9, 15, 17])
    return [v, u]


def generate(rng, tier):
    g = Gen(rng, big=rng.choice([0, 0, 0, .5]), max_levels=rng.choice([1, 2, 3, 4, 6]), loops='any', spins=[0.0, .5, .5, 1.0, 1.5, 2.5])
    g.start(0, levels=rng.choice([0, 1, 2, 3]), trans=rng.choice([0, 1]))
    w = g.swarm(EDITS)
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    for n in range(rng.choice([1, 2, 2, 3, 4])):
        g.history(rng.randint(0, 4), w, reads=.2, whats=['lookup', 'levelinfo'])
        for _ in range(rng.choice([0, 1, 3])):
            k = g.pick_level(0)
            if k is not None:
                g.emit({'op': 'set_hf', 'a': 0, 'k': k, 'which': rng.choice('AABC'), 'v': coefficient(rng)})
        p = {'op': 'export', 'a': 0, 'name': rng.choice(names), 'fault': trial_spec(rng) if n or rng.random() < .5 else {'kind': 'plain'},
             'abs': rng.random() < .2, 'retry': rng.random() < .5, 'blank': rng.random() < .15}
        if rng.random() < .4:
            p['def_A'] = coefficient(rng)
        if rng.random() < .3:
            p['fault'] = {'kind': 'benign'}
        if rng.random() < .5:
            p['reads'] = [disk.benign(rng, 1) for _ in range(rng.randint(1, 5))]
            p['writes'] = [disk.benign(rng, 0) for _ in range(rng.randint(1, 5))]
        g.ops.append(p)
    return {'ops': g.ops}


def coefficients(atom):
    return {str(n): (atom.levels[n].hfA_Hz, atom.levels[n].hfB_Hz, atom.levels[n].hfC_Hz) for n in atom.levels.keys()}


def import_into(pickled, path, reads, log):
    """in a pristine process (or a fork): import the file into an atom whose coefficients were something else"""
    from atomtoolkit.IO import apply_hf_csv
    atom = pickle.loads(pickled)
    for n in atom.levels.keys():
        l = atom.levels[n]
        l.hfA_Hz, l.hfB_Hz, l.hfC_Hz = SENTINEL
    D = disk.Disk(os.path.dirname(path), log)
    sh = []
    if reads:
        D.call(lambda: open(path, 'rb').read())
        sh = disk.benign_faults(reads, None, {1: [o.k for o in D.log() if o.type == disk.READ]})
    r, e = D.call(lambda: apply_hf_csv(atom, path), sh)
    fired = sum(D.fired.values())
    if any(o.type < disk.OPENR and o.type != disk.CLOSE for o in D.log()):
        raise Violation('import-writes', f'importing writes: {[o for o in D.log() if o.type < disk.OPENR]}')
    if r == 'exc':
        return 'exc', f'{type(e).__name__}: {e}', fired
    return 'ok', coefficients(atom), fired


def same(x, y):
    """bit for bit, except that -0.0 and 0.0 are the same coefficient"""
    return {k: [float(v) for v in t] for k, t in x.items()} == {k: [float(v) for v in t] for k, t in y.items()}


def execute(case, ctx):
    z = Zygote()
    try:
        return run(case, ctx, z)
    finally:
        z.close()


def run(case, ctx, z):
    from atomtoolkit.IO import generate_hf_csv
    root = os.path.join(ctx.scratch, 'data')
    log = os.path.join(ctx.scratch, 'log')
    os.makedirs(os.path.join(root, 'sub'))
    os.chdir(root)
    w = World(ctx.scratch)
    files = {}      # path -> (bytes, expected coefficients, pickled atom)

    def holds(path, b, exp, pickled, reads):
        """None if the table at path is exactly exp, else what is different"""
        try:
            names = [r[0] for r in csv.reader(io.StringIO(b.decode('utf-8'), newline=''))]
        except Exception as e:
            return f'unreadable ({type(e).__name__})'
        if sorted(names) != sorted(exp):
            return f'rows {names}, expected {list(exp)}'
        k, got, fired = unwrap(z.call(import_into, pickled, path, reads, log + '.z'))
        ctx.fault('short or interrupted read', fired)
        if k == 'exc':
            return f'importing fails: {got}'
        if not same(got, exp):
            bad = [n for n in exp if not same({n: got.get(n, ())}, {n: exp[n]})]
            return f'{bad[0]} has {got[bad[0]]}, expected {exp[bad[0]]}'
        return None

    def judge(path, exp, pickled, st, i, what, reads=()):
        old = files.get(path)
        if not os.path.exists(path):
            if old:
                raise Violation('destroyed', f'step {i}: {what}: the table exported before is gone')
            if st == 'ok':
                raise Violation('lost', f'step {i}: {what}: the export returned but there is no file')
            return 'old'
        with open(path, 'rb') as f:
            b = f.read()
        if old and b == old[0] and st != 'ok':
            return 'old'
        d = holds(path, b, exp, pickled, reads)
        if d is None:
            files[path] = (b, exp, pickled)
            return 'new'
        if old and st != 'ok' and holds(path, b, old[1], old[2], ()) is None:
            return 'old'
        raise Violation('wrong-table' if st == 'ok' else 'destroyed', f'step {i}: {what}: afterwards the file ({len(b)} bytes) is not the table: {d}')

    for i, op in enumerate(case['ops']):
        if op['op'] != 'export':
            w.step(op)
            continue
        if 0 not in w.real:
            continue
        f = op['fault']
        atom = w.real[0]
        path = os.path.join(root, op['name'] or f'{atom.name}_Hyperfine.csv')
        given = path if op['abs'] and op['name'] else op['name']
        kw = {}
        if op['blank']:
            kw['blank'] = True
        if 'def_A' in op:
            kw['def_A'] = w.Q(op['def_A'])
        before = forked(look, atom)
        cur = forked(coefficients, atom)
        if op['blank']:
            exp = {n: (0.0, 0.0, 0.0) for n in cur}
        elif 'def_A' in op:
            exp = {n: ((kw['def_A'].to('Hz').magnitude if t[0] == 0 else t[0]),) + t[1:] for n, t in cur.items()}
        else:
            exp = cur
        pickled = pickle.dumps(atom)
        what = f'exporting to {given!r} {kw or ""} with {f}'
        existed = path in files
        export = lambda: generate_hf_csv(atom, given, **kw)
        if f['kind'] == 'benign':
            D = disk.Disk(root, log)
            sh = []
            if op.get('writes'):
                undone(lambda: D.call(export)[0], root)
                sh = disk.benign_faults(op['writes'], None, {0: [o.k for o in D.log() if o.type == disk.WRITE]})
            r, e = D.call(export, sh)
            st = 'ok' if r == 'ok' else 'failed'
            ctx.fault('short or interrupted write', sum(D.fired.values()))
        else:
            st, e = attempt(export, f, root, ctx, log)
        ctx.log(i, st, type(e).__name__, sorted(exp.items()))
        if f['kind'] in ('plain', 'benign') and st != 'ok':
            raise Violation('export-failed', f'step {i}: {what}: {e!r}')
        others = {p: v[0] for p, v in files.items() if p != path}
        v = judge(path, exp, pickled, st, i, what, op.get('reads', ()))
        ctx.state(f['kind'], st, v, existed)
        for t in exp.values():
            ctx.state(['%.0e' % x for x in t])
        ctx.nontrivial |= (existed and f['kind'] != 'plain') or any(len(repr(x)) > 14 for t in exp.values() for x in t)
        for p, b in others.items():
            with open(p, 'rb') as h:
                if h.read() != b:
                    raise Violation('other-file', f'step {i}: {what} changed {os.path.basename(p)}')
        d = diff(before, forked(look, atom), ordered=True)
        if d:
            raise Violation('memory', f'step {i}: {what} changed the atom: {d}')
        if st == 'failed':
            ctx.probe('export raised')
            if op['retry']:
                try:
                    export()
                except Exception as x:
                    raise Violation('retry', f'step {i}: {what}; exporting again without a fault fails: {x!r}')
                judge(path, exp, pickled, 'ok', i, what + ', then again without a fault')
        elif st == 'ok':
            # the same process: another atom, with other coefficients
            k, got, _ = import_into(pickle.dumps(atom), path, (), log)
            if k == 'exc' or not same(got, exp):
                raise Violation('round-trip', f'step {i}: {what}: importing into a second atom of the process gives {got}, expected {exp}')
    for p, (b, _, _) in files.items():
        with open(p, 'rb') as h:
            if h.read() != b:
                raise Violation('destroyed', f'at the end {os.path.basename(p)} is not what was last found there')
    return None
