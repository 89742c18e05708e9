"""C02: an interrupted save never destroys the saved atom."""
import os
import pickle

from .c01 import look, unwrap
from .common import *
from .crashsafe import *
from ..gen import Gen
from ..interrupt import forked
from ..observe import observe, diff
from ..proc import Zygote

ID = 'C02'
QUICK, THOROUGH = 1000, 40000
RULE = ('a seeded edit history with 2-5 saves to 1-2 files, most under one fault each; non-trivial: a fault fired in a save over an existing '
        'file')
STATES = 'distinct (fault kind, file operation or interruption site it hit, outcome)'
REAL = [REAL_LIB, 'pickle, the file system']
STUB = ['disk seam (LD_PRELOAD): fails operations and ends processes at them', 'power loss: the recorded operations replayed against a '
        'model of an ordered-metadata file system that may lose or tear data that was not synced',
        'interruptions: raised by a sys.monitoring callback']
ASSUMPTIONS = ['power loss: metadata operations reach the disk in order and fsync makes all earlier operations durable']
EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_gF', 'set_B', 'set_A', 'set_subA',
         'set_freq', 'alias_op', 'delete']
NAMES = ['x', 'y.atom', 'run.1', 'sub/z', 'lnk', 'other.atom']


def setup():
    points.install()


def generate(rng, tier):
    g = Gen(rng, upset=rng.choice([0, 0, .4]), max_levels=rng.choice([1, 2, 3, 4]), loops='any')
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([0, 1, 2]))
    w = g.swarm(EDITS)
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    if rng.random() < .75:
        g.ops.append({'op': 'persist', 'a': 0, 'name': names[0], 'fault': {'kind': 'plain'}, 'abs': False})
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        g.history(rng.randint(0, 4), w, reads=.4, whats=['lookup', 'lookup', 'transinfo', 'linked_sub', 'levelinfo'])
        p = {'op': 'persist', 'a': 0, 'name': rng.choice(names), 'fault': trial_spec(rng), 'abs': rng.random() < .3,
             'retry': rng.random() < .5, 'restart': rng.random() < .15}
        if rng.random() < .12:
            p['fault'] = {'kind': 'unpicklable'}
        if rng.random() < .15:
            p['cut'] = rng.choice([0.0, .5, .9, .99, .9999, round(rng.random(), 4)])
        g.ops.append(p)
    return {'ops': g.ops}


def load(path, log):
    """in a pristine process: -> ('atom', observation) | ('exc', type)"""
    from atomtoolkit.atom import Atom
    D = disk.Disk(os.path.dirname(path), log)
    r, e = D.call(lambda: Atom.load(path))
    if any(o.type < disk.OPENR and o.type != disk.CLOSE for o in D.log()):
        raise Violation('load-writes', f'loading writes: {[o for o in D.log() if o.type < disk.OPENR]}')
    if r == 'exc':
        return 'exc', f'{type(e).__name__}: {e}'
    if type(e) is not Atom:
        return 'other', repr(e)
    return 'atom', look(e)


def other_object(path, n):
    with open(path, 'wb') as f:
        from atomtoolkit import Q_
        from atomtoolkit.atom import Atom, EnergyLevel, Term
        t, l = Term('5s', '2S', '1/2'), Q_(1, 'THz')
        atom = Atom('other', I=.5, levels=[EnergyLevel(t, l)])
        pickle.dump(['not an atom', {'levels': 3}, None, 5, atom.levels, atom.transitions, atom.levels[0], t, [atom], l,
                     {'name': 'x', 'levels': atom.levels}][n % 11], f)


def execute(case, ctx):
    z = Zygote()
    try:
        return run(case, ctx, z)
    finally:
        z.close()


def run(case, ctx, z):
    root = os.path.join(ctx.scratch, 'data')
    log = os.path.join(ctx.scratch, 'log')
    os.makedirs(os.path.join(root, 'sub'))
    os.chdir(root)
    os.symlink('sub/target.atom', 'lnk.atom')
    w = World(ctx.scratch)
    files = {}      # path -> (bytes, observation, pickled model) of the version that must be there
    bystander = os.path.join(root, 'bystander.atom')
    with open(bystander, 'wb') as f:
        f.write(b'another file')

    def judge(path, new, st, i, what):
        """what is at path now: the old version, or the new one -> 'old' | 'new'"""
        old = files.get(path)
        real = os.path.realpath(path)
        if not os.path.exists(real):
            if old:
                raise Violation('destroyed', f'step {i}: {what}: the file saved before is gone')
            if st == 'ok':
                raise Violation('lost', f'step {i}: {what}: the save returned but there is no file')
            return 'old'
        with open(real, 'rb') as f:
            b = f.read()
        if old and b == old[0] and st != 'ok':
            return 'old'
        k, obs = unwrap(z.call(load, path, log + '.z'))
        if k != 'atom':
            raise Violation('destroyed', f'step {i}: {what}: afterwards the file ({len(b)} bytes) does not load: {obs}' +
                            (f' (before, it held a saved atom, {len(old[0])} bytes)' if old else ''))
        d = diff(new, obs, ordered=True)
        if not d:
            files[path] = (b, new, pickle.dumps(w.model))
            return 'new'
        if old and st != 'ok' and not diff(old[1], obs, ordered=True):
            return 'old'
        raise Violation('mixed', f'step {i}: {what}: afterwards the file holds neither the previous nor the new atom: {d}')

    for i, op in enumerate(case['ops']):
        if op['op'] != 'persist':
            w.step(op)
            continue
        if 0 not in w.real:
            continue
        f = op['fault']
        atom = w.real[0]
        path = os.path.join(root, op['name'] if op['name'].endswith('.atom') else op['name'] + '.atom')
        given = os.path.join(root, op['name']) if op['abs'] else op['name']
        if f['kind'] == 'power' and op['name'] == 'lnk':
            f = {'kind': 'plain'}
        before = forked(look, atom)
        what = f"saving as {given!r} with {f}"
        existed = path in files
        if f['kind'] == 'unpicklable':
            atom.note = lambda: 0
            try:
                atom.save(given)
                st, e = 'ok', None
            except Exception as x:
                st, e = 'failed', x
            del atom.note
            ctx.fault('attribute that cannot be pickled')
        else:
            st, e = attempt(lambda: atom.save(given), f, root, ctx, log)
        ctx.log(i, st, type(e).__name__)
        if f['kind'] == 'plain' and st != 'ok':
            raise Violation('save-failed', f'step {i}: {what}: {e!r}')
        others = {p: v[0] for p, v in files.items() if p != path}
        v = judge(path, before, st, i, what)
        ctx.state(f['kind'], st, v, existed)
        ctx.nontrivial |= existed and f['kind'] != 'plain'
        for p, b in list(others.items()) + [(bystander, b'another file')]:
            with open(os.path.realpath(p), 'rb') as h:
                if h.read() != b:
                    raise Violation('other-file', f'step {i}: {what} changed {os.path.basename(p)}')
        if st == 'failed':
            ctx.probe('save raised')
            d = diff(before, forked(look, atom), ordered=True)
            if d:
                raise Violation('memory', f'step {i}: {what} changed the atom: {d}')
            if op['retry']:
                try:
                    atom.save(given)
                except Exception as x:
                    raise Violation('retry', f'step {i}: {what}; saving again without a fault fails: {x!r}')
                judge(path, before, 'ok', i, what + ', then again without a fault')
        if 'cut' in op and path in files:
            b = files[path][0]
            n = min(int(op['cut'] * len(b)), len(b) - 1)
            p = os.path.join(root, 'cut.atom')
            with open(p, 'wb') as h:
                h.write(b[:n])
            k, obs = unwrap(z.call(load, p, log + '.z'))
            ctx.fault('truncated file')
            with open(p, 'rb') as h:
                if h.read() != b[:n]:
                    raise Violation('load-writes', 'loading changed the file')
            if k != 'exc':
                raise Violation('truncated', f'step {i}: a file cut to {n} of {len(b)} bytes loads as an atom')
            other_object(p, n)
            k, obs = unwrap(z.call(load, p, log + '.z'))
            if k != 'exc':
                raise Violation('not-an-atom', f'step {i}: a file that holds something else than an atom loads without an error')
            os.unlink(p)
        if st == 'dead' and op['restart'] and path in files:
            from atomtoolkit.atom import Atom
            w.real[0] = Atom.load(path)
            w.model = pickle.loads(files[path][2])
            w.forget(0, lambda c: True)
            ctx.fault('restart')
    # at the end everything acknowledged is still there
    for p, (b, obs, _) in files.items():
        with open(os.path.realpath(p), 'rb') as h:
            if h.read() != b:
                raise Violation('destroyed', f'at the end {os.path.basename(p)} is not what was last found there')
    return None
