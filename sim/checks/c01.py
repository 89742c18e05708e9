"""C01: a saved atom survives a restart unchanged."""
import pickle

from .common import *
from .. import disk, fresh
from ..gen import Gen
from ..interrupt import forked
from ..observe import observe, diff, coherent
from ..proc import in_child

ID = 'C01'
QUICK, THOROUGH = 900, 40000
RULE = ('a seeded edit and read history with 1-3 saves in it; every saved file is loaded by a restarted process (a fork of a '
        'process that never saw the atom, sometimes a fresh interpreter), observed, and edited further in step with the original; '
        'short and interrupted transfers in half of the runs; non-trivial: at least two edits before a save and one after it')
STATES = 'distinct abstract states (spin, field, rounded level energies and coefficients, transition set) that were saved'
REAL = [REAL_LIB, 'pickle, the file system']
STUB = ['disk seam (LD_PRELOAD): splits and interrupts reads and writes']
ASSUMPTIONS = ['the file name is given as a string',
               'the loading process runs the same version of the library']

EDITS = ['add_level', 'add_trans', 'add_trans_new', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_gF', 'set_B', 'set_A', 'set_subA',
         'set_freq', 'alias_op', 'delete', 'reload']
NAMES = ['x', 'x.atom', 'yb171', 'run 3', 'a.b', 'my.atom.bak', 'X.ATOM', 'v1.2/x', 'v1.2/x.atom', 'old.atom/x', 'atom', 'yatom',
         './x', './v1.2/y.z', '.atom', 'Yb+', 'Tm-II.2024-01-01', 'x.at', 'x.pkl', None]


def generate(rng, tier):
    g = Gen(rng, big=rng.choice([0, 0, 0, .5]), tinyA=rng.choice([0, .2]), upset=rng.choice([0, 0, .4]), max_levels=rng.choice([2, 3, 4, 5]), loops='any')
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([0, 1, 2]), ctor_levels=rng.choice([0, 0, 0, 1]))
    w = g.swarm(EDITS)
    n_saves = rng.choice([1, 1, 2, 3])
    for i in range(n_saves):
        g.history(rng.randint(1, 9), w, reads=rng.choice([0, .3, .6]),
                  whats=['lookup', 'lookup', 'levelinfo', 'transinfo', 'linked', 'linked_sub', 'branching', 'observe'])
        p = {'op': 'persist', 'a': 0, 'name': rng.choice(NAMES if i == 0 or rng.random() < .7 else ['x', 'x.atom']),
             'abs': rng.random() < .3, 'junk': rng.random() < .2, 'how': rng.choice(['fork', 'fork', 'fork', 'fresh' if rng.random() < .06 else 'fork'])}
        if rng.random() < .3:
            p['twice'] = rng.choice(['before', 'after'])
        if rng.random() < .5:
            p['faults'] = [disk.benign(rng, rng.choice([0, 1, 1])) for _ in range(rng.randint(1, 6))]
        g.ops.append(p)
    g.history(rng.randint(1, 6), w, reads=.2, whats=['lookup', 'levelinfo', 'transinfo'])
    return {'ops': g.ops}


def expected_path(name, atom_name):
    name = atom_name if name is None else name
    return name if name.endswith('.atom') else name + '.atom'


def look(atom):
    c = coherent(atom)
    if c:
        raise Violation('incoherent', c)
    return observe(atom, 2, 1)


def original(case, scratch):
    """the first process: history, saves; returns what it saw"""
    import os
    root = os.path.join(scratch, 'data')
    for d in ('v1.2', 'old.atom'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    os.chdir(root)
    w = World(scratch)
    recs, logs, fired = [], [], {'short or interrupted write': 0}
    D = disk.Disk(root, os.path.join(scratch, 'log'))
    for i, op in enumerate(case['ops']):
        if op['op'] != 'persist':
            logs.append(w.step(op))
            continue
        if 0 not in w.real:
            continue
        rel = expected_path(op['name'], w.real[0].name)
        path = os.path.normpath(os.path.join(root, rel))
        given = op['name']
        if op['abs'] and given is not None:
            given = os.path.join(root, given)
        if op['junk']:
            with open(path, 'wb') as f:
                f.write(b'junk' * 50000)
        before = set(disk.snapshot(root))
        faults = []
        mine = [f for f in op.get('faults', ()) if f['cls'] == 0]
        if mine:
            _, mut, _ = disk.count(lambda: w.real[0].save(given), root, os.path.join(scratch, 'log2'))
            os.chdir(root)
            faults = disk.benign_faults(mine, None, {0: [o.k for o in mut if o.type == disk.WRITE]})
        r, e = D.call(lambda: w.real[0].save(given), faults)
        if r == 'exc':
            raise Violation('save-failed', f'step {i}: saving as {given!r} with split or interrupted writes fails: {e!r}')
        if faults:
            fired['short or interrupted write'] += sum(D.fired.values())
        after = set(disk.snapshot(root))
        if after - before - {path} or path not in after:
            raise Violation('file-name', f'step {i}: saving as {given!r} makes {sorted(after - before)}, expected {path}')
        recs.append((i, path, forked(look, w.real[0]), pickle.dumps(w.model), model_state(w.model[0])))
    final = forked(look, w.real[0]) if w.real else None
    return recs, final, [x for x in logs], fired


def restarted(ops, i, path, model, faults, twice, scratch):
    """a later process: load, look, edit on"""
    import os
    from atomtoolkit.atom import Atom
    w = World(scratch)
    w.model = pickle.loads(model)
    root = os.path.dirname(os.path.abspath(path))
    D = disk.Disk(root, os.path.join(scratch, f'log-load-{i}'))
    sh = []
    if faults:
        D.call(lambda: Atom.load(path))
        sh = disk.benign_faults(faults, None, {1: [o.k for o in D.log() if o.type == disk.READ]})
    r, e = D.call(lambda: Atom.load(path), sh)
    if r == 'exc':
        raise Violation('load-failed', f'loading {os.path.basename(path)} {"with split or interrupted reads " if sh else ""}fails: {e!r}')
    w.real[0] = e
    if any(o.type < disk.OPENR and o.type != disk.CLOSE for o in D.log()):
        raise Violation('load-writes', f'loading writes: {[o for o in D.log() if o.type < disk.OPENR]}')
    seen = forked(look, w.real[0])
    twin = Atom.load(path) if twice == 'before' else None      # atoms loaded from one file have nothing in common
    for op in ops[i + 1:]:
        if op['op'] not in ('persist', 'read'):
            w.step(op)
    if twice:
        d = diff(seen, look(twin or Atom.load(path)), ordered=True)
        if d:
            raise Violation('shared', f'{os.path.basename(path)} loaded a second time, {twice} the first atom was edited: {d}')
    return seen, look(w.real[0]), sum(D.fired.values()) if sh else 0


def execute(case, ctx):
    import os
    o = in_child(original, case, ctx.scratch)
    recs, final, logs, fired = unwrap(o)
    for k, v in fired.items():
        ctx.fault(k, v)
    ctx.log(logs)
    os.chdir(os.path.join(ctx.scratch, 'data'))
    last = {}
    for r in recs:
        last[r[1]] = r
    for i, path, obs, model, st in recs:
        ctx.state(st)
        if last[path][0] != i:
            continue
        op = case['ops'][i]
        reads = [f for f in op.get('faults', ()) if f['cls'] == 1]
        with open(path, 'rb') as f:
            before = f.read()
        if op['how'] == 'fresh':
            o = fresh.run('sim.checks.c01', 'restarted', (case['ops'], i, path, model, reads, op.get('twice'), ctx.scratch))
            ctx.probe('loaded by a fresh interpreter')
        else:
            o = in_child(restarted, case['ops'], i, path, model, reads, op.get('twice'), ctx.scratch)
        seen, end, n = unwrap(o)
        ctx.fault('restart')
        ctx.fault('short or interrupted read', n)
        ctx.log(seen)
        d = diff(obs, seen, ordered=True)
        if d:
            raise Violation('loaded-differs', f'saved at step {i}, the loaded atom differs: {d}')
        d = diff(final, end, ordered=True)
        if d:
            raise Violation('later-edits-differ', f'saved at step {i}, the loaded atom responds differently to the later edits: {d}')
        with open(path, 'rb') as f:
            if f.read() != before:
                raise Violation('load-writes', 'loading changed the file')
    ctx.nontrivial = len(recs) > 0 and len([o for o in case['ops'][:recs[-1][0]] if o['op'] not in ('read', 'persist')]) >= 2
    return None


def unwrap(o):
    if o.kind == 'ok':
        return o.value
    if o.kind == 'exc':
        t, text, tb, cls, _ = o.value
        if t == 'Violation':
            raise Violation(cls, text)
        if t == 'HarnessError':
            from ..env import HarnessError
            raise HarnessError(text)
        where = [l.strip() for l in tb.splitlines() if '/atomtoolkit/' in l] or [l.strip() for l in tb.splitlines() if 'File' in l]
        raise Violation('unexpected-exception', f'{t}: {text} ({where[-1]})')
    raise Violation(o.kind, f'a simulated process {o.kind} {o.value}')
