"""Shared by C02 and C03: one trial of writing a file under one fault, judged from what a pristine process finds afterwards."""
import errno
import os
import shutil

from .common import *
from .. import disk, points
from ..proc import in_child

KINDS = ['errno', 'errno', 'crash', 'crash', 'power', 'power', 'interrupt', 'interrupt', 'die', 'plain']
TEARS = ['lost', 'lost', 'half', 'zeros', 'kept']


def trial_spec(rng):
    """a fault for one write of a file"""
    kind = rng.choice(KINDS)
    f = {'kind': kind}
    if kind == 'errno':
        f.update(k=rng.choice([0.0, .999, round(rng.random(), 4), round(rng.random(), 4)]),
                 err=rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EACCES', 'EROFS']), sticky=rng.random() < .5,
                 short=rng.choice([None, None, 1, 1000]))
    elif kind == 'crash':
        f.update(k=rng.choice([0.0, .999, round(rng.random(), 4), round(rng.random(), 4)]), at=rng.choice(['BEFORE', 'MID', 'AFTER', 'AFTER']))
    elif kind == 'power':
        f.update(k=rng.choice([1.0, 1.0, round(rng.random(), 4)]), meta=rng.choice([0.0, 1.0, 1.0, round(rng.random(), 3)]),
                 tear=rng.choice(TEARS))
    elif kind == 'interrupt':
        f.update(points.spec(rng))
    return f


def undone(fn, root):
    """fn() in a fork, with its effects on root undone"""
    cwd = os.getcwd()
    keep = root + '.keep'
    shutil.copytree(root, keep, symlinks=True)
    o = in_child(fn, timeout=50)
    disk.restore(root, keep)
    os.chdir(cwd)
    return o


def attempt(write, f, root, ctx, log):
    """write() under fault f.  -> ('ok'|'failed'|'dead', exception or None, trees) where trees are the states of the disk that may
    be found afterwards ({path: bytes}); the first is the present one"""
    D = disk.Disk(root, log)
    kind = f['kind']
    if kind == 'plain':
        r, e = D.call(write)
        return ('ok' if r == 'ok' else 'failed'), e
    if kind == 'errno':
        o = undone(lambda: D.call(write)[0], root)
        ops = [x for x in D.log() if x.type < disk.OPENR]
        if not ops:
            raise Violation('no-write', f'writing makes no file operation: {o!r}')
        op = ops[min(int(f['k'] * len(ops)), len(ops) - 1)]
        faults = [(0, op.k, disk.ERRNO, disk.ERRS[f['err']], int(f['sticky']))]
        if f['short'] and op.type == disk.WRITE:     # a short write first, then the error
            faults = [(0, op.k, disk.SHORT, f['short'], 0), (0, op.k + 1, disk.ERRNO, disk.ERRS[f['err']], int(f['sticky']))]
        r, e = D.call(write, faults)
        if any(D.fired.values()):
            ctx.fault(f['err'] + (' from here on' if f['sticky'] else ''))
            ctx.state('errno', disk.NAMES[op.type], f['err'], r)
        return ('ok' if r == 'ok' else 'failed'), e
    if kind == 'interrupt':
        c = points.Count()
        def counted():
            c.run(write)
            return [points.site(*s) for s in c.sites]
        o = undone(counted, root)
        if o.kind != 'ok':
            raise Violation('save-failed', f'an undisturbed write {o.kind} {o.value!r:.300}')
        k = points.choose(o.value, f)
        inj = points.Inject(k, f['exc'])
        try:
            r, _ = inj.run(write)
        except Exception as e:
            r, _ = 'other', e
            if not inj.fired:
                raise
        if inj.fired:
            ctx.fault(f['exc'])
            ctx.state(inj.fired)
        ctx.log('interrupt', inj.fired, r)
        return ('ok' if r == 'done' else 'failed'), None
    # the process dies
    if kind == 'crash':
        o = undone(lambda: D.call(write)[0], root)
        ops = [x for x in D.log() if x.type < disk.OPENR]
        if not ops:
            raise Violation('no-write', f'writing makes no file operation: {o!r}')
        op = ops[min(int(f['k'] * len(ops)), len(ops) - 1)]
        act = {'BEFORE': disk.CRASH_BEFORE, 'MID': disk.CRASH_MID, 'AFTER': disk.CRASH_AFTER}[f['at']]
        o = in_child(lambda: D.call(write, [(0, op.k, act, 0, 0)])[0], timeout=50)
        if o.kind == 'crash':
            ctx.fault('process crash')
            ctx.state('crash', disk.NAMES[op.type], f['at'])
            return 'dead', None
        if o.kind != 'ok' or o.value != 'ok':
            raise Violation('save-failed', f'an undisturbed write {o.kind} {o.value!r:.300}')
        return 'ok', None
    if kind == 'die':
        def die():
            write()
            os._exit(disk_exit)
        disk_exit = 77
        o = in_child(die, timeout=50)
        if o.kind != 'crash':
            raise Violation('save-failed', f'an undisturbed write {o.kind} {o.value!r:.300}')
        ctx.fault('process death after return')
        return 'ok', None
    if kind == 'power':
        before = disk.snapshot(root)
        def body():
            r = D.call(write)[0]
            return r
        o = in_child(body, timeout=50)
        if o.kind != 'ok' or o.value != 'ok':
            raise Violation('save-failed', f'an undisturbed write {o.kind} {o.value!r:.300}')
        ops = [x for x in D.log() if x.type < disk.OPENR]
        cut = min(int(f['k'] * (len(ops) + 1)), len(ops))
        dirs = [d for d, _, _ in os.walk(root)]
        links = [(p, os.readlink(p)) for d, _, fs in os.walk(root) for p in (os.path.join(d, x) for x in fs) if os.path.islink(p)]
        cwd = os.getcwd()
        disk.write_tree(root, disk.power_loss(before, ops, cut, f['meta'], f['tear']))
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        for p, t in links:
            os.symlink(t, p)
        os.chdir(cwd)
        ctx.fault('power loss')
        ctx.state('power', cut, disk.NAMES[ops[cut - 1].type] if cut else None, f['meta'] > 0, f['tear'])
        return 'dead', None
    raise ValueError(kind)
