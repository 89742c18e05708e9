"""The simulated disk: faults at numbered file operations below a directory, the log of operations, and what a power loss
at some operation leaves of them."""
import ctypes
import errno
import os
import shutil
import struct

from .env import HarnessError
from .proc import in_child

OPEN, WRITE, FSYNC, CLOSE, RENAME, UNLINK, LINK, TRUNC, CHMOD, MKDIR, RMDIR, SYMLINK, OPENR, READ = range(1, 15)
ERRNO, SHORT, CRASH_BEFORE, CRASH_MID, CRASH_AFTER = range(1, 6)
NAMES = {OPEN: 'open', WRITE: 'write', FSYNC: 'fsync', CLOSE: 'close', RENAME: 'rename', UNLINK: 'unlink', LINK: 'link',
         TRUNC: 'truncate', CHMOD: 'chmod', MKDIR: 'mkdir', RMDIR: 'rmdir', SYMLINK: 'symlink', OPENR: 'open for reading',
         READ: 'read'}
_lib = None


def lib():
    global _lib
    if _lib is None:
        p = os.environ.get('DISKSHIM')
        if not p or 'diskshim' not in os.environ.get('LD_PRELOAD', ''):
            raise HarnessError('the disk seam is not loaded (start through ./run)')
        _lib = ctypes.CDLL(p)
    return _lib


class Op:
    __slots__ = ('type', 'fd', 'flags', 'result', 'err', 'off', 'k', 'p1', 'p2', 'data')

    def __repr__(self):
        return f'{NAMES[self.type]}({self.p1 or self.fd}{" -> " + self.p2 if self.p2 else ""})={self.result}'


def parse(raw):
    out, i = [], 0
    size = struct.calcsize('<B3xiiii4xqIIII')
    while i + size <= len(raw):
        o = Op()
        o.type, o.fd, o.flags, o.result, o.err, o.off, n1, n2, nd, o.k = struct.unpack_from('<B3xiiii4xqIIII', raw, i)
        i += size
        o.p1 = raw[i:i + n1].decode(errors='surrogateescape'); i += n1
        o.p2 = raw[i:i + n2].decode(errors='surrogateescape'); i += n2
        o.data = raw[i:i + nd]; i += nd
        out.append(o)
    return out


class Disk:
    """arms the seam for the calls of this process below root"""
    def __init__(self, root, logpath):
        self.root, self.logpath = root, logpath
        self.fd = None

    def arm(self, faults=()):
        """faults: (class 0 mutating / 1 reading, k, action, value, sticky)"""
        self.fd = os.open(self.logpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        lib().ds_arm(self.root.encode(), self.fd)
        for f in faults:
            lib().ds_fault(*f)

    def disarm(self):
        self.fired = {a: lib().ds_fired(a) for a in range(1, 6)}
        lib().ds_disarm()
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None

    def log(self):
        with open(self.logpath, 'rb') as f:
            return parse(f.read())

    def call(self, fn, faults=()):
        """fn() under faults -> ('ok', value) or ('exc', exception)"""
        self.arm(faults)
        try:
            return 'ok', fn()
        except Exception as e:
            return 'exc', e
        finally:
            self.disarm()


def count(fn, root, logpath):
    """the file operations of fn(), from a fork whose effects on root are undone"""
    keep = root + '.keep'
    shutil.copytree(root, keep, symlinks=True)
    d = Disk(root, logpath)
    o = in_child(lambda: d.call(fn)[0])
    restore(root, keep)
    ops = d.log()
    return o, [x for x in ops if x.type < OPENR], [x for x in ops if x.type >= OPENR]


def restore(root, keep):
    shutil.rmtree(root)
    os.rename(keep, root)


def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            with open(p, 'rb') as h:
                out[p] = h.read()
    return out


def write_tree(root, files):
    shutil.rmtree(root)
    os.makedirs(root)
    for p, b in files.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as h:
            h.write(b)


def power_loss(before, ops, cut, meta, tear):
    """what a power loss after ops[:cut] leaves.  Metadata operations (create, truncate, rename, unlink) reach the disk in
    order, up to a point chosen by meta (0..1) between the last fsync and the cut; data that was not synced is lost, kept,
    cut in half or zero-filled as tear says."""
    inode, content, names = {}, {}, {}
    n = 0
    for p, b in before.items():
        names[p] = n
        content[n] = b
        n += 1
    ops = [o for o in ops[:cut] if o.result >= 0 or (o.type == CLOSE)]
    last = max((i for i, o in enumerate(ops) if o.type == FSYNC), default=-1) + 1
    m = last + round(meta * (len(ops) - last))
    # first pass over everything that happened: which write belongs to which inode, and what is synced when
    cur, fds, data = dict(names), {}, {}
    new = {}
    for i, o in enumerate(ops):
        if o.type == OPEN:
            if o.p1 not in cur:
                cur[o.p1] = n
                new[i] = n
                content[n] = b''
                n += 1
            fds[o.fd] = cur[o.p1]
        elif o.type == WRITE:
            data.setdefault(fds.get(o.fd), []).append([i, o.off, o.data, False])
        elif o.type == FSYNC:
            for w in data.get(fds.get(o.fd), ()):
                w[3] = True
        elif o.type == RENAME and o.p1 in cur:
            cur[o.p2] = cur.pop(o.p1)
        elif o.type == UNLINK:
            cur.pop(o.p1, None)
        elif o.type == LINK and o.p1 in cur:
            cur[o.p2] = cur[o.p1]
    # second pass: metadata up to m
    disk, trunc = dict(names), {}
    for i, o in enumerate(ops[:m]):
        if o.type == OPEN:
            if i in new:
                disk[o.p1] = new[i]
            elif o.flags & os.O_TRUNC and o.p1 in disk:
                trunc[disk[o.p1]] = i
                content[disk[o.p1]] = b''
        elif o.type == TRUNC and o.p1 in disk:
            content[disk[o.p1]] = content[disk[o.p1]][:o.off]
        elif o.type == RENAME and o.p1 in disk:
            disk[o.p2] = disk.pop(o.p1)
        elif o.type == UNLINK:
            disk.pop(o.p1, None)
        elif o.type == LINK and o.p1 in disk:
            disk[o.p2] = disk[o.p1]
    out = {}
    for p, ino in disk.items():
        b = bytearray(content[ino])
        for i, off, d, synced in data.get(ino, ()):
            if i < trunc.get(ino, -1):
                continue
            if not synced:
                if tear == 'lost':
                    continue
                if tear == 'half':
                    d = d[:len(d) // 2]
                if tear == 'zeros':
                    d = bytes(len(d))
            if len(b) < off:
                b += bytes(off - len(b))
            b[off:off + len(d)] = d
        out[p] = bytes(b)
    return out


ERRS = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EDQUOT': errno.EDQUOT, 'EINTR': errno.EINTR, 'EACCES': errno.EACCES,
        'EROFS': errno.EROFS}


def benign(rng, cls):
    """a fault that the operating system may produce at any time and that must go unnoticed"""
    return {'cls': cls, 'k': round(rng.random(), 4), 'act': rng.choice(['SHORT', 'SHORT', 'EINTR']), 'val': rng.choice([1, 7, 100, 4097, 65537])}


def benign_faults(specs, nops, writes):
    """specs -> shim faults, given the number of operations per class (shortening and EINTR on data operations only)"""
    out = []
    for s in specs:
        w = writes[s['cls']]
        if not w:
            continue
        k = w[min(int(s['k'] * len(w)), len(w) - 1)]
        if s['act'] == 'EINTR':
            out.append((s['cls'], k, ERRNO, errno.EINTR, 0))
        else:
            out.append((s['cls'], k, SHORT, s['val'], 0))
    return out
