"""Child processes: every simulated process is a fork of a pristine parent, observed through a pipe."""
import os
import pickle
import select
import signal
import sys
import time
import traceback

CRASH = 77


class Outcome:
    """kind: ok (value), exc (value = [type, text, traceback]), crash (simulated), died (status), hang"""
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f'<{self.kind} {self.value!r:.200}>'


def in_child(fn, *args, timeout=60.0, group=False):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            if group:
                os.setpgid(0, 0)
            try:
                out = ('ok', fn(*args))
            except BaseException as e:
                out = ('exc', [type(e).__name__, str(e)[:2000], traceback.format_exc()[-6000:],
                               getattr(e, 'cls', None), getattr(e, 'detail', None)])
            data = pickle.dumps(out)
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, end = [], time.monotonic() + timeout
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf.append(d)
    os.close(r)
    if hang:
        for p in ((-pid, pid) if group else (pid,)):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    if hang:
        return Outcome('hang')
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH:
        return Outcome('crash')
    if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
        return Outcome('died', st)
    kind, value = pickle.loads(b''.join(buf))
    return Outcome(kind, value)


class Zygote:
    """a pristine process, forked before anything happens, that runs functions in forks of itself: the restarted process"""
    def __init__(self):
        self.req_r, self.req_w = os.pipe()
        self.res_r, self.res_w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.req_w)
                os.close(self.res_r)
                while True:
                    head = _read(self.req_r, 8)
                    if not head:
                        break
                    fn, args = pickle.loads(_read(self.req_r, int.from_bytes(head, 'little')))
                    o = in_child(fn, *args, timeout=50)
                    d = pickle.dumps((o.kind, o.value))
                    _write(self.res_w, len(d).to_bytes(8, 'little') + d)
            finally:
                os._exit(0)
        os.close(self.req_r)
        os.close(self.res_w)

    def call(self, fn, *args):
        d = pickle.dumps((fn, args))
        _write(self.req_w, len(d).to_bytes(8, 'little') + d)
        n = int.from_bytes(_read(self.res_r, 8), 'little')
        return Outcome(*pickle.loads(_read(self.res_r, n)))

    def close(self):
        os.close(self.req_w)
        os.close(self.res_r)
        os.waitpid(self.pid, 0)


def _read(fd, n):
    out = b''
    while len(out) < n:
        d = os.read(fd, n - len(out))
        if not d:
            return b''
        out += d
    return out


def _write(fd, data):
    while data:
        data = data[os.write(fd, data):]
