"""Processes that differ in what a script must not depend on: hash seed and memory layout.  Each is a fresh interpreter
(address randomisation off) that answers requests over a Unix socket, every request in a fork of its pristine self.
    python -m sim.server SOCKET LAYOUT"""
import ctypes
import gc
import importlib
import os
import pickle
import signal
import socket
import subprocess
import sys
import time
import traceback
import types

from . import env
from .proc import Outcome

_servers = {}


def _fixed_addresses():
    ctypes.CDLL(None).personality(0x0040000)     # ADDR_NO_RANDOMIZE, for the program executed next


def start(hashseeds):
    """starts (once) a server for each hash seed"""
    import atexit
    root = env.scratch_root()
    me = os.getpid()
    for h in hashseeds:
        if h in _servers:
            continue
        path = os.path.join(root, f'server-{h}.sock')
        e = dict(os.environ, PYTHONHASHSEED=str(h))
        p = subprocess.Popen([sys.executable, '-m', 'sim.server', path, str(h)], cwd=env.VERIF, env=e, stdin=subprocess.DEVNULL,
                             preexec_fn=_fixed_addresses)
        _servers[h] = (p, path)

    def stop():
        if os.getpid() == me:
            for p, _ in _servers.values():
                p.kill()
                p.wait()
    atexit.register(stop)


def call(h, module, function, args, timeout=50):
    """function(*args) in a fork of the server with hash seed h -> Outcome"""
    p, path = _servers[h]
    end = time.monotonic() + 60
    while True:
        s = socket.socket(socket.AF_UNIX)
        try:
            s.connect(path)
            break
        except OSError:
            s.close()
            if time.monotonic() > end:
                raise env.HarnessError(f'the server with hash seed {h} does not answer')
            time.sleep(.05)
    s.settimeout(timeout)
    try:
        d = pickle.dumps((module, function, args))
        s.sendall(len(d).to_bytes(8, 'little') + d)
        buf = b''
        while True:
            x = s.recv(1 << 16)
            if not x:
                break
            buf += x
    except socket.timeout:
        return Outcome('hang')
    finally:
        s.close()
    if len(buf) < 8 or len(buf) < 8 + int.from_bytes(buf[:8], 'little'):
        return Outcome('died')
    return Outcome(*pickle.loads(buf[8:]))


def _recv(c, n):
    out = b''
    while len(out) < n:
        d = c.recv(n - len(out))
        if not d:
            os._exit(1)
        out += d
    return out


def serve(path, layout):
    keep = [bytearray(17 * i % 400 + 1) for i in range(layout * 13 % 97)] + [object() for _ in range(layout * 7 % 61)]
    env.bootstrap()
    env.prewarm()
    import matplotlib.pyplot        # noqa
    import atomtoolkit.render.grotrian  # noqa
    keep += [types.SimpleNamespace() for _ in range(layout * 29 % 31)]
    gc.collect()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    parent = os.getppid()
    srv.settimeout(5)
    while True:
        try:
            c, _ = srv.accept()
        except socket.timeout:
            if os.getppid() != parent:
                os._exit(0)
            continue
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                srv.close()
                c.settimeout(None)
                n = int.from_bytes(_recv(c, 8), 'little')
                m, fn, args = pickle.loads(_recv(c, n))
                signal.alarm(55)
                try:
                    out = ('ok', getattr(importlib.import_module(m), fn)(*args))
                except BaseException as e:
                    out = ('exc', [type(e).__name__, str(e)[:2000], traceback.format_exc()[-6000:], getattr(e, 'cls', None), None])
                d = pickle.dumps(out)
                c.sendall(len(d).to_bytes(8, 'little') + d)
                c.shutdown(socket.SHUT_WR)
                c.close()
            finally:
                os._exit(0)
        c.close()


if __name__ == '__main__':
    serve(sys.argv[1], int(sys.argv[2]))
