"""A fresh interpreter as a simulated process:  python -m sim.fresh module function in.pickle out.pickle"""
import importlib
import os
import pickle
import subprocess
import sys
import traceback

from . import env


def run(module, function, args, hashseed=None, scratch=None, timeout=120):
    """function(*args) in a fresh interpreter -> Outcome"""
    from .proc import Outcome
    scratch = scratch or env.scratch_root()
    base = os.path.join(scratch, f'fresh-{os.getpid()}-{run.n}')
    run.n += 1
    with open(base + '.in', 'wb') as f:
        pickle.dump(args, f)
    e = dict(os.environ)
    if hashseed is not None:
        e['PYTHONHASHSEED'] = str(hashseed)
    p = subprocess.run([sys.executable, '-m', 'sim.fresh', module, function, base + '.in', base + '.out'], cwd=env.VERIF, env=e,
                       capture_output=True, text=True, timeout=timeout)
    try:
        with open(base + '.out', 'rb') as f:
            return Outcome(*pickle.load(f))
    except FileNotFoundError:
        if p.returncode == 77:
            return Outcome('crash')
        return Outcome('died', (p.returncode, p.stderr[-500:]))
    finally:
        for x in ('.in', '.out'):
            if os.path.exists(base + x):
                os.unlink(base + x)


run.n = 0

if __name__ == '__main__':
    m, fn, src, dst = sys.argv[1:]
    env.bootstrap()
    with open(src, 'rb') as f:
        args = pickle.load(f)
    try:
        out = ('ok', getattr(importlib.import_module(m), fn)(*args))
    except BaseException as ex:
        out = ('exc', [type(ex).__name__, str(ex)[:2000], traceback.format_exc()[-6000:], getattr(ex, 'cls', None), None])
    with open(dst + '.tmp', 'wb') as f:
        pickle.dump(out, f)
    os.rename(dst + '.tmp', dst)
