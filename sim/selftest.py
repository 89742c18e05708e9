"""Determinism of the simulator itself:  ./run selftest [C05 C08 ...] [-n runs] [--seed N]

Every check is run several times in fresh processes, with other numbers of workers, on a loaded machine and with another
PYTHONHASHSEED; the digest of each run's event log (every operation, fault, interleaving and verdict) must be the same.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

from . import core, env

CONFIGS = [('8 workers', 8, '0', False), ('again', 8, '0', False), ('3 workers, loaded machine', 3, '0', True),
           ('other hash seed', 5, '4242', False)]


def digests(pid, n, seed, workers, out):
    """of runs 0..n-1"""
    mod = core.load_check(pid)
    env.bootstrap(threads=getattr(mod, 'THREADS', False))
    if getattr(mod, 'PREWARM', True):
        env.prewarm()
    if hasattr(mod, 'setup'):
        mod.setup()
    if hasattr(mod, 'batch'):
        tot = mod.batch(n, seed, 'quick', workers)
    else:
        tot = core.batch(mod, n, seed, 'quick', workers)
    with open(out, 'w') as f:
        json.dump({'digests': tot['digests'], 'viol': [v['run'] for v in tot['viol']], 'faults': tot['faults']}, f)


def main(args, tier, seed, n, workers):
    if args[1:2] == ['digests']:
        digests(args[2], n, seed, workers, args[3])
        return 0
    pids = [a.upper() for a in args[1:]] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(env.VERIF, 'sim', 'checks'))
                                                   if f.startswith('c') and f[1:3].isdigit())
    n = n or 120
    bad = 0
    with tempfile.TemporaryDirectory(prefix='atsim-self-') as tmp:
        for pid in pids:
            ref, notes = None, []
            for name, w, hs, load in CONFIGS:
                out = os.path.join(tmp, 'd.json')
                burn = [subprocess.Popen([sys.executable, '-c', 'while True: pass']) for _ in range(8)] if load else []
                try:
                    p = subprocess.run([os.path.join(env.VERIF, 'run'), 'selftest', 'digests', pid, out, '-n', str(n), '-j', str(w),
                                        '--seed', str(seed)], env=dict(os.environ, SIM_HASHSEED=hs), capture_output=True, text=True)
                finally:
                    for b in burn:
                        b.kill()
                        b.wait()
                if p.returncode:
                    raise env.HarnessError(f'{pid}: {p.stdout[-500:]}{p.stderr[-1500:]}')
                with open(out) as f:
                    d = json.load(f)
                if ref is None:
                    ref = d
                    continue
                diff = [i for i in ref['digests'] if d['digests'].get(i) != ref['digests'][i]]
                if diff or d['viol'] != ref['viol']:
                    notes.append(f'{name}: {len(diff)} runs differ, first {diff[:5]}')
            h = hashlib.sha256(json.dumps(sorted(ref['digests'].items())).encode()).hexdigest()[:12]
            print(f'{pid}: {len(ref["digests"])} runs x {len(CONFIGS)}, digest {h}: {"; ".join(notes) or "identical"}', flush=True)
            bad += bool(notes)
    return 1 if bad else 0
