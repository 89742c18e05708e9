"""Runs, verdicts, minimisation, replay files and evidence.

run i of property P under seed S is  case = generate(Random(f'{S}:{P}:{i}'))  followed by  execute(case)  in a fork of a
pristine process.  execute() draws no random numbers, so the case is the replay file.
"""
import copy
import hashlib
import importlib
import json
import mmap
import os
import random
import shutil
import struct
import sys
import time
import traceback

from . import env
from .env import HarnessError, VERIF
from .proc import in_child

HANG_S = float(os.environ.get('SIM_HANG_S', '60'))


def load_check(pid):
    return importlib.import_module(f'sim.checks.{pid.lower()}')


class Ctx:
    """what one run may use and what it reports"""
    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = {}        # fault kind -> times it really happened
        self.probes = {}        # rare condition -> times reached
        self.states = set()     # fingerprints of states / interleavings reached
        self.events = []        # event log (its digest proves determinism)
        self.nontrivial = False
        self.sim_s = 0.0

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *x):
        self.states.add(hashlib.blake2b(repr(x).encode(), digest_size=6).hexdigest())

    def log(self, *x):
        self.events.append(x)

    def digest(self):
        return hashlib.sha256(repr(self.events).encode()).hexdigest()[:16]


def classify(exc_type, text, tb, cls, detail):
    """(class, message) of an exception that ended a run"""
    if exc_type == 'Violation':
        return cls, text
    frames = [l.strip() for l in tb.splitlines() if l.strip().startswith('File "')]
    where = ''
    for f in frames:
        if '/atomtoolkit/' in f and 'verif' not in f.split('/atomtoolkit/')[0].rsplit('/', 1)[-1]:
            where = f.split('in ')[-1]
    return f'unexpected-exception', f'{exc_type}: {text} (in {where or frames[-1].split("in ")[-1] if frames else "?"})'


def run_case(mod, case, timeout=None, keep_events=False):
    """executes one case in a child; returns a plain result dict"""
    scratch = os.path.join(env.scratch_root(), f'run-{os.getpid()}')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)

    def body():
        os.chdir(scratch)
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('SIM_DEBUG'):
            os.dup2(devnull, 2)
        ctx = Ctx(scratch)
        v = None
        try:
            v = mod.execute(case, ctx)
        except HarnessError:
            raise
        except MemoryError:
            raise
        except OSError as e:
            if e.errno in (23, 24, 12) or (e.errno == 28 and 'sim' in (e.strerror or '')):
                raise HarnessError(str(e))
            v = _v(e)
        except Exception as e:
            v = _v(e)
        ctx.log('verdict', v and v['class'])
        out = {'v': v, 'faults': ctx.faults, 'probes': ctx.probes, 'states': sorted(ctx.states), 'n': len(ctx.events),
               'digest': ctx.digest(), 'nontrivial': ctx.nontrivial, 'sim_s': ctx.sim_s}
        if keep_events:
            out['events'] = ctx.events[-400:]
        return out
    try:
        o = in_child(body, timeout=timeout or HANG_S, group=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if o.kind == 'ok':
        return o.value
    if o.kind in ('hang', 'died', 'crash'):
        return {'v': {'class': o.kind, 'msg': f'the run {o.kind} {o.value if o.value is not None else ""}'}, 'faults': {}, 'probes': {},
                'states': [], 'n': 0, 'digest': o.kind, 'nontrivial': False, 'sim_s': 0.0, 'abnormal': True}
    raise HarnessError(f'{o.value[0]}: {o.value[1]}\n{o.value[2]}')


def _v(e):
    tb = traceback.format_exc()
    cls, msg = classify(type(e).__name__, str(e), tb, getattr(e, 'cls', None), None)
    return {'class': cls, 'msg': msg[:1500], 'detail': getattr(e, 'detail', None) or {}, 'tb': tb[-1500:]}


def make_case(mod, seed, i, tier):
    rng = random.Random(f'{seed}:{mod.ID}:{i}')
    case = mod.generate(rng, tier)
    case.update(property=mod.ID, seed=seed, run=i)
    return json.loads(json.dumps(case))


# ---------------------------------------------------------------------- known findings
def known_findings(pid):
    """entries {"property", "signature", "what"} of findings that are recorded instead of repaired"""
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return [e for e in json.load(f)['findings'] if e['property'] == pid]
    except FileNotFoundError:
        return []


def match_known(entries, v):
    text = f"{v['class']}: {v['msg']}"
    for e in entries:
        if e['signature'] in text:
            return e
    return None


# ---------------------------------------------------------------------- batch
def worker(mod, w, W, n, seed, tier, stop, deadline, path, known):
    agg = {'runs': 0, 'nontrivial': [], 'faults': {}, 'probes': {}, 'states': set(), 'digests': {}, 'samples': [],
           'viol': [], 'known': {}, 'events': 0, 'sim_s': 0.0, 'timeout': False, 'error': None}
    try:
        for i in range(w, n, W):
            if struct.unpack('q', stop[:8])[0] < i:
                break
            if time.monotonic() > deadline:
                agg['timeout'] = True
                break
            case = make_case(mod, seed, i, tier)
            res = run_case(mod, case)
            if res.get('abnormal'):
                res = run_case(mod, case)
            agg['runs'] += 1
            agg['events'] += res['n']
            agg['sim_s'] += res['sim_s']
            for key in ('faults', 'probes'):
                for k, v in res[key].items():
                    agg[key][k] = agg[key].get(k, 0) + v
            agg['states'].update(res['states'])
            agg['digests'][i] = res['digest']
            if res['nontrivial']:
                agg['nontrivial'].append(hashlib.blake2b(json.dumps({k: v for k, v in case.items() if k not in ('seed', 'run')},
                                                                    sort_keys=True).encode(), digest_size=8).hexdigest())
            if i < 2:
                agg['samples'].append({'run': i, 'case': case, 'verdict': res['v'], 'faults': res['faults']})
            if res['v']:
                k = match_known(known, res['v'])
                if k:
                    agg['known'][k['signature']] = agg['known'].get(k['signature'], 0) + 1
                    continue
                agg['viol'].append({'run': i, 'case': case, 'v': res['v']})
                cur = struct.unpack('q', stop[:8])[0]
                if i < cur:
                    stop[:8] = struct.pack('q', i)
                break
    except HarnessError as e:
        agg['error'] = str(e)
    except BaseException:
        agg['error'] = traceback.format_exc()
    agg['states'] = sorted(agg['states'])
    with open(path, 'w') as f:
        json.dump(agg, f)


def batch(mod, n, seed, tier, workers=8, budget=600.0, known=()):
    """runs 0..n-1; returns merged statistics"""
    stop = mmap.mmap(-1, 8)
    stop[:8] = struct.pack('q', 1 << 60)
    deadline = time.monotonic() + budget
    pids, paths = [], []
    sys.stdout.flush()
    for w in range(workers):
        path = os.path.join(env.scratch_root(), f'agg-{w}.json')
        paths.append(path)
        pid = os.fork()
        if pid == 0:
            try:
                worker(mod, w, workers, n, seed, tier, stop, deadline, path, known)
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    tot = {'runs': 0, 'nontrivial': set(), 'faults': {}, 'probes': {}, 'states': set(), 'digests': {}, 'samples': [],
           'viol': [], 'known': {}, 'events': 0, 'sim_s': 0.0, 'timeout': False}
    for path in paths:
        try:
            with open(path) as f:
                a = json.load(f)
        except FileNotFoundError:
            raise HarnessError('a worker disappeared')
        if a['error']:
            raise HarnessError(a['error'])
        for k in ('runs', 'events', 'sim_s'):
            tot[k] += a[k]
        for key in ('faults', 'probes', 'known'):
            for k, v in a[key].items():
                tot[key][k] = tot[key].get(k, 0) + v
        tot['nontrivial'].update(a['nontrivial'])
        tot['states'].update(a['states'])
        tot['digests'].update({int(k): v for k, v in a['digests'].items()})
        tot['samples'] += a['samples']
        tot['viol'] += a['viol']
        tot['timeout'] |= a['timeout']
    tot['samples'].sort(key=lambda s: s['run'])
    tot['viol'].sort(key=lambda s: s['run'])
    return tot


# ---------------------------------------------------------------------- minimisation
def shrink(mod, case, v, budget=60.0):
    """drops ops and faults, simplifies numbers, as long as a violation of the same class remains"""
    cls = v['class']
    if cls in ('hang', 'died', 'crash'):
        return case, v, 0
    end = time.monotonic() + budget
    tries = [0]
    best = [case, v]

    def test(c):
        if time.monotonic() > end:
            return False
        tries[0] += 1
        try:
            r = run_case(mod, c, timeout=20)
        except HarnessError:
            return False
        if r['v'] and r['v']['class'] == cls:
            best[0], best[1] = c, r['v']
            return True
        return False

    def lists(c, path=()):
        for k in (sorted(c) if isinstance(c, dict) else range(len(c))):
            x = c[k]
            if isinstance(x, list) and path + (k,) not in done and k in getattr(mod, 'SHRINK', ('ops', 'faults', 'trials', 'rows', 'switches', 'reads', 'calls')):
                yield path + (k,)
            if isinstance(x, (dict, list)) and not (isinstance(x, list) and len(x) > 200):
                yield from lists(x, path + (k,))

    def get(c, path):
        for p in path:
            c = c[p]
        return c

    def put(c, path, val):
        c = copy.deepcopy(c)
        x = c
        for p in path[:-1]:
            x = x[p]
        x[path[-1]] = val
        return c

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        done = set()
        while True:
            path = next(iter(lists(best[0])), None)
            if path is None:
                break
            done.add(path)
            size = max(1, len(get(best[0], path)) // 2)
            while size >= 1:
                i = 0
                while i < len(get(best[0], path)):
                    cur = get(best[0], path)
                    cand = put(best[0], path, cur[:i] + cur[i + size:])
                    if cur[i:i + size] and test(cand):
                        changed = True
                    else:
                        i += size
                size //= 2
            if time.monotonic() > end:
                break
        if hasattr(mod, 'simplify'):
            for cand in mod.simplify(copy.deepcopy(best[0])):
                if cand != best[0] and test(cand):
                    changed = True
    return best[0], best[1], tries[0]


# ---------------------------------------------------------------------- a whole check
def check(pid, tier, seed, n=None, workers=None, out=sys.stdout):
    t0 = time.time()
    mod = load_check(pid)
    env.bootstrap(threads=getattr(mod, 'THREADS', False))
    if getattr(mod, 'PREWARM', True):
        env.prewarm()
    if hasattr(mod, 'setup'):
        mod.setup()
    known = known_findings(pid)
    n = n or (mod.THOROUGH if tier == 'thorough' else mod.QUICK)
    workers = workers or min(8, os.cpu_count() or 8)
    print(f'seed {seed} property {pid} tier {tier} runs {n} workers {workers}', file=out, flush=True)
    if hasattr(mod, 'batch'):
        tot = mod.batch(n, seed, tier, workers)
    else:
        tot = batch(mod, n, seed, tier, workers, budget=float(os.environ.get('SIM_BUDGET_S', 420 if tier == 'quick' else 3600)),
                    known=known)
    wall = time.time() - t0
    cov = {
        'evaluations': tot['runs'], 'distinct_nontrivial': len(tot['nontrivial']), 'rule': mod.RULE,
        'samples': _trim(tot['samples'][:2]),
        'runs_per_hour': round(tot['runs'] / max(wall, .1) * 3600), 'seeds_per_hour': round(tot['runs'] / max(wall, .1) * 3600),
        'events': tot['events'], 'faults_injected': dict(sorted(tot['faults'].items())),
        'rare_conditions': dict(sorted(tot['probes'].items())),
        'distinct_states': len(tot['states']), 'state_measure': mod.STATES,
        'simulated_time': getattr(mod, 'SIMTIME', 'the property has no clock: simulated time is the number of events'),
        'simulated_seconds': round(tot['sim_s'], 3),
        'real_components': mod.REAL, 'stub_components': mod.STUB,
        'log_digest': hashlib.sha256(repr(sorted(tot['digests'].items())).encode()).hexdigest()[:16],
        'stopped_by_wall_budget': tot['timeout'],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(tot['viol'])}
    if os.environ.get('SIM_EVIDENCE', '1') == '1':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for e in known:
        print(f"KNOWN-FINDING: property={pid} {e['what']}", file=out)
    if not tot['viol']:
        print(f"ok {pid}: {tot['runs']} runs, {len(tot['nontrivial'])} distinct non-trivial, {tot['events']} events, "
              f"faults {sum(tot['faults'].values())}, {wall:.1f} s", file=out)
        if tot['timeout']:
            print('stopped early by the wall-clock budget', file=out)
        return 0
    first = tot['viol'][0]
    try:
        case, v, tries = shrink(mod, first['case'], first['v'], budget=float(os.environ.get('SIM_SHRINK_S', '45')))
    except HarnessError:
        case, v, tries = first['case'], first['v'], 0
    rdir = os.environ.get('SIM_REPLAYS') or os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f'{pid}-seed{seed}-run{first["run"]}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'run': first['run'], 'violation': v, 'original_violation': first['v'],
                   'case': case, 'original_case': first['case'], 'shrink_tries': tries}, f, indent=1)
    import subprocess
    again = subprocess.run([os.path.join(VERIF, 'run'), 'replay', path], capture_output=True, text=True)
    ok = again.returncode == 1 and f"class={v['class']}" in again.stdout
    if not ok:      # fall back to the run as it happened
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'run': first['run'], 'violation': first['v'], 'case': first['case'],
                       'shrink_tries': tries}, f, indent=1)
        again = subprocess.run([os.path.join(VERIF, 'run'), 'replay', path], capture_output=True, text=True)
        ok = again.returncode == 1
    print(f"run {first['run']}: {v['class']}: {v['msg']}", file=out)
    print(f'replayed in a fresh process: {"reproduced" if ok else "NOT reproduced: " + again.stdout[-300:] + again.stderr[-300:]}', file=out)
    print(f'VIOLATION property={pid} replay={path}', file=out, flush=True)
    return 1


def _trim(samples):
    s = json.dumps(samples)
    if len(s) <= 20000:
        return samples
    out = []
    for x in samples[:1]:
        t = json.dumps(x)
        out.append(x if len(t) <= 20000 else {'run': x['run'], 'case_prefix': t[:6000], 'verdict': x['verdict']})
    return out


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = load_check(r['property'])
    env.bootstrap(threads=getattr(mod, 'THREADS', False))
    if getattr(mod, 'PREWARM', True):
        env.prewarm()
    if hasattr(mod, 'setup'):
        mod.setup()
    fn = getattr(mod, 'replay_case', None)
    res = fn(r['case']) if fn else run_case(mod, r['case'])
    if res['v']:
        print(f"class={res['v']['class']}")
        print(res['v']['msg'])
        if res['v'].get('tb'):
            print(res['v']['tb'])
        print(f"digest={res['digest']}")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print(f"no violation; digest={res['digest']}")
    return 0
