"""Interruption points: the places at which CPython looks for signals (function entry, backward jumps, returns from C
calls) in the code under test and in networkx, and the calls into other libraries (an interruption anywhere inside those
comes out of the call).  sys.monitoring delivers them; the handler may raise, which is the injected interruption, or hand
the baton to another thread, which is a preemption.
"""
import gc
import sys
import types

from .env import REPO, HarnessError

TOOL = 4
_mon = sys.monitoring
SCHED = __file__.replace('points.py', 'sched.py')
EXTRA = []      # further modules whose code has points, by the end of their file name
NAMES = []      # further functions, by the end of their qualified name
_codes = None
_handler = None


def codes():
    """code objects of atomtoolkit, networkx and contextlib"""
    global _codes
    if _codes is None:
        roots = (REPO + '/atomtoolkit/',)
        seen, todo = {}, []
        for f in gc.get_objects():
            if isinstance(f, types.FunctionType):
                n = f.__code__.co_filename
                if n.startswith(roots) or '/networkx/classes/' in n or '/networkx/algorithms/components/' in n \
                        or '/networkx/algorithms/traversal/' in n or n.endswith('/contextlib.py') or any(n.endswith(x) for x in EXTRA) \
                        or any(f.__qualname__.endswith(x) for x in NAMES):
                    todo.append(f.__code__)
        while todo:
            c = todo.pop()
            if c not in seen:
                seen[c] = True
                todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
        _codes = set(seen)
    return _codes


def _start(code, off):
    h = _handler
    if h is not None:
        h(code, off)


def _line(code, line):
    h = _handler
    if h is not None:
        h(code, -line)


_pending = None


def _jump(code, off, dest):
    """CPython 3.12 passes over the handlers of a frame when this callback raises, so the instruction that was jumped to does"""
    global _pending
    if dest < off:
        h = _handler
        if h is not None:
            try:
                h(code, off)
            except BaseException as e:
                _pending = e
                _mon.set_local_events(TOOL, code, _events(code) | _mon.events.INSTRUCTION)


def _instruction(code, off):
    global _pending
    e, _pending = _pending, None
    if e is not None:
        _mon.set_local_events(TOOL, code, _events(code))
        raise e


def _call(code, off, fn, arg0):
    h = _handler
    if h is not None and isinstance(fn, (types.FunctionType, types.MethodType)):
        c = getattr(fn, '__code__', None)
        if c not in _codes and not (c and c.co_filename == SCHED):      # a lock is C code, which cannot be interrupted half-way
            h(code, off)


def _cret(code, off, fn, arg0):
    h = _handler
    if h is not None and getattr(fn, '__name__', '') != 'acquire':      # between acquire() and try: Python itself offers no remedy there
        h(code, off)


_lines = False


def _events(code):
    E = _mon.events
    line = E.LINE if _lines and code.co_filename.startswith(REPO + '/atomtoolkit/') else 0
    return E.PY_START | E.PY_RESUME | E.JUMP | E.CALL | line


def install(lines=False):
    """once per process; monitoring stays on, the handler decides.  lines: also before every line of the code under test"""
    global _lines
    if _mon.get_tool(TOOL) is not None:
        return
    _mon.use_tool_id(TOOL, 'atsim')
    E = _mon.events
    _lines = lines
    for c in codes():
        _mon.set_local_events(TOOL, c, _events(c))
    for ev, f in ((E.INSTRUCTION, _instruction), (E.LINE, _line), (E.PY_START, _start), (E.PY_RESUME, _start), (E.JUMP, _jump),
                  (E.CALL, _call), (E.C_RETURN, _cret), (E.C_RAISE, _cret)):
        _mon.register_callback(TOOL, ev, f)


def uninstall():
    if _mon.get_tool(TOOL) is None:
        return
    for c in codes():
        _mon.set_local_events(TOOL, c, 0)
    _mon.free_tool_id(TOOL)


def handler(h):
    global _handler
    _handler = h


def site(code, off):
    f = code.co_filename
    mod = f.rsplit('/', 1)[-1][:-3]
    return f'{mod}.{code.co_qualname}+{off}' if off >= 0 else f'{mod}.{code.co_qualname}:{-off}'


class Count:
    """records the sites a call passes"""
    def __init__(self):
        self.sites = []

    def __call__(self, code, off):
        self.sites.append((code, off))

    def run(self, fn, *args):
        handler(self)
        try:
            return fn(*args)
        finally:
            handler(None)


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


class Injected(Exception):
    pass


class Inject:
    """raises exc at the k-th point (once)"""
    def __init__(self, k, exc='KeyboardInterrupt'):
        self.k, self.n, self.exc, self.fired = k, -1, EXC[exc], None

    def __call__(self, code, off):
        self.n += 1
        if self.n == self.k:
            handler(None)
            self.fired = site(code, off)
            raise self.exc('injected')

    def run(self, fn, *args):
        """-> ('interrupted', None) | ('done', value); any other exception passes"""
        handler(self)
        try:
            return 'done', fn(*args)
        except self.exc as e:
            if str(e) != 'injected' or self.fired is None:
                raise
            return 'interrupted', None
        finally:
            handler(None)


def choose(sites, spec):
    """index of the point that a fault spec names in a recorded list of sites: {'k': fraction} uniformly over the points,
    {'site': fraction, 'occ': fraction} uniformly over the distinct places of the code"""
    if not sites:
        return None
    if 'k' in spec:
        return min(int(spec['k'] * len(sites)), len(sites) - 1)
    order, occ = [], {}
    for i, s in enumerate(sites):
        if s not in occ:
            order.append(s)
            occ[s] = []
        occ[s].append(i)
    o = occ[order[min(int(spec['site'] * len(order)), len(order) - 1)]]
    return o[min(int(spec['occ'] * len(o)), len(o) - 1)]


def spec(rng):
    """a fault spec"""
    e = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
    if rng.random() < .4:
        return {'exc': e, 'k': round(rng.random(), 4)}
    return {'exc': e, 'site': round(rng.random(), 4), 'occ': rng.choice([0.0, .5, .999, round(rng.random(), 3)])}
