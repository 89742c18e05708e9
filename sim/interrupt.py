"""Interrupted calls: run op with an exception injected at a chosen point, in step with an uninterrupted fork."""
import threading

from . import points
from .observe import observe, diff
from .ops import Violation
from .proc import in_child


def forked(fn, *args):
    """result of fn in a fork of this process; what went wrong there is raised here"""
    o = in_child(fn, *args, timeout=50)
    if o.kind == 'ok':
        return o.value
    if o.kind == 'exc':
        t, text, tb, cls, detail = o.value
        if t == 'Violation':
            raise Violation(cls, text)
        if t == 'HarnessError':
            from .env import HarnessError
            raise HarnessError(text + tb)
        where = [l.strip() for l in tb.splitlines() if '/atomtoolkit/' in l]
        raise Violation('unexpected-exception', f'{t}: {text} ({where[-1].split("in ")[-1] if where else tb[-300:]})')
    raise Violation(o.kind, f'a simulated process {o.kind} {o.value}')


def elsewhere(fn):
    """result of fn on another thread: what an interrupted call left locked blocks it"""
    box = []

    def run():
        try:
            box.append((fn(), None))
        except BaseException as e:
            box.append((None, e))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(25)
    if not box:
        raise Violation('blocked', 'another thread cannot look at the atom any more')
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


def counted(fn):
    """(sites, value) of an undisturbed call"""
    c = points.Count()
    v = c.run(fn)
    return [points.site(*s) for s in c.sites], v


def plain(x):
    """JSON-like copy for comparison"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def interrupt(world, call, spec, ctx, sites=None):
    """interrupts call() as spec says; returns the site or None when it completed"""
    if sites is None:
        sites, _ = forked(counted, call)
    k = points.choose(sites, spec)
    if k is None:
        call()
        return None
    inj = points.Inject(k, spec['exc'])
    r, _ = inj.run(call)
    if inj.fired:
        ctx.fault(spec['exc'])
        ctx.state(inj.fired)
        ctx.log('interrupted', inj.fired, r)
        return inj.fired
    ctx.log('not reached', k)
    return None
