"""C18: a spectrum shows the atom's lines as they are now."""
import math

from .common import *
from .. import points
from ..gen import Gen
from ..interrupt import forked, counted
from ..observe import observe, diff

ID = 'C18'
QUICK, THOROUGH = 640, 25000
RULE = ('an atom is edited and read, and spectra of its transitions, hyperfine and Zeeman components are plotted 2-8 times in all the forms '
        'of the API, with line shapes, lists and dictionaries that are used again, on new and used axes, some plots cut short at a seeded '
        'point; non-trivial: a spectrum was plotted completely after an earlier plot and an edit or interruption in between')
STATES = 'distinct (function, form of its argument, line shape, options, what happened since the last plot) and interruption sites'
REAL = [REAL_LIB, 'matplotlib, numpy, scipy']
STUB = ['the screen: figures are computed, not shown', 'the interruption itself: raised by a sys.monitoring callback at a place where '
        'CPython checks for signals']
ASSUMPTIONS = ['Lorentzian, Gaussian and modulated Lorentzian shapes', 'a plot that was cut short is repeated on a new figure']
EDITS = ['add_level', 'add_trans', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_B', 'set_freq', 'set_A', 'alias_op', 'delete',
         'reload']
SHAPES = [('L', .02), ('L', 5.0), ('G', .5), ('M', .1, 1.2, 3.0, 2), ('L', .3), ('G', .01)]
HOWS = ['trans', 'trans', 'hf', 'hf', 'z', 'z', 'zlist', 'spectrum', 'spectrum', 'auto']


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import atomtoolkit.render.spectra    # noqa: F401
    plt.plot([0, 1], [0, 1], label='x')
    plt.legend()
    plt.close('all')
    points.install()


def generate(rng, tier):
    g = Gen(rng, upset=rng.choice([0, 0, .4]), max_levels=rng.choice([2, 3]), spins=[0.0, .5, .5, 1.0], loops='none')
    g.start(0, levels=2, trans=rng.choice([1, 1, 2]))
    w = g.swarm(EDITS)
    hows = rng.sample(HOWS, rng.randint(2, len(HOWS)))
    M = g.w.model[0]
    for _ in range(rng.randint(2, 8)):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            g.history(1, w, reads=.2, whats=['lookup', 'levelinfo', 'transinfo', 'linked', 'sorted'])
        how = rng.choice(hows)
        depth = {'trans': None, 'hf': 0, 'z': rng.choice([0, 1]), 'zlist': 1, 'spectrum': rng.choice([0, 1, 2]), 'auto': 0}[how]
        ts = [g.ttarget(0, depth if depth is not None else rng.choice([0, 0, 1, 1, 2])) for _ in
              range(1 if how == 'z' else rng.choice([1, 1, 2, 3]))]
        ts = [t for i, t in enumerate(ts) if t is not None and t not in ts[:i]]
        if not ts or (how == 'z' and depth == 0 and M.I > .5):
            continue
        op = {'op': 'plot', 'a': 0, 'how': how, 'ts': ts, 'shape': rng.randrange(len(SHAPES)), 'fig': rng.choice(['new', 'new', 'same']),
              'ampl': rng.choice([None, None, None, [2.0], [.5, 1.0, 3.0]]), 'kw': {}, 'list': rng.random() < .4,
              'twin': rng.random() < .4}
        kw = op['kw']
        if how == 'trans':
            for k, v in (('padding', [3.0, 50.0]), ('num_points', [11, 200]), ('total', [False, False, True]), ('unit', ['THz', 'MHz', 'GHz']),
                         ('label_func', [True]), ('color_func', [True])):
                if rng.random() < .25:
                    kw[k] = rng.choice(v)
        elif how == 'hf':
            kw['coloring'] = rng.choice(['l', 'u'])
        elif how in ('z', 'zlist'):
            kw['coloring'] = rng.choice(['l', 'u', 'transition_type', 'fn'])
        elif how == 'spectrum':
            kw['coloring'] = rng.choice(['l', 'u', None] + (['transition_type'] if ts[0][2] and ts[0][2][1] is not None else []))
        if rng.random() < .2 and how not in ('trans', 'auto'):
            kw['cmap'] = 'Set1'
        if rng.random() < .3:
            op['faults'] = [points.spec(rng) for _ in range(rng.choice([1, 1, 2]))]
        g.ops.append(op)
    return {'ops': g.ops}


def make_shape(s):
    from atomtoolkit.render import lineshapes as ls
    if s[0] == 'L':
        return ls.LorentzianLineShape(s[1])
    if s[0] == 'G':
        return ls.GaussianLineShape(s[1])
    return ls.ModLorentzianLineShape(s[1], s[2], s[3], num_sidebands=s[4])


def lor(d, g):
    return g * g / (4 * d * d + g * g)


def value(s, d):
    """the shape s at distance d of its centre (array)"""
    import numpy as np
    from scipy.special import jv
    if s[0] == 'L':
        return lor(d, s[1])
    if s[0] == 'G':
        return np.exp(-d * d / (2 * s[1] ** 2))
    _, g, depth, f, n = s
    return jv(0, depth) ** 2 * lor(d, g) + sum(jv(i, depth) ** 2 * (lor(d - i * f, g) + lor(d + i * f, g)) for i in range(1, n + 1))


def label(t):
    return 'line ' + t.name


def color(t):
    return (.25, .5, 1.0 if t.E_upper.term.J > 1 else 0.0)


def curves(axes, old=()):
    return [(x.get_label(), x.get_xdata().copy(), x.get_ydata().copy(), x.get_color()) for x in axes.lines if id(x) not in old]


def execute(case, ctx):
    import matplotlib.pyplot as plt
    try:
        return _execute(case, ctx, plt)
    finally:
        plt.close('all')


def _execute(case, ctx, plt):
    import numpy as np
    from atomtoolkit.render import spectra
    w = World(ctx.scratch)
    shapes, since, plotted = {}, set(), 0
    for i, op in enumerate(case['ops']):
        if op['op'] != 'plot':
            rec = w.step(op)
            ctx.log(rec)
            if op['op'] != 'read' and not rec.get('skipped'):
                since.add('edit')
            continue
        how, kw = op['how'], dict(op['kw'])
        where = f'step {i} ({how} {op["ts"]}, {op["kw"]})'
        if 0 not in w.model:
            continue
        ts = [t for t in op['ts'] if w.ok({'op': 'x', 'a': 0, 'kind': 'T', 't': t})]
        objs = []
        for t in ts:
            try:
                objs.append(w.trans_by(0, t))
            except KeyError:        # a component that the selection rules exclude
                continue
        if how == 'zlist':
            objs = [t for t in objs if t.E_lower.term.F is not None]
        if not objs:
            continue

        single = how in ('spectrum', 'auto') and len(objs) == 1 and not op['list'] and (ts[0][2] is None or ts[0][2][1] is None)

        def lines():
            """what is to be seen"""
            if single:
                return list(objs[0].values())
            if how in ('trans', 'spectrum', 'auto'):
                return list(objs)
            if how == 'hf':
                return [c for t in objs for c in t.values()]
            if how == 'zlist' or len(ts[0]) == 4 and ts[0][2] is not None:
                return [c for t in objs for c in t.values()]
            return [z for t in objs for c in t.values() for z in c.values()]
        names = forked(lambda: [x.name for x in lines()])
        if not names or len(names) > 80 or (how == 'spectrum' and (len({type(t) for t in objs}) > 1 or kw.get('coloring') == 'transition_type' and objs[0].E_lower.term.mF is None)):
            continue
        s = SHAPES[op['shape']]
        if op['shape'] not in shapes:
            shapes[op['shape']] = make_shape(s)
        shape = shapes[op['shape']]
        ampl = None
        if op['ampl'] and how != 'auto':
            ampl = {n: op['ampl'][j % len(op['ampl'])] for j, n in enumerate(names)}
        before = None if ampl is None else dict(ampl)
        arg = objs if not single and (op['list'] or how in ('trans', 'zlist', 'spectrum', 'auto') or len(objs) > 1) else objs[0]
        given = list(arg) if isinstance(arg, list) else None
        if kw.get('label_func'):
            kw['label_func'] = label
        if kw.get('color_func'):
            kw['color_func'] = color
        if kw.get('coloring') == 'fn':
            kw['coloring'] = color
        if ampl is not None:
            kw['ampl_dict'] = ampl
        options = dict(kw)

        def call():
            if how == 'trans':
                spectra.plot_transitions(arg, shape, **kw)
            elif how == 'hf':
                spectra.plot_hyperfine_spectrum(arg, shape, **kw)
            elif how in ('z', 'zlist'):
                spectra.plot_zeeman_spectrum(arg if how == 'zlist' or (op['list'] and ts[0][2] is not None) else arg[0] if isinstance(arg, list) else arg,
                                             shape, **kw)
            elif how == 'spectrum':
                spectra.plot_spectrum(arg, shape, **kw)
            else:
                spectra.plot_spectrum(arg, temp=w.Q([0.0, 'K']), laser_linewidth=w.Q([30.0, 'MHz']))
        if how == 'auto':
            s = ('L', .03)
        obs = forked(lambda: observe(w.real[0], 2, 1)) if op['twin'] else None
        for f in op.get('faults') or ():
            k = points.choose(forked(counted, call)[0], f)
            if k is None:
                continue
            inj = points.Inject(k, f['exc'])
            st, _ = inj.run(call)
            if inj.fired:
                ctx.fault(f['exc'])
                ctx.state(inj.fired)
                ctx.log('interrupted', inj.fired, st)
                since.add('interrupted')
            plt.close('all')
        if op['fig'] == 'new' or not plt.get_fignums():
            plt.close('all')
            plt.figure()
        ax = plt.gca()
        old = {id(x) for x in ax.lines}
        had = curves(ax)
        call()
        if plt.gca() is not ax or len(plt.get_fignums()) != 1:
            raise Violation('axes', f'{where}: the spectrum is not drawn on the current axes')
        got = curves(ax, old)
        keep = curves(ax)[:len(had)]
        if any(a[0] != b[0] or not np.array_equal(a[1], b[1]) or not np.array_equal(a[2], b[2]) for a, b in zip(had, keep)) or \
                len(curves(ax)) != len(had) + len(got):
            raise Violation('old-lines', f'{where}: lines that were drawn before changed')
        if given is not None and (len(arg) != len(given) or any(a is not b for a, b in zip(arg, given))) or before != ampl or options != kw:
            raise Violation('arguments', f'{where}: the plot changed the list or dictionary it was given')
        want = [(x, x.freq.to(op['kw'].get('unit', 'GHz')).magnitude, float(x.rel_strength) * (ampl[x.name] if ampl else 1.0)) for x in lines()]
        if sorted(x.name for x, _, _ in want) != sorted(names):
            raise Violation('components', f'{where}: the atom has the lines {[x.name for x, _, _ in want]}, had {names}')
        compare(got, want, s, op['kw'], where, np)
        plotted += 1
        ctx.log(where, [(a[0], float(a[1][0]), float(a[2].max())) for a in got][:20])
        ctx.state((how, op['list'], op['shape'], sorted(op['kw'].items()), op['ampl'] is None, op['fig'], sorted(since)))
        if plotted > 1 and since:
            ctx.nontrivial = True
        if obs is not None:
            d = diff(obs, observe(w.real[0], 2, 1))
            if d:
                raise Violation('atom-changed', f'{where}: the atom differs from one that was not plotted: {d}')
        since.clear()
        if plotted % 3 == 0:
            compare_energies(w, 0, where)
    return None


def compare(got, want, s, kw, where, np):
    n = kw.get('num_points', 1000)
    total = [c for c in got if c[0] == 'Total']
    left = [c for c in got if c[0] != 'Total']
    if len(left) != len(want):
        raise Violation('lines', f'{where}: {len(left)} lines are drawn, {len(want)} should be')
    if len(total) != (1 if kw.get('total', True) else 0):
        raise Violation('total', f'{where}: the sum of the lines is drawn {len(total)} times')
    drawn = list(left)
    for x, f, a in want:
        for c in left:
            mid = (c[1][0] + c[1][-1]) / 2
            if len(c[1]) == n and abs(mid - f) <= 1e-6 * s[1] + 1e-11 * abs(f) and np.all(np.abs(c[2] - a * value(s, c[1] - f)) <= 1e-5 * (abs(a) + 1e-3)) \
                    and c[1][-1] - c[1][0] > 2 * s[1] and (not kw.get('label_func') or c[0] == label(x)) \
                    and (not (kw.get('color_func') or kw.get('coloring') == 'fn') or tuple(c[3][:3]) == color(x)):
                left.pop(next(i for i, y in enumerate(left) if y is c))
                break
        else:
            near = [((c[1][0] + c[1][-1]) / 2, float(c[2].max()), len(c[1]), c[0]) for c in left][:6]
            raise Violation('line', f'{where}: no line shows {x.name} at {f!r}, strength {a!r}; drawn: {near}')
    if total and n >= 1000:
        _, x, y, _ = total[0]
        if len(x) < 2 or np.any(np.diff(x) < 0) or abs(x[0] - min(c[1][0] for c in drawn)) > 1e-9 * abs(x[0]) + s[1] * .1 or \
                abs(x[-1] - max(c[1][-1] for c in drawn)) > 1e-9 * abs(x[-1]) + s[1] * .1:
            raise Violation('total', f'{where}: the sum covers {x[:1]} to {x[-1:]}')
        h = max((c[1][-1] - c[1][0]) / (len(c[1]) - 1) for c in drawn)
        w = max((c[1][-1] - c[1][0]) / 2 for c in drawn)
        tol = sum(abs(a) for _, _, a in want) * ((h / s[1]) ** 2 + float(value(s, np.array([w]))[0]) + 1e-5)
        d = np.abs(y - sum(a * value(s, x - f) for _, f, a in want))
        if d.max() > tol + 1e-9:
            j = int(d.argmax())
            raise Violation('total', f'{where}: the sum is {y[j]!r} at {x[j]!r}, should be {y[j] - d[j]!r} or {y[j] + d[j]!r} within {tol!r}')
