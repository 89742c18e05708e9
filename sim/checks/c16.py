"""C16: a level diagram always shows the atom as it is now."""
import pickle

from .common import *
from .. import points
from ..gen import Gen
from ..interrupt import forked, counted
from ..proc import Zygote

ID = 'C16'
QUICK, THOROUGH = 520, 20000
RULE = ('1-3 diagrams of one atom to which levels, sublevels and transitions are added, and which are rendered 2-10 times - on new, current '
        'and shared axes, some renderings and additions cut short at a seeded point - while the atom is edited; non-trivial: a diagram was '
        'rendered completely after an earlier rendering of it and an edit or interruption in between')
STATES = 'distinct (prompts of the diagram, kind of axes, what happened since its last rendering) and interruption sites'
REAL = [REAL_LIB, 'matplotlib, pandas']
STUB = ['the screen: figures are computed, not shown', 'the interruption itself: raised by a sys.monitoring callback at a place where '
        'CPython checks for signals']
ASSUMPTIONS = ['levels that are drawn stay in the atom', 'Zeeman structure is drawn of levels with J + I >= 1 only',
               'the ends of drawn transitions are drawn']
EDITS = ['add_level', 'add_trans', 'set_level', 'set_hf', 'set_lande', 'set_quad', 'set_B', 'set_freq', 'set_A', 'alias_op']
STRATEGY = {'g': 'gross', 'gross': 'gross', 'hf': 'hf', 'hyperfine': 'hf', 'z': 'zeeman', 'zeeman': 'zeeman', None: 'gross'}


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import atomtoolkit.render.grotrian    # noqa: F401
    plt.close(plt.figure())
    points.install()


# ---------------------------------------------------------------------- the workload
def generate(rng, tier):
    g = Gen(rng, upset=rng.choice([0, 0, .4]), max_levels=rng.choice([2, 3, 4]), spins=[0.0, .5, .5, 1.0, 1.5], loops='none')
    g.start(0, levels=rng.choice([1, 2, 3]), trans=rng.choice([0, 1, 2, 3]))
    w = g.swarm(EDITS)
    if rng.random() < .5:
        w['set_hf'], w['set_B'] = 4, 2
    n = rng.choice([1, 1, 2, 3])
    drawn = {i: [] for i in range(n)}
    M = g.w.model[0]

    def add_level(d):
        t = g.target(0)
        s = rng.choice(list(STRATEGY))
        kind = STRATEGY[s]
        if t is None or (kind == 'hf' and t[2] is not None):
            return
        if kind == 'zeeman' and J_of(t[0]) + M.I < 1 or J_of(t[0]) + M.I > 3:
            return
        kw = {}
        for name, vals in (('y1', [2.5, -40.0]), ('x1', [.5, -1.0]), ('x0', [3.0]), ('y0', [100.0]), ('width', [.5, 1.5]), ('hf_scale', [1.0, 20000.0]),
                           ('z_scale', [1.0, 50.0]), ('offset', [.1]), ('spacing', ['realistic', 'schematic', .5, 1.0]),
                           ('sublevel_width', ['degeneracy', 'schematic', .3]), ('squeeze', [2, True, False, False]), ('bbox', ['rect', 'rectangle', 'bracket']),
                           ('bbox_pad', [.1]), ('rect_fill', [False]), ('rect_alpha', [.7]), ('bracket_h', [.1]), ('linewidth', [1, 3]), ('color', [[1, 0, 0, 1]]), ('fill_factor', [.5])):
            if rng.random() < .1:
                kw[name] = rng.choice(vals)
        if rng.random() < .1:
            kw['squeeze'] = False
        if kind == 'zeeman' and M.I == 0 and kw.get('squeeze') is False:    # the ground state may have one sublevel only
            del kw['squeeze']
        if kind == 'gross':
            kw.pop('fill_factor', None)
        op = {'op': 'dl', 'a': 0, 'kind': 'L', 't': t, 'd': d, 'strategy': s, 'kw': kw}
        if rng.random() < .15:
            op['faults'] = [points.spec(rng)]
        if g.emit(g.via(op)):
            drawn[d].append(op)

    def add_trans(d):
        on = {x['t'][0] for x in drawn[d] if x['t'][1] is None or STRATEGY[x['strategy']] == 'gross'}
        if rng.random() < .3 and len(on) > 1:
            u, v = rng.sample(sorted(on), 2)
            e = [rng.choice([None, rng.choice(M.F_of(k))]) for k in (u, v)]
            op = {'op': 'dt', 'a': 0, 'd': d, 'ends': [[k, F, None] for k, F in zip((u, v), e)]}
        else:
            inner = rng.random() < .4
            t = g.ttarget(0, internal=inner)
            if t is None or not {t[0], t[1]} <= on or t[0] == t[1] and not t[2]:
                return
            op = g.via({'op': 'dt', 'a': 0, 'kind': 'T', 't': t, 'd': d}, 'T')
        kw = op['kw'] = {}
        for name, vals in (('start_anchor', [1, 2, 6, 9]), ('end_anchor', [3, 4, 7, 8]), ('start_x1', [.3]), ('end_x1', [-.2]),
                           ('start_y1', [5.0]), ('end_y1', [-1.0]), ('linewidth', [2])):
            if rng.random() < .15:
                kw[name] = rng.choice(vals)
        if rng.random() < .15:
            op['faults'] = [points.spec(rng)]
        g.emit(op)

    if rng.random() < .35:       # a plain diagram of the whole atom first
        for k in list(M.levels):
            op = g.via({'op': 'dl', 'a': 0, 'kind': 'L', 't': [k, None, None], 'd': 0, 'strategy': rng.choice(['g', 'gross', None]), 'kw': {}})
            if g.emit(op):
                drawn[0].append(op)
        for t in list(M.trans.values()):
            if t.u != t.v and rng.random() < .8:
                g.emit(g.via({'op': 'dt', 'a': 0, 'kind': 'T', 't': [t.u, t.v, None, None], 'd': 0, 'kw': {}}, 'T'))
    if rng.random() < .3:       # the levels within one level, whose order edits change
        if not any(len(e) == 1 for e in M.trans):
            g.add_trans(0, internal=True)
        for _ in range(rng.choice([1, 2])):
            t = g.ttarget(0, internal=True, sub=rng.choice([1, 1, 2]))
            if t is None or t[0] != t[1] or not t[2]:
                continue
            k = t[0]
            s = rng.choice(['hf', 'hf', 'g']) if t[2][1] is None or rng.random() < .5 else 'z'
            if s == 'z' and not 1 <= J_of(k) + M.I <= 3:
                continue
            d = rng.randrange(n)
            op = g.via({'op': 'dl', 'a': 0, 'kind': 'L', 't': [k, None, None], 'd': d, 'strategy': s, 'kw': {}})
            if g.emit(op):
                drawn[d].append(op)
            g.emit(g.via({'op': 'dt', 'a': 0, 'kind': 'T', 't': t, 'd': d, 'kw': {}}, 'T'))
            g.ops.append({'op': 'render', 'a': 0, 'd': d, 'axes': 'new'})
            A = M.levels[k].A
            if rng.random() < .7:
                g.emit(g.via({'op': 'set_hf', 'a': 0, 'k': k, 'which': 'A',
                              'v': [-A, 'Hz'] if A and rng.random() < .7 else g.hfval()}))
            else:
                g.set_B(0)
            g.ops.append({'op': 'render', 'a': 0, 'd': d, 'axes': 'new'})
    for _ in range(rng.randint(2, 6)):
        d = rng.randrange(n)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            add_level(d)
        for _ in range(rng.choice([0, 0, 1, 2])):
            add_trans(d)
        for _ in range(rng.choice([0, 0, 1, 3])):
            g.history(1, w, reads=.2, whats=['lookup', 'levelinfo', 'transinfo', 'linked', 'sorted'])
        op = {'op': 'render', 'a': 0, 'd': d, 'axes': rng.choice(['new', 'new', 'none', 'shared', 'same'])}
        if rng.random() < .1:
            op['what'] = 'quick'
        elif rng.random() < .35:
            op['faults'] = [points.spec(rng) for _ in range(rng.choice([1, 1, 2]))]
        g.ops.append(op)
        if op.get('faults') or rng.random() < .3:
            g.ops.append(dict(op, faults=None, axes=rng.choice(['new', op['axes']])))
    return {'ops': g.ops}


# ---------------------------------------------------------------------- pictures
def artists(axes):
    return [id(x) for x in axes.get_children()]


def picture(axes, old=()):
    """what was put on the axes, as plain data"""
    import matplotlib.collections as mc
    import matplotlib.patches as mp
    import matplotlib.lines as ml
    lines, boxes, arrows = [], [], []

    def style(c, i):
        col, lw = c.get_edgecolor(), c.get_linewidth()
        return [[round(float(x), 6) for x in col[i % len(col)]], float(lw[i % len(lw)])]
    for c in axes.get_children():
        if id(c) in old or c is axes.patch:
            continue
        if isinstance(c, mc.LineCollection):
            lines += [[[[float(x), float(y)] for x, y in s], style(c, i)] for i, s in enumerate(c.get_segments())]
        elif isinstance(c, mc.PatchCollection):
            boxes += [[float(x) for x in p.get_extents().extents] for p in c.get_paths()]
        elif isinstance(c, mp.FancyArrowPatch):
            arrows.append([[float(x) for x in p] for p in c._posA_posB])
        elif isinstance(c, mp.Rectangle):
            boxes.append([float(x) for x in c.get_path().transformed(c.get_patch_transform()).get_extents().extents])
        elif isinstance(c, ml.Line2D):
            lines.append([[[float(x), float(y)] for x, y in c.get_xydata()], None])
    key = lambda x: [round(v, 3) for v in _flat(x)]
    return {'lines': sorted(lines, key=key), 'boxes': sorted(boxes, key=key), 'arrows': sorted(arrows, key=key)}


def _flat(x):
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in _flat(y)]
    return [] if x is None else [x]


def same(x, y):
    """whether two pictures show the same"""
    for k in ('lines', 'boxes', 'arrows'):
        if len(x[k]) != len(y[k]):
            return f'{len(x[k])} {k} instead of {len(y[k])}'
        for a, b in zip(x[k], y[k]):
            fa, fb = _flat(a), _flat(b)
            if len(fa) != len(fb) or any(abs(p - q) > 1e-6 + 1e-9 * max(abs(p), abs(q)) for p, q in zip(fa, fb)):
                return f'one of the {k} is {a}, should be {b}'
    return None


def add_prompts(G, atom, prompts):
    for p in prompts:
        if p['op'] == 'dl':
            kw = dict(p['kw'])
            if 'color' in kw:
                kw['color'] = tuple(kw['color'])
            k, F, m = p['t']
            G.add_level(_find(atom, p['t']), strategy=p['strategy'], **kw)
        else:
            G.add_transition(_find_t(atom, p), **p['kw'])


def _find(atom, t):
    o = atom.levels[lname(t[0])]
    if t[1] is not None:
        o = o[f'F={fs(t[1])}']
    return o if t[2] is None else o[f'mF={fs(t[2])}']


def _find_t(atom, p):
    if 'ends' in p:
        return tuple(_find(atom, e) for e in p['ends'])
    u, v, a, b = p['t']
    name = lambda k, e: lname(k) + (f' F={fs(e[0])}' if e else '') + (f' mF={fs(e[1])}' if e and e[1] is not None else '')
    return atom.transitions[(name(u, a), name(v, b))]


def afresh(data, prompts):
    """in a process that never drew anything: the picture of a new diagram of the saved atom"""
    import matplotlib.pyplot as plt
    from atomtoolkit.render.grotrian import Grotrian
    atom = pickle.loads(data)
    G = Grotrian()
    add_prompts(G, atom, prompts)
    axes = plt.figure().add_subplot()
    old = artists(axes)
    G.render(axes)
    return picture(axes, old), [list(axes.get_xlim()), list(axes.get_ylim())]


def expected_lines(M, prompts):
    """[x0, x1, y] of the lines of the levels, as far as the documentation determines them (None: not)"""
    out = []
    for p in prompts:
        if p['op'] != 'dl':
            continue
        k, F, m = p['t']
        kw, kind, L = p['kw'], STRATEGY[p['strategy']], M.levels[k]
        y = kw.get('y0', L.E / 1e12) + kw.get('y1', 0)
        x = kw.get('x0', J_of(k)) + kw.get('x1', 0)
        if kind == 'gross':
            W = kw.get('width', .8)
            out.append((x - W / 2, x + W / 2, y))
            continue
        real = kw.get('spacing', 1.0) in ('realistic', 1.0)
        s = kw.get('hf_scale', 10000.0) / 1e12
        for f in ([F] if F is not None else M.F_of(k)):
            h = M.shift((k, f, None))
            if kind == 'hf':
                out.append((None, None, y + s * h if real else None))
            else:
                for mm in ([m] if m is not None else m_values(f)):
                    out.append((None, None, y + s * (h + kw.get('z_scale', 5.0) * M.shift((k, f, mm))) if real else None))
    return out


def check_lines(pic, exp, where):
    """the lines of the levels against the reference model"""
    lines = [l[0] for l in pic['lines'] if len(l[0]) == 2]
    if len(lines) != len(exp):
        raise Violation('lines', f'{where}: {len(lines)} level lines are drawn, {len(exp)} levels were added')
    left = list(lines)
    for x0, x1, y in sorted(exp, key=lambda e: (e[2] is None, e[0] is None)):
        if y is None:
            continue
        tol = 1e-6 + 1e-9 * abs(y)
        for l in left:
            if abs(l[0][1] - y) <= tol and abs(l[1][1] - y) <= tol and \
                    (x0 is None or (abs(min(l[0][0], l[1][0]) - x0) < 1e-6 and abs(max(l[0][0], l[1][0]) - x1) < 1e-6)):
                left.remove(l)
                break
        else:
            raise Violation('position', f'{where}: no line from {x0} to {x1} at {y!r}; drawn: {[[l[0][0], l[1][0], l[0][1]] for l in left][:5]}')


def check_boxes(pic, M, P, where, ctx):
    """one rectangle or pair of brackets for each level that was added with one, around all of its lines"""
    brackets = [l[0] for l in pic['lines'] if len(l[0]) == 4]
    left = {'rect': list(pic['boxes']), 'bracket': [[min(p[i] for p in b) if j == 0 else max(p[i] for p in b) for j in (0, 1) for i in (0, 1)]
                                                    for b in brackets]}
    want = [p for p in P if p['op'] == 'dl' and p['kw'].get('bbox')]
    n = [sum(p['kw']['bbox'].startswith(x) for p in want) for x in ('rect', 'bracket')]
    if len(pic['boxes']) != n[0] or len(brackets) != 2 * n[1]:
        raise Violation('boxes', f'{where}: {len(pic["boxes"])} rectangles and {len(brackets)} brackets are drawn, {n[0]} levels were added '
                                 f'with a rectangle and {n[1]} with brackets')
    for p in want:
        ys = [y for _, _, y in expected_lines(M, [p])]
        if None in ys:
            continue
        lo, hi = min(ys), max(ys)
        tol = 1e-6 + 1e-9 * abs(hi)
        kind = 'rect' if p['kw']['bbox'].startswith('rect') else 'bracket'
        for _ in range(1 if kind == 'rect' else 2):
            for b in left[kind]:
                if lo - .2 * (hi - lo) - tol <= b[1] <= lo + tol and hi - tol <= b[3] <= hi + .2 * (hi - lo) + tol:
                    left[kind].remove(b)
                    break
            else:
                raise Violation('boxes', f'{where}: no {kind} around {p["t"]} from {lo!r} to {hi!r}; drawn: {left[kind][:5]}')
        ctx.probe(f'{kind} checked against the model')


def check_arrows(w, pic, P, where, ctx):
    """arrows between levels that are drawn once, as one line, go from the middle of the lower to the middle of the upper one"""
    M = w.model[0]
    n = sum(p['op'] == 'dt' for p in P)
    if len(pic['arrows']) != n:
        raise Violation('arrows', f'{where}: {len(pic["arrows"])} arrows are drawn, {n} transitions were added')
    for p in P:
        if p['op'] != 'dt' or p['kw'] or 't' in p and p['t'][0] == p['t'][1]:
            continue
        ks = [e[0] for e in p['ends']] if 'ends' in p else [M.trans[frozenset(p['t'][:2])].lower, M.trans[frozenset(p['t'][:2])].upper]
        pos = []
        for k in ks:
            of = [x for x in P if x['op'] == 'dl' and x['t'][0] == k]
            if len(of) == 1 and STRATEGY[of[0]['strategy']] == 'gross':
                kw = of[0]['kw']
                pos += [kw.get('x0', J_of(k)) + kw.get('x1', 0), kw.get('y0', M.levels[k].E / 1e12) + kw.get('y1', 0)]
        if len(pos) == 4:
            ctx.probe('arrow checked against the model')
        if len(pos) == 4 and not any(all(abs(x - y) <= 1e-6 + 1e-9 * abs(y) for x, y in zip(_flat(a), pos)) for a in pic['arrows']):
            raise Violation('arrows', f'{where}: no arrow from {pos[:2]} to {pos[2:]}; drawn: {pic["arrows"][:5]}')


# ---------------------------------------------------------------------- one run
def execute(case, ctx):
    import matplotlib.pyplot as plt
    from atomtoolkit.render.grotrian import Grotrian, draw_levels
    z = Zygote()
    try:
        return _execute(case, ctx, z, plt, Grotrian, draw_levels)
    finally:
        z.close()
        plt.close('all')


def _execute(case, ctx, z, plt, Grotrian, draw_levels):
    w = World(ctx.scratch)
    G, prompts, shared, last, since = {}, {}, {}, {}, {}

    def fresh(prompts):
        o = z.call(afresh, pickle.dumps(w.real[0]), prompts)
        if o.kind != 'ok':
            raise Violation('fresh-fails', f'a new diagram cannot be rendered: {o!r}')
        return o.value

    def drawable(ps):
        on = {p['t'][0] for p in ps if p['op'] == 'dl' and (p['t'][1] is None or STRATEGY[p['strategy']] == 'gross')}
        for p in ps:
            if p['op'] == 'dt' and not {e[0] for e in p.get('ends') or [[k] for k in p['t'][:2]]} <= on:
                return False
        return True

    def of(what):
        """the picture of a diagram in a fork"""
        axes = plt.figure().add_subplot()
        old = artists(axes)
        what.render(axes)
        return picture(axes, old)

    for i, op in enumerate(case['ops']):
        if op['op'] in ('dl', 'dt', 'render'):
            if 0 not in w.real or not w.ok(op):
                continue
        else:
            rec = w.step(op)
            ctx.log(rec)
            if op['op'] != 'read' and not rec.get('skipped'):
                for s in since.values():
                    s.add('edit')
            continue
        d = op['d']
        if d not in G:
            G[d], prompts[d], since[d] = Grotrian(), [], set()
        P = prompts[d]
        where = f'step {i} ({op["op"]} of diagram {d})'
        if op['op'] in ('dl', 'dt'):
            if op['op'] == 'dt' and not drawable(P + [op]):
                continue
            if op['op'] == 'dt' and 'ends' in op and not all(w.ok({'op': 'x', 'a': 0, 'kind': 'L', 't': e}) for e in op['ends']):
                continue
            if op['op'] == 'dl':
                o = w.obj(0, 'L', op['t'], op)
            else:
                try:
                    o = tuple(_find(w.real[0], e) for e in op['ends']) if 'ends' in op else w.obj(0, 'T', op['t'], op)
                except KeyError:        # a component that the selection rules exclude
                    continue
            kw = dict(op['kw'])
            if 'color' in kw:
                kw['color'] = tuple(kw['color'])

            def call():
                if op['op'] == 'dl':
                    G[d].add_level(o, strategy=op['strategy'], **kw)
                else:
                    G[d].add_transition(o, **kw)
            added = False
            for f in op.get('faults') or ():
                k = points.choose(forked(counted, call)[0], f)
                if k is None or added:
                    continue
                inj = points.Inject(k, f['exc'])
                st, _ = inj.run(call)
                if inj.fired:
                    ctx.fault(f['exc'])
                    ctx.state(inj.fired)
                    since[d].add('interrupted')
                    ctx.log('interrupted', inj.fired, st)
                added = st == 'done'
                if not added and drawable(P):       # it was added, or it was not
                    pic = forked(of, G[d])
                    with_it, without = fresh(P + [op])[0], fresh(P)[0]
                    if same(pic, without):
                        added = True
                        r = same(pic, with_it)
                        if r:
                            raise Violation('half-added', f'{where}, interrupted at {inj.fired}: {r}')
            if not added:
                call()
            P.append(op)
            since[d].add('added')
            continue
        # a rendering
        if not P or not drawable(P):
            continue
        if op.get('what') == 'quick':
            quick(w, plt, draw_levels, where)
            ctx.probe('quick diagram')
            continue
        if op['axes'] == 'new':
            axes = plt.figure().add_subplot()
        elif op['axes'] == 'none':
            axes = None
        else:
            key = 'all' if op['axes'] == 'shared' else d
            if key not in shared:
                shared[key] = plt.figure().add_subplot()
            axes = shared[key]

        def call():
            G[d].render(axes)
            return plt.gcf().axes[0] if axes is None else axes
        cut = False
        for f in op.get('faults') or ():
            k = points.choose(forked(counted, call)[0], f)
            if k is None:
                continue
            inj = points.Inject(k, f['exc'])
            st, _ = inj.run(call)
            if inj.fired:
                ctx.fault(f['exc'])
                ctx.state(inj.fired)
                ctx.log('interrupted', inj.fired, st)
                since[d].add('interrupted')
                cut = True
        if op.get('faults'):
            continue
        old = artists(axes) if axes is not None else None
        ax = call()
        pic = picture(ax, old or ())
        if old is None and not pic['lines']:
            raise Violation('lines', f'{where}: nothing is drawn')
        ctx.log(where, sorted(since[d]), pic)
        check_lines(pic, expected_lines(w.model[0], P), where)
        check_boxes(pic, w.model[0], P, where, ctx)
        check_arrows(w, pic, P, where, ctx)
        exp, lims = fresh(P)
        r = same(pic, exp)
        if r:
            raise Violation('picture', f'{where}, after {sorted(since[d])}: {r}, as a new diagram has it')
        if op['axes'] in ('new', 'none'):
            got = [list(ax.get_xlim()), list(ax.get_ylim())]
            if any(not abs(p - q) <= 1e-6 + 1e-9 * abs(q) for p, q in zip(_flat(got), _flat(lims))):
                raise Violation('limits', f'{where}: the axes show {got}, those of a new diagram {lims}')
        ctx.state([(p['op'], p.get('strategy'), sorted(p['kw'])) for p in P][:4], op['axes'], sorted(since[d]))
        if d in last:
            if since[d] - {'added'}:
                ctx.nontrivial = True
            ctx.probe('rendered again')
            if not since[d]:
                r = same(pic, last[d])
                if r:
                    raise Violation('repeated', f'{where}: nothing changed since the last rendering, but {r}')
                ctx.probe('rendered again unchanged')
        last[d] = pic
        since[d] = set()
    return None


def quick(w, plt, draw_levels, where):
    """the quick diagram of the whole atom"""
    fig = plt.figure()
    M = w.model[0]
    draw_levels(w.real[0])
    ax = fig.axes[0]
    labels = {t.get_text(): t.get_position() for t in ax.texts}
    if set(labels) != {lname(k) for k in M.levels}:
        raise Violation('quick', f'{where}: the quick diagram shows {sorted(labels)}')
    for k, L in M.levels.items():
        x, y = labels[lname(k)]
        if not abs(x - J_of(k)) <= 1e-6 or not abs(y - L.E / 1e12) <= 1e-6 + 1e-9 * abs(y):
            raise Violation('quick', f'{where}: {lname(k)} is drawn at {(x, y)}, expected {(J_of(k), L.E / 1e12)}')
    plt.close(fig)
