"""C17: cached angular-momentum results cannot be corrupted."""
import sys
import warnings
from fractions import Fraction

from .common import *
from .. import points, sched
from ..env import HarnessError
from ..interrupt import forked, counted
from ..observe import diff
from ..proc import Zygote, in_child

ID = 'C17'
THREADS = True
PREWARM = False
QUICK, THOROUGH = 900, 40000
RULE = ('seeded sequences of related calls (the same numbers again, permuted, with signs changed, as other numeric types) of the '
        'Wigner symbols, transition strengths and coupling transforms and of atoms that use them, with calls cut short at chosen '
        'points, returned values overwritten, warnings turned into errors and calls interleaved on 2-3 threads; each answer is '
        'compared with that of a process that never computed anything; non-trivial: a fault happened or a call was repeated in '
        'another form')
STATES = 'distinct (function, numeric type, how it was disturbed, whether it was asked before)'
REAL = ['atomtoolkit.wigner, transition_strengths, util, atom; numpy; sympy: real code', 'CPython threads, parked on semaphores '
        'whenever they are not the chosen one']
STUB = ['threading.Lock/RLock: simulator locks', 'interruptions: raised by a sys.monitoring callback']
ASSUMPTIONS = ['threads are switched and calls interrupted in the library and in sympy.physics.wigner, not inside the rest of sympy and '
               'numpy', 'arguments are integers or half-integers', 'the flag that makes a returned array read-only is not cleared by '
               'the caller']
SHRINK = ['ops', 'faults', 'switches', 'threads']

WIG = ['wigner3j', 'wigner6j', 'wigner9j']
STR = ['tkq_transition_strength', 'tkq_mel', 'E1_transition_strength_avg', 'M1_transition_strength_avg', 'E2_transition_strength_avg',
       'E1_mel_geom', 'E1_transition_strength_geom', 'M1_mel_geom', 'M1_transition_strength_geom', 'E2_mel_geom',
       'E2_transition_strength_geom']
CON = ['JJ_to_LS', 'JK_to_LS', 'LK_to_LS']
READ = ['readable_JJ_to_LS', 'readable_JK_to_LS', 'readable_LK_to_LS']
NATIVE = ['int', 'float', 'f64', 'f32', 'i64', 'i32', 'u8', 'bool']
EXACT = ['frac', 'sym']
ODD = ['u8', 'bool']      # types whose own arithmetic goes wrong
EPS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 2), (3, 4, 0)]
ATOMS = [('1/2', 0, 1), ('1', 0, 1), ('1/2', 1, 2), ('3/2', 0, 1), ('1/2', 0, 4), ('0', 0, 1), ('0', 0, 2)]

ZYGOTE = None


def setup():
    points.EXTRA.append('/sympy/physics/wigner.py')
    points.install()


# ---------------------------------------------------------------- workload
def half(rng, lo, hi, int_only=None):
    """doubled value"""
    x = rng.randint(2 * lo, 2 * hi)
    if int_only is not None and (x % 2 == 0) != int_only:
        x += 1
    return x


def tri(rng, a, b):
    """doubled c that closes the triangle a b"""
    return rng.randrange(abs(a - b), a + b + 1, 2) if a + b else 0


def a3(rng):
    a, b = rng.randint(0, 6), rng.randint(0, 6)
    c = tri(rng, a, b)
    ma, mb = rng.randrange(-a, a + 1, 2), rng.randrange(-b, b + 1, 2)
    mc = -ma - mb
    if rng.random() < .1:
        c += rng.choice([2, -2, 1])
        c = max(c, 0)
    return [a, b, c, ma, mb, mc]


def a6(rng):
    for _ in range(40):
        a, b, d = (rng.randint(0, 5) for _ in range(3))
        c, e = tri(rng, a, b), tri(rng, d, 0)
        lo, hi = abs(d - c), d + c
        e = rng.randrange(lo, hi + 1, 2)
        fs_ = [f for f in range(max(abs(a - e), abs(b - d)), min(a + e, b + d) + 1) if (f + a + e) % 2 == 0 and (f + b + d) % 2 == 0]
        if fs_:
            f = rng.choice(fs_)
            if rng.random() < .1:
                f += 2
            return [a, b, c, d, e, f]
    return [2, 2, 2, 2, 2, 2]


def a9(rng):
    for _ in range(60):
        a, b, d, e = (rng.randint(0, 4) for _ in range(4))
        c, f, g, h = tri(rng, a, b), tri(rng, d, e), tri(rng, a, d), tri(rng, b, e)
        i = [x for x in range(max(abs(c - f), abs(g - h)), min(c + f, g + h) + 1) if (x + c + f) % 2 == 0 and (x + g + h) % 2 == 0]
        if i:
            return [a, b, c, d, e, f, g, h, rng.choice(i)]
    return [0] * 9


def states(rng, k):
    """two states that a tensor of rank k connects, mostly"""
    for _ in range(60):
        I = rng.randint(0, 4)
        J0 = rng.randint(0, 5)
        J1 = max(0, J0 + rng.choice([-4, -2, 0, 0, 2, 2, 4]))
        F0, F1 = tri(rng, I, J0), tri(rng, I, J1)
        M0 = rng.randrange(-F0, F0 + 1, 2)
        M1 = M0 + 2 * rng.randint(-k, k)
        if (abs(J0 - J1) <= 2 * k <= J0 + J1 and abs(F0 - F1) <= 2 * k <= F0 + F1 and abs(M1) <= F1) or rng.random() < .03:
            break
    return I, J0, F0, M0, J1, F1, M1


def args_for(rng, f):
    """doubled numbers; a tuple among them is a vector and not doubled"""
    if f == 'wigner3j':
        return a3(rng)
    if f == 'wigner6j':
        return a6(rng)
    if f == 'wigner9j':
        return a9(rng)
    if f.startswith('tkq'):
        k = rng.choice([1, 1, 2])
        I, *r = states(rng, k)
        q = (r[5] - r[2]) // 2
        if rng.random() < .2:
            q = rng.randint(-k, k)
        return [I, 2 * k, 2 * q] + r
    if f in STR:
        st = list(states(rng, 2 if f.startswith('E2') else 1))
        v = [list(rng.choice(EPS))] if 'geom' in f else []
        if f.startswith('E2') and v:
            v.append(list(rng.choice(EPS)))
        return v + st
    f = f.replace('readable_', '')
    lc, lo = 2 * rng.randint(0, 3), 2 * rng.randint(0, 3)
    sc, so = rng.randint(0, 2), rng.randint(0, 2)
    if f == 'JJ_to_LS':
        Jc, Jo = tri(rng, lc, sc), tri(rng, lo, so)
        return [tri(rng, Jc, Jo), Jc, Jo, lc, sc, lo, so]
    if f == 'JK_to_LS':
        Jc = tri(rng, lc, sc)
        K = tri(rng, Jc, lo)
        return [tri(rng, K, so), Jc, K, lc, sc, lo, so]
    L = tri(rng, lc, lo)
    K = tri(rng, L, sc)
    return [tri(rng, K, so), L, K, sc, so]


def vary(rng, f, a):
    """numbers related to a: what a key that forgets something would take for the same"""
    a = [list(x) if isinstance(x, list) else x for x in a]
    how = rng.random()
    vec = [i for i, x in enumerate(a) if isinstance(x, list)]
    num = [i for i, x in enumerate(a) if not isinstance(x, list)]
    if vec and how < .5:
        i = rng.choice(vec)
        if len(vec) == 2 and rng.random() < .25:
            return [a[1], a[0]] + a[2:]
        if rng.random() < .5:
            a[i] = list(rng.choice(EPS))
        else:
            a[i] = [-x for x in a[i]] if rng.random() < .5 else a[i][1:] + a[i][:1]
        return a
    if f == 'wigner3j':
        if how < .4:
            p = rng.choice([(1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0), (2, 0, 1)])
            return [a[i] for i in p] + [a[3 + i] for i in p]
        if how < .7:
            return a[:3] + [-x for x in a[3:]]
    elif f == 'wigner6j' and how < .5:
        p = rng.choice([(1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0)])
        if rng.random() < .5:
            return [a[i] for i in p] + [a[3 + i] for i in p]
        return [a[3], a[4], a[2], a[0], a[1], a[5]] if rng.random() < .5 else [a[3], a[1], a[2], a[0], a[4], a[5]]
    elif f == 'wigner9j' and how < .6:
        p = rng.choice([(1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0)])
        if rng.random() < .3:
            return [a[3 * j + i] for i in range(3) for j in range(3)]
        if rng.random() < .5:
            return [a[3 * i + j] for i in p for j in range(3)]
        return [a[3 * i + j] for i in range(3) for j in p]
    elif f in STR and how < .6:
        n = len(a) - 6
        if f.startswith('tkq') and how < .35:
            if rng.random() < .3:
                a[1] = 6 - a[1]
            else:
                a[2] = rng.choice([x for x in (-2, 0, 2) if x != a[2]])
                if rng.random() < .4:
                    a[8] = a[5] + a[2]
            return a
        I, J0, F0, M0, J1, F1, M1 = a[n - 1], *a[n:]
        if f.startswith('tkq'):
            I = a[0]
        if rng.random() < .3:                      # another of the numbers, still coupled
            ok = [i for i in range(7) if i != I and abs(i - J0) <= F0 <= i + J0 and abs(i - J1) <= F1 <= i + J1 and
                  (i - I) % 2 == 0]
            if ok:
                a[0 if f.startswith('tkq') else n - 1] = rng.choice(ok)
                return a
        if how < .4:                              # the other way round
            return a[:n] + a[n + 3:] + a[n:n + 3]
        a[n + 2], a[n + 5] = -a[n + 2], -a[n + 5]
        return a
    elif f in CON + READ and how < .4 and len(a) == 7:
        return [a[0], a[1], a[2], a[5], a[6], a[3], a[4]] if 'JJ' not in f or rng.random() < .3 else \
            [a[0], a[2], a[1], a[5], a[6], a[3], a[4]]
    i = rng.choice(num)
    a[i] += rng.choice([2, -2, 2, 1, 4])
    if a[i] < 0 and not (f in STR or (f == 'wigner3j' and i > 2)):
        a[i] = 0
    return a


def generate(rng, tier):
    ops, calls = [], []
    fam = rng.choice([WIG, WIG, STR, STR, STR, CON, CON + READ, WIG + STR, WIG + CON, WIG + STR + CON + READ])
    fs_ = rng.sample(fam, min(len(fam), rng.choice([1, 1, 2, 3, 4])))
    ty = rng.choice([['float'], ['int', 'float'], ['float', 'u8', 'int'], NATIVE, NATIVE, NATIVE + EXACT])
    kinds = {k: w for k, w in {'call': 6, 'again': 4, 'vary': 5, 'cut': 3, 'modify': 2, 'warn': 1, 'threads': 3, 'atom': .4,
                               'burst': .15}.items() if k in ('call', 'again', 'vary') or rng.random() < .5}

    def call(kind=None):
        kind = kind or rng.choice(['call', 'again', 'vary'])
        if kind == 'call' or not calls:
            f = rng.choice(fs_)
            a = args_for(rng, f)
        else:
            c = rng.choice(calls[-6:])
            f, a = c['f'], c['args']
            if kind == 'vary':
                a = vary(rng, f, a)
            elif rng.random() < .15:
                other = {'JJ_to_LS': 'readable_JJ_to_LS', 'JK_to_LS': 'readable_JK_to_LS', 'LK_to_LS': 'readable_LK_to_LS',
                         'E1_mel_geom': 'M1_mel_geom', 'E1_transition_strength_avg': 'E2_transition_strength_avg',
                         'tkq_mel': 'tkq_transition_strength', 'E1_transition_strength_geom': 'M1_transition_strength_geom'}
                f = other.get(f, f)
        t = rng.choice(ty)
        if t in EXACT and f not in WIG + ['tkq_mel', 'tkq_transition_strength']:
            t = 'float'
        c = {'f': f, 'args': a, 'type': t}
        calls.append(c)
        return c
    for _ in range(rng.randint(4, 16)):
        k = rng.choices(list(kinds), list(kinds.values()))[0]
        if k in ('call', 'again', 'vary'):
            ops.append({'op': 'call', **call(k)})
        elif k == 'cut':
            ops.append({'op': 'cut', **call(), 'faults': [points.spec(rng) for _ in range(rng.choice([1, 1, 2]))]})
        elif k == 'warn':
            ops.append({'op': 'warn', **call()})
        elif k == 'modify':
            ops.append({'op': 'modify', 'i': rng.randrange(8), 'how': rng.choice(['set', 'mul', 'sort', 'fill', 'clear', 'out', 'resize'])})
        elif k == 'threads':
            n = rng.choice([2, 2, 3])
            th = [[call() for _ in range(rng.randint(1, 3))] for _ in range(n)]
            sw = []
            for _ in range(rng.choice([1, 2, 2, 3, 5])):
                t = rng.randrange(n)
                s = {'t': t, 'to': rng.choice([x for x in range(n) if x != t])}
                if rng.random() < .3:
                    s['k'] = round(rng.random(), 4)
                else:
                    s['site'], s['occ'] = round(rng.random(), 4), rng.choice([0.0, 0.0, .5, .999])
                sw.append(s)
            ops.append({'op': 'threads', 'threads': th, 'switches': sw, 'first': rng.randrange(n)})
        elif k == 'atom':
            ops.append({'op': 'atom', 'n': rng.randrange(len(ATOMS))})
        else:
            ops.append({'op': 'burst', 'seed': rng.randrange(1 << 30), 'n': rng.choice([140, 300])})
    if 'threads' in kinds and rng.random() < .6:     # the first call of a process, on threads
        ops.sort(key=lambda o: o['op'] != 'threads')
    return {'ops': ops}


# ---------------------------------------------------------------- calling the library
def conv(t, x2):
    """the number x2/2 as a value of type t"""
    import numpy as np
    whole = x2 % 2 == 0
    if t == 'frac':
        return Fraction(x2, 2)
    if t == 'sym':
        import sympy
        return sympy.Rational(x2, 2)
    if t == 'f64' or t == 'f32':
        return (np.float64 if t == 'f64' else np.float32)(x2 / 2)
    if whole and t in ('i64', 'i32', 'u8'):
        if t == 'u8' and x2 >= 0:
            return np.uint8(x2 // 2)
        return (np.int32 if t == 'i32' else np.int64)(x2 // 2)
    if t == 'bool' and x2 in (0, 2):
        return x2 == 2
    if t in ('int', 'bool') and whole:
        return x2 // 2
    return x2 / 2


def function(f):
    from atomtoolkit import wigner, transition_strengths, util
    return getattr(wigner if f in WIG else util if f in READ else transition_strengths, f)


def invoke(c):
    return function(c['f'])(*[tuple(x) if isinstance(x, list) else conv(c['type'], x) for x in c['args']])


def plain(r):
    """comparable copy of a result"""
    import numpy as np
    if isinstance(r, np.ndarray):
        return ['array', list(r.shape), [num(x) for x in r.ravel()]]
    if isinstance(r, (list, tuple)):
        return ['list', [[str(k), num(v)] for k, v in r]]
    return ['number', num(r)]


def num(x):
    x = complex(x)
    return [x.real, x.imag]


def answer(c):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = invoke(c)
    except Exception as e:
        return ['raises', type(e).__name__], None
    return plain(r), r


def fresh_answers(calls):
    """each in a process of its own"""
    out = []
    for c in calls:
        o = in_child(fresh_one, c, timeout=40)
        if o.kind != 'ok':
            raise HarnessError(f'fresh process: {o!r}')
        out.append(o.value)
    return out


def fresh_one(c):
    return atom_strengths(c['n']) if 'n' in c else answer(c)[0]


def atom_strengths(n):
    """relative strengths of all components of a small atom"""
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, EnergyLevel, Term, Transition
    I, a, b = ATOMS[n]
    fam = INT if n % 2 else HALF
    lv = []
    for i, k in enumerate((a, b)):
        conf, term, J = fam[k]
        lv.append(EnergyLevel(term=Term(conf, term, J), level=Q_(i * 400, 'THz')))
    atom = Atom(name='x', I=frac(I), levels=lv, B=Q_(1, 'G'))
    t = Transition(*lv, A=Q_(1, 'MHz'))
    t.add_to_atom(atom)
    out = {}
    for s in t.values():
        out[s.name] = num(s.rel_strength)
        for z in s.values():
            out[z.name] = num(z.rel_strength)
    return [[k, v] for k, v in sorted(out.items())]


def key(c):
    return repr((c['f'], c['args'], c['type'])) if 'f' in c else repr(c['n'])


def w9j(a):
    """from 6j symbols"""
    x = [Fraction(v, 2) for v in a]
    j1, j2, j3, j4, j5, j6, j7, j8, j9 = x
    lo = max(abs(j1 - j9), abs(j4 - j8), abs(j2 - j6))
    hi = min(j1 + j9, j4 + j8, j2 + j6)
    tot, g = 0.0, lo
    for t in ((j1, j2, j3), (j4, j5, j6), (j7, j8, j9), (j1, j4, j7), (j2, j5, j8), (j3, j6, j9)):
        if not racah._tri(*t):
            return 0.0
    while g <= hi:
        tot += (-1) ** int(2 * g) * float(2 * g + 1) * racah.w6j(j1, j4, j7, j8, j9, g) * racah.w6j(j2, j5, j8, j4, g, j6) * \
            racah.w6j(j3, j6, j9, g, j1, j2)
        g += 1
    return tot


def exact(c):
    a = c['args']
    if c['f'] == 'wigner9j':
        return w9j(a)
    h = [Fraction(x, 2) for x in a]
    if c['f'] == 'wigner6j':
        return racah.w6j(*h)
    if any((h[i] + h[3 + i]) % 1 for i in range(3)):
        return 0.0
    return racah.w3j(*h)


def same(x, y, tol=1e-9):
    """None or what differs"""
    if x[0] != y[0]:
        return f'{x!r:.200} instead of {y!r:.200}'
    if x[0] == 'raises':
        return None if x == y else f'{x} instead of {y}'
    if x[0] == 'list':
        if len(x[1]) != len(y[1]) or any(p[0] != q[0] or abs(p[1][0] - q[1][0]) > .0101 for p, q in zip(x[1], y[1])):
            return f'{x[1]} instead of {y[1]}'
        return None
    if x[0] == 'array':
        if x[1] != y[1]:
            return f'an array of shape {x[1]} instead of {y[1]}'
        p, q = x[2], y[2]
    else:
        p, q = [x[1]], [y[1]]
    for u, v in zip(p, q):
        for r, s in zip(u, v):
            if not (abs(r - s) <= tol or r == s or (r != r and s != s)):
                return f'{p} instead of {q}' if len(p) > 1 else f'{u} instead of {v}'
    return None


# ---------------------------------------------------------------- execution
def all_calls(ops):
    for op in ops:
        if op['op'] in ('call', 'cut', 'warn'):
            yield {'f': op['f'], 'args': op['args'], 'type': op['type']}
        elif op['op'] == 'threads':
            for t in op['threads']:
                yield from t
        elif op['op'] == 'atom':
            yield {'n': op['n']}


class Run:
    def __init__(self, ctx, fresh):
        self.ctx, self.fresh, self.held, self.asked, self.forms = ctx, fresh, [], set(), set()

    def judge(self, c, got, where):
        d = same(got, self.fresh[key(c)]) if key(c) in self.fresh else None
        if not d and key(c) not in self.fresh and got[0] != 'number':
            d = repr(got)
        if d:
            raise Violation('answer', f'{where}: {c["f"]}({c["args"]} halves, as {c["type"]}) gives {d}')
        if c['f'] in WIG and got[0] == 'number':
            x = exact(c)
            if not abs(got[1][0] - x) <= 1e-9 and c['type'] not in ODD:
                raise Violation('exact', f'{where}: {c["f"]}({c["args"]} halves, as {c["type"]}) gives {got[1][0]!r}, exactly {x!r}')

    def note(self, c, how):
        k = repr((c['f'], c['args']))
        self.ctx.state((c['f'], c['type'], how, k in self.asked))
        if (k in self.asked) and key(c) not in self.forms:
            self.ctx.nontrivial = True
        self.asked.add(k)
        self.forms.add(key(c))

    def hold(self, c, p, r):
        if r is not None:
            self.held.append([c, p, r, False])

    def call(self, c, where, how='call'):
        self.note(c, how)
        p, r = answer(c)
        self.judge(c, p, where)
        self.hold(c, p, r)
        self.ctx.log(c['f'], p)

    def cut(self, c, faults, where):
        def quiet():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return invoke(c)

        def trial():
            try:
                return quiet()
            except Exception:
                return None

        def sites():
            return [points.site(*s) for s in counted_sites(trial)]
        for spec in faults:
            s = forked(sites)
            k = points.choose(s, spec)
            if k is None:
                break
            inj = points.Inject(k, spec['exc'])
            try:
                r, v = inj.run(quiet)
            except Exception as e:
                r, v = 'raised', e
            if inj.fired:
                self.ctx.fault(spec['exc'])
                self.ctx.nontrivial = True
                self.ctx.state(inj.fired)
            self.ctx.log('cut', inj.fired, r)
            if r == 'done':
                self.judge(c, plain(v), where + ' (interruption survived)')
        self.call(c, where, 'cut')

    def modify(self, i, how):
        import numpy as np
        cand = [h for h in self.held if not isinstance(h[2], (int, float, complex)) and isinstance(h[2], (list, np.ndarray))]
        if not cand:
            return
        h = cand[-1 - i % len(cand)]
        x = h[2]
        before = plain(x)
        try:
            if isinstance(x, list):
                if how in ('clear', 'fill'):
                    x.clear()
                elif how == 'sort':
                    x.reverse()
                elif x:
                    x[0] = ('9Z', 1.0)
            elif how == 'set' or how == 'clear':
                x[..., :1] = 7.0
            elif how == 'mul':
                x *= 2
            elif how == 'sort':
                x.sort()
            elif how == 'out':
                np.add(x, 1, out=x)
            elif how == 'resize':
                x.resize((1, 1), refcheck=False)
            else:
                x.fill(3)
        except ValueError:
            self.ctx.probe('a modification was refused')
            d = same(plain(x), before)
            if d:
                raise Violation('half-modified', f'a refused modification changed a result: {d}')
            return
        self.ctx.fault('result overwritten')
        self.ctx.nontrivial = True
        h[3] = True

    def threads(self, op, where):
        progs = [[c for c in t] for t in op['threads']]
        if len(progs) < 2 or not all(progs):
            return

        def program(t):
            def run():
                out = []
                for c in t:
                    try:
                        out.append(plain(invoke(c)))
                    except Exception as e:
                        out.append(['raises', type(e).__name__])
                return out
            return run

        def alone():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s = sched.Scheduler([program(t) for t in progs], record=True).run()
            return [[s._name(x) for x in t] for t in s.sites]
        sites = forked(alone)
        sw = {}
        for s in op['switches']:
            if s['t'] < len(progs) and s['to'] < len(progs):
                k = points.choose(sites[s['t']], s)
                if k is not None:
                    sw[(s['t'], k)] = s['to']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = sched.Scheduler([program(t) for t in progs], sw).run(op['first'] % len(progs))
        inner = [x for x in s.trace if x[2] not in ('done', 'blocked')]
        self.ctx.fault('preemption', len(inner))
        self.ctx.nontrivial |= bool(inner)
        self.ctx.log(s.trace)
        if s.deadlock is not None:
            raise Violation('deadlock', f'{where}: threads {s.deadlock} wait for each other; switches {s.trace}')
        for t, r in zip(progs, s.result):
            if r[0] == 'exc':
                raise Violation('thread-error', f'{where}: a thread fails: {r[1:]}; switches {s.trace}')
            for c, got in zip(t, r[1]):
                self.note(c, 'thread')
                self.judge(c, got, f'{where}, on a thread, switches {s.trace}')
        for t in progs:
            for c in t:
                self.call(c, where + ', after the threads', 'after threads')

    def burst(self, op, where):
        import random
        r = random.Random(op['seed'])
        calls = [{'f': 'wigner6j', 'args': a6(r), 'type': 'float'} if r.random() < .5 else
                 {'f': 'wigner3j', 'args': a3(r), 'type': 'float'} for _ in range(op['n'])]
        for c in calls:
            p, _ = answer(c)
            if p[0] != 'number' or not abs(p[1][0] - exact(c)) <= 1e-9:
                raise Violation('exact', f'{where}: in a series of calls {c["f"]}({c["args"]} halves) gives {p}, exactly {exact(c)!r}')
            self.asked.add(repr((c['f'], c['args'])))

    def finish(self):
        for c, p, r, mod in self.held:
            if not mod:
                d = same(plain(r), p, 0.0)
                if d:
                    raise Violation('result-changed', f'the value that {c["f"]}({c["args"]} halves) returned became {d}')
        for c, p, r, mod in list(self.held):
            self.call(c, 'at the end')


def counted_sites(fn):
    c = points.Count()
    c.run(fn)
    return c.sites


def execute(case, ctx):
    z = Zygote()
    try:
        distinct = {}
        for i, c in enumerate(all_calls(case['ops'])):
            if 'f' in c and c['f'] in WIG and c['type'] not in ODD and i % 8:
                continue        # known exactly
            distinct.setdefault(key(c), c)
        o = z.call(fresh_answers, list(distinct.values()))
    finally:
        z.close()
    if o.kind != 'ok':
        raise HarnessError(f'fresh answers: {o!r}')
    run = Run(ctx, dict(zip(distinct, o.value)))
    for i, op in enumerate(case['ops']):
        where = f'op {i}'
        if op['op'] == 'call':
            run.call({x: op[x] for x in ('f', 'args', 'type')}, where)
        elif op['op'] == 'cut':
            run.cut({x: op[x] for x in ('f', 'args', 'type')}, op['faults'], where)
        elif op['op'] == 'warn':
            c = {x: op[x] for x in ('f', 'args', 'type')}
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                try:
                    p = plain(invoke(c))
                    run.judge(c, p, where)
                except Exception as e:
                    if isinstance(e, Warning):
                        ctx.fault('warning as error')
                        ctx.nontrivial = True
            run.call(c, where, 'warn')
        elif op['op'] == 'modify':
            run.modify(op['i'], op['how'])
        elif op['op'] == 'threads':
            run.threads(op, where)
        elif op['op'] == 'atom':
            got = atom_strengths(op['n'])
            want = run.fresh[repr(op['n'])]
            if len(got) != len(want) or any(a[0] != b[0] or abs(a[1][0] - b[1][0]) > 1e-9 for a, b in zip(got, want)):
                raise Violation('atom', f'{where}: an atom\'s components have strengths {[(a, b) for a, b in zip(got, want) if a != b]}')
            ctx.probe('atom on warm caches')
        else:
            run.burst(op, where)
    run.finish()
    return None
