"""Exact selection rules: Wigner 3j/6j symbols as (sign, rational square), by Racah's sums.  Independent of /repo."""
from fractions import Fraction
from functools import lru_cache
from math import factorial, sqrt


def _f(x):
    x = Fraction(x).limit_denominator(2)
    assert x.denominator == 1
    return factorial(int(x))


def _tri(a, b, c):
    return abs(a - b) <= c <= a + b and (a + b + c) % 1 == 0


def _delta(a, b, c):
    return Fraction(_f(a + b - c) * _f(a - b + c) * _f(-a + b + c), _f(a + b + c + 1))


@lru_cache(maxsize=None)
def w6j(a, b, c, d, e, f):
    """value of {a b c; d e f}"""
    a, b, c, d, e, f = map(Fraction, (a, b, c, d, e, f))
    for t in ((a, b, c), (a, e, f), (d, b, f), (d, e, c)):
        if not _tri(*t):
            return 0.0
    lo = max(a + b + c, a + e + f, d + b + f, d + e + c)
    hi = min(a + b + d + e, b + c + e + f, c + a + f + d)
    s, t = Fraction(0), lo
    while t <= hi:
        den = _f(t - a - b - c) * _f(t - a - e - f) * _f(t - d - b - f) * _f(t - d - e - c) * \
            _f(a + b + d + e - t) * _f(b + c + e + f - t) * _f(c + a + f + d - t)
        s += Fraction((-1) ** int(t) * _f(t + 1), den)
        t += 1
    if s == 0:
        return 0.0
    n = _delta(a, b, c) * _delta(a, e, f) * _delta(d, b, f) * _delta(d, e, c)
    return float(s) * sqrt(n)


@lru_cache(maxsize=None)
def w3j(a, b, c, al, be, ga):
    a, b, c, al, be, ga = map(Fraction, (a, b, c, al, be, ga))
    if al + be + ga != 0 or not _tri(a, b, c):
        return 0.0
    if abs(al) > a or abs(be) > b or abs(ga) > c:
        return 0.0
    lo = max(Fraction(0), b - c - al, a - c + be)
    hi = min(a + b - c, a - al, b + be)
    s, t = Fraction(0), lo
    while t <= hi:
        den = _f(t) * _f(a + b - c - t) * _f(a - al - t) * _f(b + be - t) * _f(c - b + t + al) * _f(c - a + t - be)
        s += Fraction((-1) ** int(t), den)
        t += 1
    if s == 0:
        return 0.0
    n = _delta(a, b, c) * _f(a + al) * _f(a - al) * _f(b + be) * _f(b - be) * _f(c + ga) * _f(c - ga)
    return (-1) ** int(a - b - ga) * float(s) * sqrt(n)


def types(J0, J1, p0, p1, same=False):
    """E1, M1, E2 as the library defines them for two levels"""
    d = abs(J0 - J1)
    return (d <= 1 and p0 != p1, d <= 1 and p0 == p1, d <= 2 and p0 == p1 and not same)


def hf_types(ty, J0, J1, F0, F1, I):
    r1 = w6j(J0, J1, 1, F1, F0, I) != 0
    r2 = w6j(J0, J1, 2, F1, F0, I) != 0
    return (ty[0] and r1, ty[1] and r1, ty[2] and r2)


def z_types(ty, F0, m0, F1, m1):
    def ok(k):
        q = m1 - m0
        return abs(q) <= k and w3j(F1, k, F0, -m1, q, m0) != 0
    return (ty[0] and ok(1), ty[1] and ok(1), ty[2] and ok(2))


def reach(ty):
    """how far quantum numbers of listed components may differ"""
    return 2 if (ty[2] and not ty[1]) else 1
