"""Vocabulary of the simulated workloads: levels, spins, units.  Own formulas only; nothing is imported from /repo."""
from fractions import Fraction

C_LIGHT = 299792458.0
MU_B = 1.39962449361e6  # Hz/G, the constant the library documents

#  conf, term, J : two families, because a real atom has only integer or only half-integer J
HALF = [
    ('4f14.6s', '2S', '1/2'), ('4f14.6p', '2P*', '1/2'), ('4f14.6p', '2P*', '3/2'), ('4f14.5d', '2D', '3/2'),
    ('4f14.5d', '2D', '5/2'), ('4f13.(2F*).6s2', '2F*', '7/2'), ('4f13.(2F*<7/2>).5d.6s.(3D)', '3[3/2]*', '1/2'),
    ('4f14.7s', '2S', '1/2'), ('4f13.(2F*<7/2>).5d.6s.(1D)', '1[5/2]*', '5/2'), ('4f13.(2F*).6s2', '2F*', '5/2'),
]
INT = [
    ('5s2', '1S', '0'), ('5s.5p', '3P*', '0'), ('5s.5p', '3P*', '1'), ('5s.5p', '3P*', '2'), ('5s.5p', '1P*', '1'),
    ('5s.4d', '1D', '2'), ('4f13.(2F*<7/2>).6s<1/2>', '(7/2,1/2)*', '4'), ('5s.6s', '3S', '1'),
    ('4f13(2F*<7/2>).6s<1/2>', '(7/2, 1/2)*', '3'), ('5s.4d', '3D', '1'),
]
LARGE_J = [('4f12.5d', '4K*', '15/2'), ('4f11.6s2', '4I*', '13/2'), ('4f10.6s2', '5I', '8'), ('4f10.6s.6p', '5K*', '9'),
           ('4f10.5d.6s', '6M', '21/2'), ('4f10.6s.6p', '6L*', '19/2'), ('4f9.5d.6s', '7N*', '12'), ('4f9.6s.6p', '7M', '11')]   # rarely used
POOL = HALF + INT + LARGE_J
FAMILY = {'half': list(range(len(HALF))), 'int': list(range(len(HALF), len(HALF + INT)))}
BIG = {'half': [len(HALF + INT), len(HALF + INT) + 1], 'int': [len(HALF + INT) + 2, len(HALF + INT) + 3]}
HUGE = {'half': [len(HALF + INT) + 4, len(HALF + INT) + 5], 'int': [len(HALF + INT) + 6, len(HALF + INT) + 7]}    # in C15

GRID = 50e12    # Hz between the energy slots of two levels


def frac(s):
    return float(Fraction(s))


def fs(x):
    """half-integer -> '3/2' / '2'"""
    f = Fraction(x).limit_denominator(2)
    return str(f)


def lname(k):
    conf, term, J = POOL[k]
    return f'{conf} {term}{J}'


def J_of(k):
    return frac(POOL[k][2])


def parity(k):
    return -1 if '*' in POOL[k][1] else 1


FREQ_UNITS = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12, '1/cm': 100 * C_LIGHT}


def to_hz(v, unit):
    if unit == 'nm':
        return C_LIGHT / (v * 1e-9)
    return v * FREQ_UNITS[unit]


def from_hz(hz, unit):
    if unit == 'nm':
        return C_LIGHT / hz * 1e9
    return hz / FREQ_UNITS[unit]


B_UNITS = {'G': 1.0, 'kG': 1e3, 'mG': 1e-3}     # (pint keeps the tesla apart from the gauss)


def F_values(J, I):
    out, f = [], abs(J - I)
    while f <= J + I + 1e-9:
        out.append(f)
        f += 1
    return out


def m_values(F):
    out, m = [], -F
    while m <= F + 1e-9:
        out.append(m)
        m += 1
    return out


def hf_shift(A, B, C, I, J, F):
    K = F * (F + 1) - J * (J + 1) - I * (I + 1)
    s = A * K / 2
    if I > 0.5 and J > 0.5:
        s += B * (1.5 * K * (K + 1) - 2 * I * (I + 1) * J * (J + 1)) / (4 * I * (2 * I - 1) * J * (2 * J - 1))
    if I > 1 and J > 1:
        X = K / 2
        num = 10 * X ** 3 + 20 * X ** 2 + 2 * X * (I * (I + 1) + J * (J + 1) + 3 - 3 * I * (I + 1) * J * (J + 1)) \
            - 5 * I * (I + 1) * J * (J + 1)
        s += C * num / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
    return s


def g_F(gJ, I, J, F):
    if F == 0:
        return 0.0
    return gJ * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))
