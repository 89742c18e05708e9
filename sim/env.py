"""Bootstrap: where the code under test is, scratch space, deterministic imports, and the clock seam of tqdm."""
import atexit
import os
import random
import shutil
import sys
import tempfile
import warnings

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='atsim-')
        pid = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
        os.environ['HOME'] = _scratch
        os.environ['MPLCONFIGDIR'] = _scratch
        os.environ['XDG_CACHE_HOME'] = _scratch
    return _scratch


class SimClock:
    """simulated seconds; every look at it takes a fixed time"""
    def __init__(self):
        self.now = 1e9

    def time(self):
        self.now += 0.03
        return self.now


clock = SimClock()


def bootstrap(threads=False):
    """imports the code under test from REPO's working tree"""
    scratch_root()
    sys.path.insert(0, REPO)
    warnings.filterwarnings('ignore', category=DeprecationWarning)
    warnings.filterwarnings('ignore', category=FutureWarning)
    import numpy, pandas, pint, pint_pandas, networkx, sympy, tqdm      # noqa: third parties first
    import sympy.physics.wigner     # noqa
    import tqdm.std
    tqdm.std.tqdm.monitor_interval = 0
    tqdm.std.time = clock.time
    from . import sched
    if threads:
        sched.install_locks()
    try:
        import atomtoolkit
        import atomtoolkit.atom, atomtoolkit.IO     # noqa
    finally:
        if threads:
            sched.uninstall_locks()
    if not os.path.realpath(atomtoolkit.__file__).startswith(REPO + os.sep):
        raise HarnessError(f'atomtoolkit imported from {atomtoolkit.__file__}, not {REPO}')
    random.seed(0)
    numpy.random.seed(0)


def prewarm():
    """fills the (pure) Wigner caches once, so that forked runs need not; failures show up in the runs themselves"""
    try:
        from atomtoolkit.wigner import wigner3j, wigner6j
        from .pool import F_values, m_values
        import itertools
        for fam, spins in ((((.5, 1.5, 2.5, 3.5)), (0.0, .5, 1.0, 1.5)), ((0.0, 1.0, 2.0, 3.0, 4.0), (0.0, .5, 1.0, 1.5))):
            for I in spins:
                for J0, J1 in itertools.product(fam, fam):
                    if abs(J0 - J1) > 2:
                        continue
                    for F0 in F_values(J0, I):
                        for F1 in F_values(J1, I):
                            if abs(F0 - F1) <= 2:
                                for k in (1, 2):
                                    wigner6j(J0, J1, k, F1, F0, I)
                                    wigner6j(J1, F1, I, F0, J0, k)
        for F0, F1 in itertools.product((0.0, .5, 1.0, 1.5, 2.0), repeat=2):
            if abs(F0 - F1) in (0, 1):
                for m0, m1 in itertools.product(m_values(F0), m_values(F1)):
                    if abs(m0 - m1) <= 1:
                        for q in (-1, 0, 1):
                            wigner3j(F1, 1, F0, -m1, q, m0)
                            wigner3j(F1, 1, F0, -m0, q, m1)
    except Exception:
        pass
