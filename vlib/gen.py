"""Shared strategies (plain data only) and helpers to rebuild objects."""
import math

from hypothesis import strategies as st

ENERGY_UNITS = ["eV", "keV", "MeV", "GeV", "TeV", "PeV", "erg", "J"]


def sig(x, n=5):
    return float("%.*g" % (n, x))


def logf(lo, hi, n=5):
    """Log-uniform positive float with n significant digits in [lo, hi].

    Drawn through an integer grid: uniform in the logarithm, shrinking to lo
    (st.floats prefers exotic values, which mean nothing here)."""
    a, b = math.log10(lo), math.log10(hi)

    def conv(i):
        v = sig(10.0 ** (a + (b - a) * i / 200000.0), n)
        return min(max(v, lo), hi)

    return st.integers(0, 200000).map(conv)


def linf(lo, hi, n=4):
    """Uniform float in [lo, hi], round numbers and end points included."""
    def conv(i):
        return min(max(sig(lo + (hi - lo) * i / 200000.0, n), lo), hi)

    ints = [float(k) for k in range(math.ceil(lo), math.floor(hi) + 1)][:12]
    specials = sorted(set([lo, hi] + ints))
    grid = st.integers(0, 200000).map(conv)
    return st.one_of(grid, grid, grid, st.sampled_from(specials))


def energies(lo, hi, min_size=1, max_size=6, sort=False, unique=True, n=5):
    s = st.lists(logf(lo, hi, n), min_size=min_size, max_size=max_size, unique=unique)
    return s.map(sorted) if sort else s


def chance(p):
    """True with probability ~p, shrinking to False."""
    return st.integers(0, 99).map(lambda i: i >= 100 - int(round(100 * p)))


def eu():
    return st.sampled_from(ENERGY_UNITS)
