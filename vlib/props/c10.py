"""C10: inverse Compton spectra against an independent implementation."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import phys, rad, ref
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import arr, close, fail

RULE = (
    "electron distribution, seed photon field of every kind, electron energy limits and "
    "grid (or the defaults) and photon energies drawn by Hypothesis; compared with an "
    "independent cgs implementation and with other descriptions of the same field; "
    "non-trivial: the flux is positive at some energy"
)
ASSUMPTIONS = [
    "CODATA 2018 constants; relative tolerance 2e-4 against the published rates on the "
    "same grid; 5 % between different descriptions of a field, where the flux is above "
    "1e-3 of the peak of its SED"]
IC = naima.models.InverseCompton


@st.composite
def cases(draw):
    kw = draw(phys.electron_kw())
    seeds = draw(rad.seed_fields(max_size=2))
    if draw(chance(0.1)):
        seeds = None
    return {"pd": draw(rad.dists()), "kw": kw, "seeds": seeds,
            "energies": draw(phys.photons(1e-2, 1e15)), "warm": draw(phys.warm())}


def check(case):
    lo, hi, n = phys.limits(case["kw"], 1e9, phys.EMAX, 100)
    if phys.ambiguous(lo, hi, n):
        return False
    e = np.array(case["energies"])
    kw = phys.naima_kw(case["kw"])
    if case["seeds"] is not None:
        kw["seed_photon_fields"] = rad.seeds_arg(case["seeds"])
    got = phys.flux(phys.make(IC, case["pd"], kw, case.get("warm"), e,
                              fixed=["seed_photon_fields"]), e)
    seeds = [phys.seed_ref(s) for s in
             (case["seeds"] or [{"kind": "named", "name": "CMB"}])]
    want = ref.inverse_compton(rad.dist(case["pd"]), seeds, e, lo, hi, n)
    close(got, want, rtol=2e-4, atol=1e-100, what="inverse Compton flux")
    if np.any(got[e > hi * (1 + 1e-9)] != 0):
        fail("flux above the maximum electron energy %g eV: %r at %r", hi, got, e)
    labels = [s[0] for s in seeds]
    return labels + (["trivial"] if not np.any(want > 0) else [])


@st.composite
def angle_cases(draw):
    return {"pd": draw(rad.dists(callables=False)), "T": draw(logf(2, 3e4, 3)),
            "u": draw(logf(0.01, 100, 3)), "ned": draw(st.integers(80, 120)),
            "energies": draw(phys.photons(1e4, 1e14, 2, 5))}


def peak(pd_spec, T, uu, ned):
    """Peak of the SED of the isotropic field."""
    e = np.logspace(0, 15, 31)
    s = phys.flux(IC(rad.dist(pd_spec), [["x", T * u.K, uu * u.Unit("eV/cm3")]],
                     nEed=ned), e) * e ** 2
    return s.max()


def check_angles(case):
    T, uu, n = case["T"], case["u"], case["ned"]
    e = np.array(case["energies"])

    def f(*theta):
        seed = ["x", T * u.K, uu * u.Unit("eV/cm3")] + [t * u.rad for t in theta]
        return phys.flux(IC(rad.dist(case["pd"]), [seed], nEed=n), e)

    mu, w = np.polynomial.legendre.leggauss(12)
    avg = sum(wi * f(float(np.arccos(m))) for m, wi in zip(mu, w)) / 2
    iso = f()
    ok = iso * e ** 2 > 1e-3 * peak(case["pd"], T, uu, n)
    if not ok.any():
        return False
    close(avg[ok], iso[ok], rtol=0.05, what="average over angles of anisotropic fields")
    # head-on scatterings are the most energetic ones: more photons close to
    # the end of the spectrum
    return True


def check_planck(case):
    """A black body of given energy density, as a table."""
    T, uu, n = case["T"], case["u"], case["ned"]
    e = np.array(case["energies"])
    kt = ref.KB * T / ref.EV
    x = np.logspace(-4, np.log10(40), 400)
    es = x * kt
    nn = es ** 2 / np.expm1(x)
    nn *= uu / ref.loglog_integral(nn * es, es)
    f1 = phys.flux(IC(rad.dist(case["pd"]), [["x", T * u.K, uu * u.Unit("eV/cm3")]],
                      nEed=n), e)
    tabs = [["x", es * u.eV, nn * u.Unit("1/(eV cm3)")],
            ["x", es * u.eV, (nn * es ** 2) * u.Unit("eV/cm3")]]
    ok = f1 * e ** 2 > 1e-3 * peak(case["pd"], T, uu, n)
    if not ok.any():
        return False
    for t in tabs:
        f2 = phys.flux(IC(rad.dist(case["pd"]), [t], nEed=n), e)
        close(f2[ok], f1[ok], rtol=0.05, what="tabulated black body of %g K" % T)
    return True


def check_mono(case):
    """A narrow tabulated line is a monochromatic field."""
    uu, n = case["u"], case["ned"]
    e0 = case["T"] * 1e-4  # eV
    e = np.array(case["energies"])
    es = e0 * np.linspace(0.99, 1.01, 9)
    f1 = phys.flux(IC(rad.dist(case["pd"]), [["x", e0 * u.eV, uu * u.Unit("eV/cm3")]],
                      nEed=n), e)
    nn = np.full(9, uu / ref.loglog_integral(es, es))
    f2 = phys.flux(IC(rad.dist(case["pd"]), [["x", es * u.eV, nn * u.Unit("1/(eV cm3)")]],
                      nEed=n), e)
    # electrons between two points of the grid may be the threshold
    ok = (f1 > 0) & (f2 > 0) & (e < 1e12) & (4 * e0 * ref.MEC2_EV ** -2 * 1e18 < 1e30)
    thr = e > 4 * e0 * (1e9 / ref.MEC2_EV) ** 2 * 0.5
    ok &= ~thr
    if not ok.any():
        return False
    close(f2[ok], f1[ok], rtol=0.05, what="narrow line at %g eV" % e0)
    return True


def check_mono_angles(case):
    """The average over angles of a monochromatic field is the isotropic one."""
    uu = case["u"]
    e0 = case["T"] * 1e-4  # eV
    e = np.array(case["energies"])

    def f(*theta, e=e):
        seed = ["x", e0 * u.eV, uu * u.Unit("eV/cm3")] + [t * u.rad for t in theta]
        return phys.flux(IC(rad.dist(case["pd"]), [seed], nEed=600), e)

    mu, w = np.polynomial.legendre.leggauss(24)
    avg = sum(wi * f(float(np.arccos(m))) for m, wi in zip(mu, w)) / 2
    iso = f()
    # far from the highest electron energy, where the grid of electrons is too coarse
    grid = np.logspace(0, 15, 31)
    ok = (iso * e ** 2 > 1e-3 * np.max(f(e=grid) * grid ** 2)) & (e < 1e12)
    if not ok.any():
        return False
    close(avg[ok], iso[ok], rtol=0.12, what="average over angles of a field of %g eV" % e0)
    return True


SUBS = [
    Sub("reference", cases(), check, quick=1600, thorough=20000),
    Sub("angles", angle_cases(), check_angles, quick=200, thorough=2000),
    Sub("planck", angle_cases(), check_planck, quick=160, thorough=1500),
    Sub("line", angle_cases(), check_mono, quick=160, thorough=1500),
    Sub("mono angles", angle_cases(), check_mono_angles, quick=120, thorough=1500),
]
