"""C09: synchrotron spectra against an independent implementation."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import phys, rad, ref
from ..gen import chance, logf
from ..harness import Sub
from ..util import close

RULE = (
    "electron distribution (naima model or plain function), field and its unit, electron "
    "energy limits and grid (or the defaults) and photon energies drawn by Hypothesis; "
    "compared with an independent cgs implementation; non-trivial: the flux is positive "
    "at some energy"
)
ASSUMPTIONS = [
    "CODATA 2018 constants; relative tolerance 2e-4 against the AKP10 emissivity on the "
    "same grid, 1 % against the exact emissivity (Bessel functions)"]

BUNIT = {"uG": 1e-6, "G": 1.0, "nT": 1e-5, "T": 1e4, "mG": 1e-3, "nG": 1e-9, "pT": 1e-8,
         "uT": 1e-2, "kG": 1e3}


@st.composite
def cases(draw):
    kw = draw(phys.electron_kw())
    if draw(chance(0.85)):
        kw["B"] = None
        B = [draw(logf(1e-7, 1e3)), draw(st.sampled_from(sorted(BUNIT)))]
    else:
        B = None
    kw.pop("B", None)
    b = B[0] if B else 3.24e-6
    # around the critical energy of electrons from 100 MeV to 1 PeV
    ec = 1.7e-8 * b * 1e4  # eV at gamma=100
    return {"pd": draw(rad.dists()), "kw": kw, "B": B,
            "energies": draw(phys.photons(ec, ec * 1e15)), "warm": draw(phys.warm()),
            "scale": draw(logf(1e-3, 1e3))}


def build(case, scale=1.0):
    kw = phys.naima_kw(case["kw"])
    if case["B"]:
        b, unit = case["B"]
        kw["B"] = b * scale / BUNIT[unit] * u.Unit(unit)
    elif scale != 1.0:
        kw["B"] = 3.24e-6 * scale * u.G
    return phys.make(naima.models.Synchrotron, case["pd"], kw, case.get("warm"),
                     case["energies"])


def check(case):
    lo, hi, n = phys.limits(case["kw"], 1e9, phys.EMAX, 100)
    if phys.ambiguous(lo, hi, n):
        return False
    e = np.array(case["energies"])
    B = case["B"][0] if case["B"] else 3.24e-6
    pd = rad.dist(case["pd"])
    got = phys.flux(build(case), e)
    want = ref.synchrotron(pd, B, e, lo, hi, n)
    close(got, want, rtol=2e-4, atol=1e-100, what="synchrotron flux in B=%g G" % B)
    # the emissivity is a function of E/B: dL/dE(k E, k B) = dL/dE(E, B)
    k = case["scale"]
    close(phys.flux(build(case, k), e * k), got, rtol=1e-6, atol=1e-100,
          what="flux with field and energies scaled by %g" % k)
    return bool(np.any(want > 0))


def check_exact(case):
    lo, hi, n = phys.limits(case["kw"], 1e9, phys.EMAX, 100)
    if phys.ambiguous(lo, hi, n):
        return False
    e = np.array(case["energies"])
    B = case["B"][0] if case["B"] else 3.24e-6
    want = ref.synchrotron(rad.dist(case["pd"]), B, e, lo, hi, n,
                           emissivity=ref.sync_emissivity_exact)
    # up to x=20 of the most energetic electrons: AKP10 state < 0.2 %
    ok = e < 20 * 1.7e-8 * B * (hi / ref.MEC2_EV) ** 2
    if not ok.any():
        return False
    close(phys.flux(build(case), e)[ok], want[ok], rtol=1e-2, atol=1e-100,
          what="synchrotron flux against the exact emissivity")
    return bool(np.any(want[ok] > 0))


SUBS = [
    Sub("reference", cases(), check, quick=2000, thorough=24000),
    Sub("exact", cases(), check_exact, quick=400, thorough=4000),
]
