"""C11: Bremsstrahlung spectra against an independent implementation."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import phys, rad, ref
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "electron distribution, ion density, weights, electron energy limits and grid (or the "
    "defaults) and photon energies drawn by Hypothesis; compared with an independent cgs "
    "implementation; non-trivial: the flux is positive at some energy"
)
ASSUMPTIONS = [
    "relative tolerance 2e-4; within 0.5 MeV of the kinematic limit, where the approximate "
    "cross sections turn negative, either their value or zero is accepted"]


@st.composite
def cases(draw):
    kw = draw(phys.electron_kw(emin=(7e5, 1e12)))
    if draw(chance(0.7)):
        kw["n0"] = None
    n0 = [draw(logf(1e-4, 1e6)), draw(st.sampled_from(["1/cm3", "1/m3", "1/pc3"]))] \
        if "n0" in kw else None
    kw.pop("n0", None)
    w = {}
    for k in ("weight_ee", "weight_ep"):
        if draw(chance(0.4)):
            w[k] = draw(st.one_of(st.just(0.0), linf(0, 4)))
    return {"pd": draw(rad.dists()), "kw": kw, "n0": n0, "w": w,
            "energies": draw(phys.photons(1e4, 1e15)), "warm": draw(phys.warm())}


def check(case):
    lo, hi, n = phys.limits(case["kw"], 1e8, phys.EMAX, 300)
    if phys.ambiguous(lo, hi, n):
        return False
    e = np.array(case["energies"])
    kw = phys.naima_kw(case["kw"])
    if case["n0"]:
        kw["n0"] = (case["n0"][0] / u.cm ** 3).to(case["n0"][1])
    B = naima.models.Bremsstrahlung
    got = phys.flux(phys.make(B, case["pd"], dict(kw, **case["w"]), case.get("warm"), e), e)
    pars = dict(n0=case["n0"][0] if case["n0"] else 1.0,
                w_ee=case["w"].get("weight_ee", 1.0875),
                w_ep=case["w"].get("weight_ep", 1.2625),
                emin_ev=lo, emax_ev=hi, ned=n)
    pd = rad.dist(case["pd"])
    # a photon at the energy of a point of the grid up to rounding errors may be
    # on either side of it
    alts = [ref.bremsstrahlung(pd, e * k, raw=raw, **pars)
            for k in (1 - 1e-9, 1 + 1e-9) for raw in (False, True)]
    want = alts[0]
    alts = np.array(alts)
    lo_, hi_ = alts.min(axis=0), alts.max(axis=0)
    near = np.clip(got, lo_, hi_)
    pick = np.where(np.abs(near - got) < np.abs(want - got), near, want)
    close(got, pick, rtol=2e-4, atol=1e-100, what="Bremsstrahlung flux")
    if np.any(got[e > hi * (1 + 1e-9)] != 0):
        fail("flux above the maximum electron energy %g eV: %r at %r", hi, got, e)
    # the contributions add up
    ee = phys.flux(B(rad.dist(case["pd"]), **dict(kw, weight_ee=1.0, weight_ep=0.0)), e)
    ep = phys.flux(B(rad.dist(case["pd"]), **dict(kw, weight_ee=0.0, weight_ep=1.0)), e)
    close(got, pars["w_ee"] * ee + pars["w_ep"] * ep, rtol=1e-4, atol=1e-9 * np.abs(want).max() + 1e-250,
          what="sum of electron-electron and electron-proton contributions")
    return bool(np.any(want > 0))


SUBS = [Sub("reference", cases(), check, quick=1600, thorough=20000)]
