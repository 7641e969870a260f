"""C12: pion decay spectra against an independent implementation."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import phys, rad, ref
from ..gen import chance, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "proton distribution, target density, high-energy model, nuclear enhancement, energy "
    "limits and grid (or the defaults) and photon energies drawn by Hypothesis, options "
    "given when building the model or changed afterwards; compared with an independent "
    "implementation of Kafexhiu et al. 2014; non-trivial: the flux is positive at some "
    "energy"
)
ASSUMPTIONS = [
    "relative tolerance 2e-4 without the lookup table; with it, 3 % where the SED is above "
    "1e-6 of its peak, for photons between 11 MeV and 990 TeV"]
MODELS = ["Pythia8", "Geant4", "SIBYLL", "QGSJET"]
EPMIN = (ref.MPG + 0.27966184 + 1e-4) * 1e9


@st.composite
def cases(draw, lut=False):
    opts = {}
    if not lut:
        if draw(chance(0.8)):
            opts["hiEmodel"] = draw(st.sampled_from(MODELS))
        if draw(chance(0.6)):
            opts["nuclear_enhancement"] = draw(st.booleans())
    if draw(chance(0.5)):
        opts["Epmin"] = [draw(logf(9.4e8, 1e12, 4)), draw(st.sampled_from(phys.ENERGY))]
    if draw(chance(0.5)):
        opts["Epmax"] = [draw(logf(max(1e11, 3 * opts.get("Epmin", [0])[0]),
                                   1e18 if lut else 1e17, 4)),
                         draw(st.sampled_from(phys.ENERGY))]
    if draw(chance(0.95)):
        opts["nEpd"] = draw(st.integers(50, 100) if lut else st.integers(5, 30))
    if draw(chance(0.7)):
        opts["nh"] = [draw(logf(1e-4, 1e6)), draw(st.sampled_from(["1/cm3", "1/m3"]))]
    e = st.one_of(logf(1e7, 1e15), logf(1e7, 1e10)) if not lut else logf(1.1e7, 9.9e14)
    return {"pd": draw(rad.dists()), "opts": opts, "lut": lut, "warm": draw(phys.warm(
                useLUT=st.booleans(), nuc=st.booleans(), model=st.sampled_from(MODELS))),
            "energies": draw(st.lists(e, min_size=1, max_size=4, unique=True))}


def value(k, v):
    if k == "nh":
        return (v[0] / u.cm ** 3).to(v[1])
    return phys.as_unit(*v) if isinstance(v, list) else v


def build(case, useLUT):
    o = case["opts"]
    kw = {k: value(k, v) for k, v in o.items()}
    w = case.get("warm")
    start = {}
    if w:
        # without table, useLUT is switched off for good
        start = {"useLUT": w["useLUT"], "nuclear_enhancement": w["nuc"],
                 "hiEmodel": w["model"]}
        kw = dict({"hiEmodel": "Pythia8", "nuclear_enhancement": True}, **kw)
        kw["useLUT"] = useLUT
        start["nEpd"] = kw.get("nEpd", 100)
    elif not useLUT:
        kw["useLUT"] = False
    return phys.make(naima.models.PionDecay, case["pd"], kw, w, case["energies"],
                     start=start)


def check(case):
    o = case["opts"]
    lo = o.get("Epmin", [EPMIN])[0]
    hi = o.get("Epmax", [1e16])[0]
    n = o.get("nEpd", 100)
    if phys.ambiguous(lo, hi, n):
        return False
    e = np.array(case["energies"])
    got = phys.flux(build(case, False), e)
    want = ref.pion_decay(
        rad.dist(case["pd"]), e, nh=o.get("nh", [1.0])[0],
        model=o.get("hiEmodel", "Pythia8"), nuc=o.get("nuclear_enhancement", True),
        epmin_gev=lo * 1e-9, epmax_gev=hi * 1e-9, npd=n)
    close(got, want, rtol=2e-4, atol=1e-100, what="pion decay flux")
    return bool(np.any(want > 0))


def check_lut(case):
    """With the lookup table, against naima's and our own direct computation."""
    o = case["opts"]
    lo, hi, n = o.get("Epmin", [EPMIN])[0], o.get("Epmax", [1e16])[0], o.get("nEpd", 100)
    if phys.ambiguous(lo, hi, n):
        return False
    e = np.array(case["energies"])
    got = phys.flux(build(case, True), e)
    grid = np.logspace(7.2, 14.8, 9)
    peak = np.max(phys.flux(build(case, True), grid) * grid ** 2)
    want = phys.flux(build(case, False), e)
    ok = (want * e ** 2 > 1e-6 * peak) & (e < 0.01 * hi)
    if not ok.any():
        return False
    close(got[ok], want[ok], rtol=0.03, what="pion decay flux with the lookup table")
    return True


def check_no_table(case):
    """Models without table: the direct computation, whatever useLUT."""
    m1, m2 = build(case, True), build(case, False)
    o = case["opts"]
    e = np.array(case["energies"])
    table = (o.get("hiEmodel", "Pythia8") == "Pythia8"
             and o.get("nuclear_enhancement", True))
    f1, f2 = phys.flux(m1, e), phys.flux(m2, e)
    if not table:
        close(f1, f2, rtol=1e-12, what="flux with useLUT but without table for %r" % o)
    return not table and bool(np.any(f1 > 0))


def check_limits(case):
    """Nothing beyond the most energetic protons nor from below the threshold."""
    o = case["opts"]
    hi = o.get("Epmax", [1e16])[0]
    e = np.array(case["energies"] + [hi * 1.001, hi * 10])
    f = phys.flux(build(case, False), e)
    if np.any(f[e > hi] != 0):
        fail("flux above the maximum proton energy: %r at %r (Epmax=%g eV)", f, e, hi)
    c2 = dict(case, opts=dict(o, Epmax=[1.2e9, "eV"], Epmin=[9.5e8, "eV"]))
    f2 = phys.flux(build(c2, False), e)
    if np.any(f2 != 0):
        fail("flux from protons below the threshold: %r", f2)
    return bool(np.any(f > 0))


SUBS = [
    Sub("direct", cases(), check, quick=2000, thorough=24000),
    Sub("lookup-table", cases(lut=True), check_lut, quick=320, thorough=3000),
    Sub("no-table", cases(), check_no_table, quick=80, thorough=800),
    Sub("limits", cases(), check_limits, quick=80, thorough=800),
]
