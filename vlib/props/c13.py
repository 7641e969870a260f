"""C13: Kelner, Aharonian and Bugayov 2006 pion decay."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from naima.radiative import PionDecayKelner06

from .. import phys, rad, ref
from ..gen import chance, logf
from ..harness import Sub
from ..util import close, fail, qval

RULE = (
    "proton distribution, target density, Etrans and photon energies on one or both sides "
    "of it drawn by Hypothesis; compared with an independent integration; non-trivial: the "
    "flux is positive at some energy"
)
ASSUMPTIONS = ["tolerance 2.5 %: the integrals of naima are computed to a relative "
               "precision of 1e-3"]


@st.composite
def cases(draw, side=None):
    etr = draw(st.one_of(st.just(None), logf(0.02, 1.0, 3)))  # TeV
    t = etr or 0.1
    side = side or draw(st.sampled_from(["low", "high", "both", "both"]))
    e = []
    if side in ("low", "both"):
        e += draw(st.lists(logf(2e-4, 0.95 * t), min_size=1, max_size=2, unique=True))
    if side in ("high", "both"):
        e += draw(st.lists(logf(1.05 * t, 100), min_size=1, max_size=2, unique=True))
    unit = draw(st.sampled_from(["TeV", "GeV", "erg"]))
    if side == "both" and (etr is None or unit == "TeV") and draw(chance(0.25)):
        e = [x for x in e if x < t] + [t]  # the only one that is not below Etrans
    pd = draw(rad.dists(kinds=["PowerLaw", "ExponentialCutoffPowerLaw",
                               "ExponentialCutoffBrokenPowerLaw"], callables=False))
    for k in list(pd["pars"]):
        if k.startswith("alpha"):
            pd["pars"][k] = max(1.7, pd["pars"][k])
        if k == "e_cutoff":
            pd["pars"][k][0] = max(20.0, pd["pars"][k][0])
        if k == "beta":
            pd["pars"][k] = min(1.2, pd["pars"][k])
        if k == "e_break":
            pd["pars"][k][0] = max(0.5, pd["pars"][k][0])
    # evaluated earlier at energies on both sides of Etrans, or at one of them
    past = draw(st.sampled_from([None, None, [0.5, 2.0], [0.5], [2.0]]))
    return {"pd": pd, "etr": etr, "energies": e, "past": past,
            "past_pd": draw(rad.dists(kinds=["PowerLaw"], callables=False)),
            "etr_unit": unit,
            "nh": draw(st.one_of(st.none(), st.tuples(
                logf(1e-3, 1e3), st.sampled_from(["1/cm3", "1/m3"])).map(list)))}


def build(case):
    kw = {}
    if case["etr"]:
        kw["Etrans"] = (case["etr"] * u.TeV).to(case["etr_unit"])
    if case["nh"]:
        kw["nh"] = (case["nh"][0] / u.cm ** 3).to(case["nh"][1])
    if not case["past"]:
        return PionDecayKelner06(rad.dist(case["pd"]), **kw)
    m = PionDecayKelner06(rad.dist(case["past_pd"]), **kw)
    flux(m, [x * (case["etr"] or 0.1) for x in case["past"]])
    m.particle_distribution = rad.dist(case["pd"])
    return m


def flux(m, e_tev):
    return np.atleast_1d(m.flux(np.asarray(e_tev) * u.TeV, distance=0)
                         .to("1/(s eV)").value)


def check(case):
    e = np.array(case["energies"])
    t = case["etr"] or 0.1
    nh = case["nh"][0] if case["nh"] else 1.0
    pd = rad.dist(case["pd"])
    got = flux(build(case), e)
    both = np.any(e < t) and np.any(e >= t)
    nhat = ref.kelner_hi(pd, t) / ref.kelner_lo(pd, t) if both else 1.0
    want = np.array([ref.kelner_hi(pd, x) if x >= t else nhat * ref.kelner_lo(pd, x)
                     for x in e]) * nh
    close(got, want, rtol=0.025, atol=1e-100, what="flux of PionDecayKelner06")
    return ["both" if both else "one side"] + ([] if np.any(want > 0) else ["trivial"])


def check_continuity(case):
    t = case["etr"] or 0.1
    f = flux(build(case), [t * 0.9999, t * 1.0001])
    close(f[0], f[1], rtol=0.02, what="flux at both sides of Etrans")
    return bool(f[0] > 0)


def check_Wp(case):
    m = build(case)
    pd = rad.dist(case["pd"])
    e = np.logspace(np.log10(1.22e-3), 8, 20000)  # TeV
    n = pd(e * u.TeV).to("1/TeV").value
    want = ref.loglog_integral(e * n, e)  # TeV
    alpha = [v for k, v in case["pd"]["pars"].items() if k.startswith("alpha")][-1]
    if case["pd"]["kind"] == "PowerLaw" and alpha < 2.5:
        return False
    if want <= 0:
        return False
    close(qval(m.Wp, "TeV"), want, rtol=0.01, what="Wp")
    if m.Wp.unit != u.erg:
        fail("Wp in %s", m.Wp.unit)
    return True


SUBS = [
    Sub("reference", cases(), check, quick=256, thorough=3000),
    Sub("continuity", cases(side="both"), check_continuity, quick=32, thorough=300),
    Sub("Wp", cases(side="low"), check_Wp, quick=64, thorough=600),
]
