"""C19: the likelihood."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import mc, tables
from ..gen import chance, linf, sig
from ..harness import Sub
from ..util import fail, finite

RULE = (
    "one to three sets of measurements (asymmetric errors, upper limits with their own "
    "confidence levels), two representations of each as tables, a model with arbitrary "
    "values at each energy in two units, and normalisations drawn by Hypothesis; "
    "non-trivial: some point or violated upper limit contributes"
)
ASSUMPTIONS = [
    "models within 1e-7 of an upper limit are not generated (rounding of the unit "
    "conversions decides whether they exceed it)"]


@st.composite
def cases(draw):
    kinds = draw(mc.kinds())
    power = "power" in kinds[0]
    sets = [draw(tables.datasets(kinds=kinds, max_size=6, emin=1e5, emax=1e14, ulerr=True))
            for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    ratios = {}
    for d in sets:
        for r in d["rows"]:
            # around the point, in units of its errors, or far from it
            how = draw(st.sampled_from(["lo", "hi", "factor", "exact", "zero", "negative"]))
            f = r["f"]
            k = draw(linf(0.01, 4, 3))
            ratios[repr(r["e"])] = {
                "lo": f - k * (r["lo"] if r["lo"] > 0 else 0.2 * abs(f)),
                "hi": f + k * (r["hi"] if r["hi"] > 0 else 0.2 * abs(f)), "factor": f * k,
                "exact": f if not r["ul"] else f * 0.9 - abs(f) * 1e-3,
                "zero": 0.0, "negative": -abs(f)}[how]
    return {"sets": sets, "values": {k: float(v) for k, v in ratios.items()},
            "forms": [[draw(tables.forms(d)) for d in sets] for _ in range(2)],
            "as_kind": [[draw(st.sampled_from(kinds)) for d in sets] for _ in range(2)],
            "order": draw(st.permutations(list(range(len(sets))))),
            "units": [draw(st.sampled_from(mc.model_units(power))) for _ in range(2)],
            "sed": [draw(st.sampled_from([None, True, False])) for _ in range(2)],
            "norms": [1.0] + [draw(linf(0.3, 3, 3)) for _ in range(3)],
            "out": draw(st.sampled_from(["flux", "flux", "tuple", "list"]))}


def sampler_of(tabs, model, sed):
    with mc.quiet():
        s, _ = naima.get_sampler(data_table=tabs if len(tabs) > 1 else tabs[0], p0=[1.0],
                                 model=model, nwalkers=4, nburn=0, threads=1, guess=False,
                                 data_sed=sed)
    return s


def check(case):
    sets = case["sets"]
    rows = []
    for g, d in enumerate(sets):
        rows += tables.expected(d, g)
    keys = np.array([float(k) for k in case["values"]])
    vals = np.array([case["values"][k] for k in case["values"]])

    def lookup(e):
        i = np.argmin(np.abs(np.log(np.asarray(e)[:, None] / keys[None, :])), axis=1)
        return vals[i]

    m = lookup([r["e"] for r in rows])
    norms = [a for a in case["norms"] if not mc.near_ul(rows, a * m)]
    if not norms:
        return False
    want = [mc.chi_terms(rows, a * m) for a in norms]
    nontrivial = any(w != 0 for w in want)
    for i in range(2):
        tabs = []
        for d, f, k in zip(sets, case["forms"][i], case["as_kind"][i]):
            d2 = dict(d, kind=k)
            fu = [x if x in tables.F_UNITS[k] else tables.F_UNITS[k][0] for x in f["fu"]]
            tabs.append(tables.table(d2, dict(f, fu=fu)))
        if i == 1:
            tabs = [tabs[j] for j in case["order"]]
        unit = case["units"][i]

        def model(p, data):
            e = u.Quantity(data["energy"]).to("eV").value
            q = mc.spectrum(e, p[0] * lookup(e), unit)
            return {"flux": q, "tuple": (q, 1 * u.erg), "list": [q, 2 * u.G]}[case["out"]]

        s = sampler_of(tabs, model, case["sed"][i])
        got = s.compute_log_prob(np.array(norms)[:, None])[0]
        finite(got, "log-likelihood")
        for a, g, w in zip(norms, got, want):
            # rounding of the difference of model and flux in units of the error
            if abs(g - w) > 1e-8 * abs(w) + 1e-8:
                fail("form %d (model in %s, data as %r, sed=%r): log-likelihood of %g times "
                     "the model is %r, expected %r", i, unit, case["as_kind"][i],
                     case["sed"][i], a, float(g), float(w))
    labels = ["%d tables" % len(sets)]
    if any(r["ul"] for r in rows):
        labels.append("upper limits")
    return labels + ([] if nontrivial else ["trivial"])


@st.composite
def exact_cases(draw):
    kinds = draw(mc.kinds())
    ds = draw(tables.datasets(kinds=kinds, negative=False, emin=1e5, ulerr=True))
    return {"ds": ds, "form": draw(tables.forms(ds)), "below": draw(linf(0.05, 0.98, 3)),
            "sed": draw(st.sampled_from([None, True, False])),
            "unit": draw(st.sampled_from(mc.model_units("power" in kinds[0]))),
            "shift": [sig(draw(linf(-3, 3, 3)), 3) for _ in ds["rows"]]}


def check_exact(case):
    """A perfect model has likelihood 0, any other at most that."""
    ds = case["ds"]
    rows = tables.expected(ds)
    keys = np.array([r["e"] for r in rows])
    best = np.array([r["f"] * (case["below"] if r["ul"] else 1.0) for r in rows])
    shift = np.array(case["shift"]) * np.array([r["lo"] for r in rows])

    def model(p, data):
        e = u.Quantity(data["energy"]).to("eV").value
        i = np.argmin(np.abs(np.log(e[:, None] / keys[None, :])), axis=1)
        return mc.spectrum(e, (best + p[0] * shift)[i], case["unit"])

    s = sampler_of([tables.table(ds, case["form"])], model, case["sed"])
    coords = np.array([[0.0], [1.0], [-1.0], [0.3]])
    got = s.compute_log_prob(coords)[0]
    if abs(got[0]) > 1e-9:
        fail("log-likelihood of the exact model is %r", float(got[0]))
    if np.any(got > 1e-9):
        fail("a log-likelihood above 0: %r", got.tolist())
    # a model equal to the fluxes does not exceed the upper limits either
    s = sampler_of([tables.table(ds, case["form"])],
                   lambda p, data: p[0] * u.Quantity(data["flux"]), case["sed"])
    got = s.compute_log_prob(np.array([[1.0]]))[0]
    if got[0] != 0:
        fail("log-likelihood of the data themselves is %r", float(got[0]))
    return bool(np.any(got[1:] < -1e-6))


SUBS = [
    Sub("likelihood", cases(), check, quick=1600, thorough=20000),
    Sub("exact", exact_cases(), check_exact, quick=600, thorough=6000),
]
