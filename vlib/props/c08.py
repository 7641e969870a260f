"""C08: form, unit and company of the photon energies do not matter."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from .. import rad
from ..gen import chance, eu
from ..harness import Sub
from ..util import arr, close, energy_input, fail, qval

RULE = (
    "radiative model, 2-8 photon energies, and a list of views of them (subset in "
    "some order, unit, input form, flux or sed, distance) drawn by Hypothesis and "
    "asked to the same instance or to a fresh one; non-trivial: a view is a proper "
    "subset or a reordering with a positive flux"
)
ASSUMPTIONS = [
    "PionDecayKelner06: only energies on one side of Etrans (across it, the "
    "normalisation of the low energy side depends on the presence of the other)",
    "the quadrature of PionDecayKelner06 is adaptive: rtol 1e-6",
]


@st.composite
def cases(draw, kelner=False):
    spec = draw(rad.with_energies(
        classes=["PionDecayKelner06"] if kelner else rad.ALL,
        min_size=2, max_size=3 if kelner else 8))
    if kelner:
        lo = draw(st.booleans())
        spec["energies"] = [e * 0.9e-4 if lo and e >= 1e11 else
                            (e * 1e3 if not lo and e < 1e11 else e)
                            for e in spec["energies"]]
        spec["energies"] = [min(max(e, 1e8), 9e10) if lo else max(e, 1.01e11)
                            for e in spec["energies"]]
    n = len(spec["energies"])
    views = []
    for _ in range(draw(st.integers(1, 2 if kelner else 5))):
        idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n))
        views.append({
            "idx": idx,
            "unit": draw(eu()),
            "form": draw(st.sampled_from(["array", "scalar", "dict", "table",
                                          "qtable"])),
            "what": draw(st.sampled_from(["flux", "sed"])),
            "d": draw(st.sampled_from([0, 1, 2.5])),
            "fresh": draw(st.booleans()),
        })
    return {"spec": spec, "views": views}


def check(case):
    spec = case["spec"]
    e = np.array(spec["energies"])
    m = rad.radiative(spec)
    full = {}
    nontrivial = False
    rtol = 1e-6 if spec["cls"] == "PionDecayKelner06" else 1e-7
    base = arr(rad.radiative(spec).flux(rad.ev(e), distance=0).to("1/(s eV)").value)
    noise = 1e-9 * np.max(np.abs(base))
    for v in case["views"]:
        d = 0 if v["d"] == 0 else v["d"] * u.kpc
        want = base[v["idx"]]
        ee = e[v["idx"]]
        if v["form"] == "scalar":
            want, ee = want[:1], ee[:1]
        unit = u.Unit("1/(s eV)" if v["what"] == "flux" else "erg/s")
        f = np.ones(len(ee))
        if v["what"] == "sed":
            f = f * ee ** 2 * 1.602176634e-12
        if v["d"]:
            unit = unit / u.cm ** 2
            f = f / (4 * np.pi * d.to("cm").value ** 2)
        target = rad.radiative(spec) if v["fresh"] else m
        inp = energy_input(ee * 1e-12, v["unit"], v["form"])
        out = getattr(target, v["what"])(inp, distance=d)
        if np.size(out) != len(ee):
            fail("%d energies, %d results", len(ee), np.size(out))
        got = arr(qval(out, unit)) / f
        # energies in other units differ by rounding, which exponential
        # cutoffs amplify
        close(got, want, rtol=rtol, atol=noise * 1e-6 + 1e-280,
              what="%s of %s given %s in %s" % (v["what"], spec["cls"], v["form"],
                                                v["unit"]))
        if len(ee) != len(e) or list(v["idx"]) != list(range(len(e))):
            nontrivial |= bool(np.any(want > 0))
    return nontrivial


SUBS = [
    Sub("views", cases(), check, quick=480, thorough=8000),
    Sub("kelner06", cases(kelner=True), check, quick=24, thorough=300),
]
