"""C05: distance scaling, SED and units of the radiative models."""
import functools
import math

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from .. import rad
from ..gen import chance, eu, logf
from ..harness import Sub
from ..util import arr, close, fail, qval, raises

RULE = (
    "radiative model, photon energies, distances (value and unit) drawn by "
    "Hypothesis; flux and sed are called on the same instance in a random order; "
    "non-trivial: the intrinsic flux is positive at some energy"
)
ASSUMPTIONS = ["1 pc = 3.0856775814913673e18 cm, 1 au = 1.495978707e13 cm"]
PC = 3.0856775814913673e18
CM = {"pc": PC, "kpc": PC * 1e3, "Mpc": PC * 1e6, "cm": 1.0, "km": 1e5,
      "lyr": 9.4607304725808e17, "AU": 1.495978707e13}
DIST = st.tuples(logf(1e-3, 1e4), st.sampled_from(["kpc", "kpc", "pc", "Mpc", "lyr",
                                                   "cm", "km", "AU"])).map(list)


@st.composite
def cases(draw, kelner=False):
    classes = ["PionDecayKelner06"] if kelner else rad.ALL
    spec = draw(rad.with_energies(classes=classes, max_size=2 if kelner else 5))
    ops = draw(st.lists(st.tuples(
        st.sampled_from(["flux", "sed"]),
        st.sampled_from(["zero", "zeroq", "default", "kw", "kw", "pos"]),
        DIST, st.sampled_from([None, None, 0])), min_size=1, max_size=3 if kelner else 6))
    return {"spec": spec, "unit": draw(eu()), "ops": [list(o) for o in ops],
            "form": draw(st.sampled_from(["array", "array", "dict", "table"]))}


def check(case):
    from ..util import energy_input

    spec = case["spec"]
    m = rad.radiative(spec)
    e_ev = np.array(spec["energies"])
    intrinsic = arr(rad.radiative(spec).flux(rad.ev(e_ev), distance=0)
                    .to("1/(s eV)").value)
    inp = energy_input(e_ev * 1e-12, case["unit"], case["form"])
    first = intrinsic
    if spec["cls"] == "InverseCompton":
        kw = dict(spec["kw"], seeds=spec["kw"]["seeds"][:1])
        first = arr(rad.radiative(dict(spec, kw=kw)).flux(rad.ev(e_ev), distance=0)
                    .to("1/(s eV)").value)
    for what, how, d, seed in case["ops"]:
        f = getattr(m, what)
        if seed is not None and spec["cls"] == "InverseCompton":
            # one seed photon field
            f = functools.partial(f, seed=seed)
        else:
            seed = None
        if how == "zero":
            out, dcm = f(inp, distance=0), None
        elif how == "zeroq":
            out, dcm = f(inp, 0 * u.kpc), None
        elif how == "default":
            out, dcm = f(inp), 1e3 * PC
        elif how == "kw":
            out, dcm = f(inp, distance=rad.q(d)), d[0] * CM[d[1]]
        else:
            out, dcm = f(inp, rad.q(d)), d[0] * CM[d[1]]
        want = (intrinsic if seed is None else first).copy()
        if what == "flux":
            unit = "1/(s eV)" if dcm is None else "1/(s eV cm2)"
        else:
            want = want * e_ev ** 2 * 1.602176634e-12  # erg
            unit = "erg/s" if dcm is None else "erg/(s cm2)"
        if dcm is not None:
            want = want / (4 * math.pi * dcm ** 2)
        got = arr(qval(out, unit, what))
        if out.unit != u.Unit(unit):
            fail("%s returns units of %s, expected %s", what, out.unit, unit)
        # zero flux, and lookup-table noise around zero, included
        close(got, want, rtol=1e-7, atol=1e-280,
              what="%s of %s (distance: %s %s)" % (what, spec["cls"], how, d))
    return bool(np.any(intrinsic > 0))


def bad(case):
    m = rad.radiative(case["spec"])
    e = rad.ev(case["spec"]["energies"])
    for what in ("flux", "sed"):
        for d in (1.0, 3, 2 * u.s, 1 * u.eV, 1 / u.kpc):
            raises((TypeError, u.UnitsError), lambda: getattr(m, what)(e, distance=d),
                   "%s with distance=%r" % (what, d))
        raises((TypeError, AttributeError, u.UnitsError),
               lambda: getattr(m, what)(np.array([1.0, 2.0])),
               "%s of energies without units" % what)
        raises(TypeError, lambda: getattr(m, what)([1.0, 2.0] * u.Unit(case["unit"])),
               "%s of energies in %s" % (what, case["unit"]))


SUBS = [
    Sub("distance", cases(), check, quick=1000, thorough=12000),
    Sub("kelner06", cases(kelner=True), check, quick=24, thorough=300),
    Sub("units", st.fixed_dictionaries({
        "spec": rad.with_energies(max_size=2),
        "unit": st.sampled_from(["cm", "s", "1/eV", "K", "Hz"])}), bad, quick=64,
        thorough=400),
]
