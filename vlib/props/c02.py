"""C02: TableModel."""
import math

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from ..gen import chance, eu, linf, logf
from ..harness import Sub
from ..util import arr, close, energy_input, fail, qval, raises

RULE = (
    "tables of 4-25 points (log-log cubic polynomials, or arbitrary positive "
    "values), row order, units, amplitude and query energies (nodes, interior, "
    "outside) drawn by Hypothesis; non-trivial: at least one query strictly "
    "inside the table and off the nodes"
)
ASSUMPTIONS = [
    "off the nodes the reference is the not-a-knot cubic spline in "
    "log10(energy)-log10(value), from scipy.interpolate.CubicSpline, and the exact "
    "polynomial when the table samples one",
]

VUNITS = [None, "1/eV", "1/(cm2 s TeV)", "erg/(cm2 s)", ""]


@st.composite
def cases(draw):
    n = draw(st.integers(4, 25))
    kind = draw(st.sampled_from(["poly", "poly", "free"]))
    start = draw(linf(-9, 3))
    steps = draw(st.lists(linf(0.02, 1.0), min_size=n - 1, max_size=n - 1))
    loge = [start]
    for s in steps:
        loge.append(loge[-1] + s)
    if kind == "poly":
        deg = draw(st.integers(0, 3))
        coef = [draw(linf(-10, 10)), draw(linf(-4, 2)), draw(linf(-0.3, 0.3)),
                draw(linf(-0.02, 0.02))][: deg + 1]
        logy = None
    else:
        coef = None
        logy = draw(st.lists(linf(-6, 6), min_size=n, max_size=n))
    return {
        "loge": loge, "coef": coef, "logy": logy,
        "perm": draw(st.permutations(list(range(n)))) if draw(chance(0.3)) else None,
        "eunit": draw(eu()), "vunit": draw(st.sampled_from(VUNITS)),
        "amplitude": draw(st.one_of(st.none(), logf(1e-3, 1e3), logf(1e-3, 1e3),
                                    st.sampled_from([0.0, -1.0, -2.5]))),
        "amp2": draw(st.one_of(st.none(), logf(1e-3, 1e3))),
        "q_in": draw(st.lists(st.tuples(st.integers(0, n - 2), linf(0.02, 0.98)),
                              min_size=1, max_size=5)),
        "q_node": draw(st.lists(st.integers(0, n - 1), max_size=4)),
        "q_out": draw(st.lists(linf(-3, 3), max_size=3)),
        "qunit": draw(eu()),
        "form": draw(st.sampled_from(["array", "dict", "table", "scalar"])),
    }


def check(case):
    from scipy.interpolate import CubicSpline

    loge = np.array(case["loge"])
    x0 = loge[0]
    if case["coef"] is not None:
        logy = sum(c * (loge - x0) ** k for k, c in enumerate(case["coef"]))
    else:
        logy = np.array(case["logy"])
    energy = (10.0 ** loge * u.TeV).to(case["eunit"])
    values = 10.0 ** logy
    if case["vunit"] is not None:
        values = values * u.Unit(case["vunit"])
    e_in, v_in = energy, values
    if case["perm"] is not None:
        e_in, v_in = energy[case["perm"]], values[case["perm"]]
    kw = {} if case["amplitude"] is None else {"amplitude": case["amplitude"]}
    model = naima.models.TableModel(e_in, v_in, **kw)
    amp = 1.0 if case["amplitude"] is None else case["amplitude"]
    evaluate(case, model, amp, loge, logy, energy, values, CubicSpline)
    if case["amp2"] is not None:
        model.amplitude = case["amp2"]
        evaluate(case, model, case["amp2"], loge, logy, energy, values, CubicSpline)


def evaluate(case, model, amp, loge, logy, energy, values, CubicSpline):
    unit = u.Unit(case["vunit"] or "")
    # nodes, with exactly the tabulated energies
    if case["q_node"]:
        out = model(energy[case["q_node"]])
        close(qval(out, unit), amp * 10.0 ** logy[case["q_node"]], rtol=1e-8,
              what="TableModel at tabulated energies")
    # interior
    xs = np.array([loge[i] + f * (loge[i + 1] - loge[i]) for i, f in case["q_in"]])
    inp = energy_input(10.0 ** xs, case["qunit"], case["form"])
    if case["form"] == "scalar":
        xs = xs[:1]
    out = model(inp)
    if np.shape(out) != (() if case["form"] == "scalar" else xs.shape):
        fail("shape of the result: %s", np.shape(out))
    spline = CubicSpline(loge - loge[0], logy, bc_type="not-a-knot")(xs - loge[0])
    scale = 1 + np.max(np.abs(logy)) + np.max(np.abs(spline))
    got = arr(qval(out, unit))
    if amp == 0:
        if np.any(got != 0):
            fail("TableModel of amplitude zero: %r", got.tolist())
        return
    if np.all(np.abs(spline) < 250):
        with np.errstate(all="ignore"):
            close(np.log10(got / amp), spline, atol=2e-8 * scale, rtol=0,
                  what="log10 of TableModel between tabulated energies")
    if case["coef"] is not None:
        want = sum(c * (xs - loge[0]) ** k for k, c in enumerate(case["coef"]))
        close(np.log10(got / amp), want, atol=2e-7 * scale, rtol=0,
              what="log10 of TableModel of a cubic polynomial")
    # outside
    if case["q_out"]:
        xo = np.array([loge[0] + d - 1e-6 if d <= 0 else loge[-1] + d + 1e-6
                       for d in case["q_out"]])
        o = arr(qval(model((10.0 ** xo * u.TeV).to(case["qunit"])), unit))
        if np.any(o != 0):
            fail("TableModel outside the table: %r", o.tolist())


def bad(case):
    e = np.array([1.0, 2, 3, 4, 5])
    v = np.ones(5)
    T = naima.models.TableModel
    if case["kind"] == "noenergy":
        raises(TypeError, lambda: T(e * u.Unit(case["unit"]), v), "energy in %s" % case["unit"])
    elif case["kind"] == "plain":
        raises(TypeError, lambda: T(e, v), "energy without units")
    else:
        m = T(e * u.TeV, v)
        raises(TypeError, lambda: m(e * u.Unit(case["unit"])), "call with %s" % case["unit"])


SUBS = [
    Sub("interpolation", cases(), check, quick=1200, thorough=20000),
    Sub("domain", st.fixed_dictionaries({
        "kind": st.sampled_from(["noenergy", "plain", "call"]),
        "unit": st.sampled_from(["cm", "s", "1/eV", "K", ""])}), bad, quick=15,
        thorough=15),
]
