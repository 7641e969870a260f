"""C03: EBL absorption."""
import os

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import bootstrap
from ..gen import chance, eu, linf, logf
from ..harness import Sub
from ..util import arr, close, energy_input, fail, raises

RULE = (
    "redshift (with and without units, inside and outside the table), energies "
    "from 1 MeV to 100 PeV in any unit and form drawn by Hypothesis; non-trivial: "
    "at least one energy with a transmission strictly between 1e-10 and 1-1e-6"
)
ASSUMPTIONS = [
    "reference opacity: not-a-knot cubic spline of the shipped Dominguez table "
    "(column of the nearest redshift), clipped at 150, in log10(energy)",
    "the spline may exceed the monotone and unit bounds by 2e-5 (wiggles between "
    "tabulated energies)",
]

_T = {}


def table():
    if not _T:
        path = os.path.join(bootstrap.REPO, "src/naima/data/tau_dominguez11.npz")
        t = np.load(path)["arr_0"]
        _T["loge"] = np.log10(t["energy"])
        _T["tau"] = {z: np.minimum(t["col%d" % (2 + z)], 150.0) for z in range(399)}
    return _T


def tau_ref(z, e_tev):
    from scipy.interpolate import CubicSpline

    t = table()
    if z < 0.01:
        return np.zeros(len(e_tev))
    zs = np.arange(0.01, 4, 0.01)
    col = int(np.argmin(np.abs(zs - z)))
    sp = CubicSpline(t["loge"], t["tau"][col])
    out = np.empty(len(e_tev))
    for i, e in enumerate(e_tev):
        if e < 1e-3:
            out[i] = 0.0
        else:
            out[i] = sp(min(np.log10(e), 2.0))
    return out


# two decimals and an offset of at most 0.004: never half way between two columns
ZED = st.one_of(
    st.tuples(st.integers(1, 399), st.integers(-4, 4)).map(
        lambda t: round(t[0] / 100.0 + t[1] / 1000.0, 4)),
    st.sampled_from([0.0, 0.001, 0.0099, 0.01, 0.0101, 0.03, 0.1, 0.5, 1.0, 3.99,
                     4.0, 5.0]),
    st.integers(1, 60).map(lambda i: i / 100.0),
    st.integers(300, 399).map(lambda i: i / 100.0),
)
EN = st.one_of(logf(1e-6, 1e5), logf(1e-2, 90.0), logf(0.03, 5.0), logf(0.03, 5.0), logf(0.1, 1.0), logf(1e-3, 0.02),
               st.sampled_from([0.000999, 0.00101, 0.0011, 99.0, 99.9, 100.1, 101.0,
                                500.0, 1e4]))


@st.composite
def cases(draw):
    return {
        "z": draw(ZED),
        "z2": draw(ZED),
        "quantity": draw(chance(0.3)),
        "energies": draw(st.lists(EN, min_size=1, max_size=8, unique=True)),
        "unit": draw(eu()),
        "form": draw(st.sampled_from(["array", "array", "dict", "table"])),
    }


def check(case):
    z = case["z"]
    model = naima.models.EblAbsorptionModel(
        z * u.dimensionless_unscaled if case["quantity"] else z)
    inp = energy_input(case["energies"], case["unit"], case["form"])
    out = model.transmission(inp)
    tr = arr(u.Quantity(out).to("").value)
    e = np.array(case["energies"])
    ref = np.exp(-tau_ref(z, e))
    close(tr, ref, rtol=1e-5, atol=1e-7, what="transmission(z=%g)" % z)
    if np.any(tr < 0) or np.any(tr > 1 + 2e-5):
        fail("transmission outside [0, 1]: %r", tr.tolist())
    order = np.argsort(e)
    if np.any(np.diff(tr[order]) > 2e-5):
        fail("transmission grows with energy: %r", tr[order].tolist())
    if np.any(tr[e < 1e-3] != 1):
        fail("absorption below 1 GeV")
    if z < 0.01 and np.any(np.abs(tr - 1) > 1e-9):
        fail("absorption at z=%g", z)
    # applied again, or at another redshift in between: the same
    m2 = naima.models.EblAbsorptionModel(case["z2"])
    t2 = arr(u.Quantity(m2.transmission(inp)).to("").value)
    again = arr(u.Quantity(model.transmission(inp)).to("").value)
    if np.any(again != tr):
        fail("transmission changed after evaluating another redshift")
    return bool(np.any((tr > 1e-10) & (tr < 1 - 1e-6)))


def bad(case):
    E = naima.models.EblAbsorptionModel
    if case["kind"] == "negative":
        raises(ValueError, lambda: E(-case["z"]), "negative redshift")
    elif case["kind"] == "units":
        raises(TypeError, lambda: E(case["z"] * u.cm), "redshift in cm")
    elif case["kind"] == "model":
        raises(ValueError, lambda: E(case["z"], case["name"]), "unknown EBL model")
    else:
        raises(TypeError, lambda: E(case["z"]).transmission([1.0, 2.0] * u.cm),
               "energies in cm")


SUBS = [
    Sub("transmission", cases(), check, quick=2400, thorough=20000),
    Sub("domain", st.fixed_dictionaries({
        "kind": st.sampled_from(["negative", "units", "model", "energy"]),
        "z": linf(0.02, 3.9),
        "name": st.sampled_from(["Franceschini", "dominguez", "Finke", ""])}),
        bad, quick=60, thorough=200),
]
