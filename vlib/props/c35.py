"""C35: lookup tables of the pion decay cross section."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from naima.radiative import LookupTable, generate_lut_pp

from .. import bootstrap, ref
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "grids of proton and photon energies in any unit, models, enhancement and file names, "
    "points of the shipped table, and cubic polynomials tabulated on arbitrary grids, drawn by "
    "Hypothesis; non-trivial: some of the cross sections compared are positive"
)
ASSUMPTIONS = ["tables have at least four energies along each axis, in increasing order",
               "energies within 1e-9 of the limits between two parametrisations are not compared"]
MODELS = ["Geant4", "Pythia8", "SIBYLL", "QGSJET"]
UNITS = ["MeV", "GeV", "TeV", "erg", "eV"]


@st.composite
def grid(draw, lo, hi, nmax):
    n = draw(st.integers(4, nmax))
    a = draw(logf(lo, hi / 30, 4))
    b = draw(logf(5 * a, hi, 4))
    if draw(chance(0.5)):
        g = np.logspace(np.log10(a), np.log10(b), n)
    else:
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        steps = rng.uniform(0.3, 1.0, n - 1)
        g = a * (b / a) ** np.concatenate([[0], np.cumsum(steps) / np.sum(steps)])
    return [float(x) for x in g]


@st.composite
def generated(draw):
    model = draw(st.one_of(st.sampled_from(MODELS), st.lists(
        st.sampled_from(MODELS), min_size=1, max_size=2, unique=True)))
    if draw(chance(0.1)):
        model = None
    return {"Ep": draw(grid(1.22, 1e7, 14)), "Eg": draw(grid(1e-2, 1e6, 7)),
            "units": [draw(st.sampled_from(UNITS)), draw(st.sampled_from(UNITS))],
            "model": model, "nuc": draw(st.sampled_from([None, True, False])),
            "base": draw(st.sampled_from(["LUT_", "PionDecayKafexhiu14_LUT_", "x"]))}


def boundary(ep):
    """On the limit of two parametrisations."""
    T = ep - ref.MPG
    return any(abs(T - b) <= 1e-6 * b for b in (ref.TTH, 0.56, 1, 2, 4, 5, 20, 50, 100))


def reference(Ep, Eg, model, nuc):
    return np.array([[ref.katv_dsigma(x - ref.MPG, y, model, nuc) for y in Eg] for x in Ep])


def compare(got, want, Ep, Eg, what):
    """Up to rounding errors at the kinematic limit."""
    good = np.array([not boundary(x) for x in Ep])
    scale = np.max(want, axis=1, keepdims=True)
    bad = ~(np.abs(got - want) <= 2e-4 * want + 1e-7 * scale + 1e-60)
    bad[~good] = False
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        fail("%s: cross section %r at Ep=%r GeV, Egamma=%r GeV, expected %r", what,
             float(got[i, j]), Ep[i], Eg[j], float(want[i, j]))


def check_generated(case):
    Ep, Eg = np.array(case["Ep"]), np.array(case["Eg"])
    kw = {}
    if case["model"] is not None:
        kw["hiEmodel"] = case["model"] if isinstance(case["model"], str) else list(case["model"])
    if case["nuc"] is not None:
        kw["nuclear_enhancement"] = case["nuc"]
    nuc = case["nuc"] is not False
    models = case["model"] or MODELS
    models = [models] if isinstance(models, str) else models
    tmp = tempfile.mkdtemp(prefix="c35")
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            generate_lut_pp((Ep * u.GeV).to(case["units"][0]), (Eg * u.GeV).to(case["units"][1]),
                            os.path.join(tmp, case["base"]), **kw)
        want = sorted(case["base"] + ("NucEnh_" if nuc else "") + m + ".npz" for m in models)
        if sorted(os.listdir(tmp)) != want:
            fail("files %r, expected %r", sorted(os.listdir(tmp)), want)
        for m, fn in [(m, case["base"] + ("NucEnh_" if nuc else "") + m + ".npz") for m in models]:
            fn = os.path.join(tmp, fn)
            with np.load(fn) as f:
                X, Y, lut = f["X"], f["Y"], f["lut"]
            close(X, np.log10(Ep), rtol=1e-9, atol=1e-9, what="proton energies of the table")
            close(Y, np.log10(Eg), rtol=1e-9, atol=1e-9, what="photon energies of the table")
            sig = reference(Ep, Eg, m, nuc)
            with np.errstate(all="ignore"):
                compare(10.0 ** lut, sig, Ep, Eg, "table of %s" % m)
            t = LookupTable(fn)
            got = np.array([t(Ep, y) for y in Eg]).T
            if got.shape != sig.shape:
                fail("shape %r, expected %r", got.shape, sig.shape)
            tab = 10.0 ** lut
            if not np.all(np.abs(got - tab) <= 1e-6 * tab + 1e-9 * tab.max()):
                fail("the lookup table does not return the values at its points: %r, %r",
                     got.tolist(), tab.tolist())
            check_covers(t, Eg)
    finally:
        shutil.rmtree(tmp)
    return bool(np.any(sig > 0))


def check_covers(t, Y):
    lo, hi = Y[0], Y[-1]
    mid = float(np.sqrt(lo * hi))
    for e, w in ((mid, True), ([lo * 1.0001, hi * 0.9999], True), (lo * 0.99, False),
                 (hi * 1.01, False), ([mid, hi * 1.01], False), ([lo * 0.99, mid], False)):
        if bool(t.covers(e)) != w:
            fail("covers(%r) is %s for a table from %r to %r", e, not w, lo, hi)


_S = {}


def shipped():
    if not _S:
        fn = os.path.join(bootstrap.REPO, "src/naima/data",
                          "PionDecayKafexhiu14_LUT_NucEnh_Pythia8.npz")
        with np.load(fn) as f:
            _S.update(X=f["X"], Y=f["Y"], lut=f["lut"])
        _S["t"] = LookupTable(fn)
    return _S


def check_shipped(case):
    """The table of the package."""
    s = shipped()
    i = np.array(sorted(int(k * (len(s["X"]) - 1) / 1e6) for k in case["i"]))
    j = np.array([int(k * (len(s["Y"]) - 1) / 1e6) for k in case["j"]])
    Ep, Eg = 10.0 ** s["X"][i], 10.0 ** s["Y"][j]
    sig = reference(Ep, Eg, "Pythia8", True)
    with np.errstate(all="ignore"):
        compare(10.0 ** s["lut"][np.ix_(i, j)], sig, Ep, Eg, "shipped table")
    check_covers(s["t"], 10.0 ** s["Y"])
    got = np.array([s["t"](Ep, y) for y in Eg]).T
    tab = 10.0 ** s["lut"]
    if not np.all(np.abs(got - tab[np.ix_(i, j)]) <= 1e-6 * sig + 1e-9 * tab.max(axis=0)[j]):
        fail("lookup %r at points of the shipped table with %r", got.tolist(), sig.tolist())
    return bool(np.any(sig > 0))


@st.composite
def polynomials(draw):
    return {"x": draw(grid(1e-3, 1e8, 12)), "y": draw(grid(1e-3, 1e8, 12)),
            "c": draw(st.lists(linf(-1, 1, 3), min_size=16, max_size=16)),
            "scale": draw(logf(1e-40, 1e10, 3)),
            "at": [sorted(draw(st.lists(linf(0, 1, 5), min_size=1, max_size=4, unique=True))),
                   draw(linf(0, 1, 5))]}


def check_polynomial(case):
    """Cubic polynomials of the logarithms are reproduced everywhere."""
    X, Y = np.log10(case["x"]), np.log10(case["y"])
    C = np.reshape(case["c"], (4, 4))

    def z(x, y):
        a = 2 * (x - X[0]) / (X[-1] - X[0]) - 1
        b = 2 * (y - Y[0]) / (Y[-1] - Y[0]) - 1
        return case["scale"] * (20 + np.polynomial.polynomial.polygrid2d(a, b, C))

    tmp = tempfile.mkdtemp(prefix="c35")
    try:
        fn = os.path.join(tmp, "t.npz")
        np.savez_compressed(fn, X=X, Y=Y, lut=np.log10(z(X, Y)))
        t = LookupTable(fn)
        x = X[0] + np.array(case["at"][0]) * (X[-1] - X[0])
        y = Y[0] + case["at"][1] * (Y[-1] - Y[0])
        close(t(10.0 ** x, 10.0 ** y), z(x, np.atleast_1d(y)).ravel(), rtol=1e-7,
              what="interpolation of a cubic polynomial")
        check_covers(t, case["y"])
        if t.fname != fn:
            fail("file name %r, expected %r", t.fname, fn)
    finally:
        shutil.rmtree(tmp)
    return True


INDEX = st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=12, unique=True)
SUBS = [
    Sub("generated", generated(), check_generated, quick=64, thorough=800),
    Sub("shipped", st.fixed_dictionaries({"i": INDEX, "j": INDEX}), check_shipped, quick=400,
        thorough=8000),
    Sub("interpolation", polynomials(), check_polynomial, quick=400, thorough=4000),
]
