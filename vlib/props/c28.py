"""C28: Sherpa models."""
import contextlib
import io

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima.models as nm
from naima import sherpa_models as sm

from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "sequences of parameter changes, evaluations on point and binned grids, and guesses for "
    "several models used in turns, drawn by Hypothesis; non-trivial: at least two evaluations"
)
ASSUMPTIONS = [
    "bins are consecutive and ascending (documented)",
    "the integral over a bin is that of the power law between its edges (trapz_loglog)",
    "data passed to guess() are positive",
    "grids have at least two bins: the cache of Sherpa cannot tell one bin from two points"]

NAMES = {"ic": "InverseCompton", "syn": "Synchrotron", "brems": "Bremsstrahlung",
         "pp": "PionDecay"}
RANGE = {"ic": (1e3, 3e10), "syn": (1e-3, 1e4), "brems": (1e4, 1e10), "pp": (1e6, 1e11)}
EXTRA = {"ic": ["TFIR", "uFIR", "TNIR", "uNIR"], "syn": ["B"],
         "brems": ["n0", "weight_ee", "weight_ep"], "pp": ["nH"]}


def param(name):
    return {"index": linf(1.2, 3.5, 3), "ref": logf(0.1, 100, 3), "ampl": logf(1e-3, 1e9, 4),
            "cutoff": st.one_of(st.just(0.0), logf(1, 300, 3)), "beta": linf(0.5, 2, 2),
            "distance": logf(0.1, 1e4, 4), "TFIR": linf(10, 100, 3), "uFIR": st.one_of(
                st.just(0.0), logf(0.1, 10, 3)), "TNIR": linf(1000, 6000, 4), "uNIR": st.one_of(
                st.just(0.0), logf(0.1, 10, 3)), "B": logf(1e-6, 1, 4), "n0": logf(0.01, 100, 3),
            "weight_ee": linf(0.5, 2, 4), "weight_ep": linf(0.5, 2, 4),
            "nH": logf(0.01, 100, 3)}[name]


COMMON = ["index", "ref", "ampl", "cutoff", "beta", "distance"]


@st.composite
def grid(draw, kind):
    lo, hi = RANGE[kind]
    n = draw(st.integers(3, 5))
    x = sorted(draw(st.lists(logf(lo, hi, 4), min_size=n, max_size=n, unique=True)))
    return x


@st.composite
def histories(draw, kinds):
    ms = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=2))
    grids = [[draw(grid(k)) for _ in range(2)] for k in ms]
    init = []
    for k in ms:
        names = COMMON + EXTRA[k]
        init.append({n: draw(param(n)) for n in draw(st.sets(st.sampled_from(names)))})
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        i = draw(st.integers(0, len(ms) - 1))
        op = draw(st.sampled_from(["points", "bins", "set", "points", "bins", "set", "guess"]))
        g = draw(st.integers(0, 1))
        if op == "set":
            n = draw(st.sampled_from(COMMON + EXTRA[ms[i]]))
            ops.append(["set", i, n, draw(param(n))])
        elif op == "guess":
            ops.append([op, i, g, draw(st.booleans()), draw(logf(1e-3, 1e3, 3)),
                        draw(linf(-1, 1, 2))])
        else:
            ops.append([op, i, g])
    # end with an evaluation of each
    for i in range(len(ms)):
        ops.append([draw(st.sampled_from(["points", "bins"])), i, 0])
    return {"models": ms, "grids": grids, "init": init, "ops": ops}


def reference(kind, p, x_kev):
    """Differential flux of the naima model in 1/(s cm2 keV)."""
    amp, e0 = p["ampl"] * 1e30 / u.eV, p["ref"] * u.TeV
    if p["cutoff"] == 0:
        pd = nm.PowerLaw(amp, e0, p["index"])
    else:
        pd = nm.ExponentialCutoffPowerLaw(amp, e0, p["index"], p["cutoff"] * u.TeV,
                                          beta=p["beta"])
    if kind == "ic":
        seeds = ["CMB"]
        for n in ("FIR", "NIR"):
            if p["u" + n] > 0:
                seeds.append([n, p["T" + n] * u.K, p["u" + n] * u.Unit("eV/cm3")])
        m = nm.InverseCompton(pd, seed_photon_fields=seeds, Eemin=1 * u.GeV, Eemax=100 * u.TeV,
                              Eed=100)
    elif kind == "syn":
        m = nm.Synchrotron(pd, B=p["B"] * u.G)
    elif kind == "brems":
        m = nm.Bremsstrahlung(pd, n0=p["n0"] / u.cm ** 3, weight_ee=p["weight_ee"],
                              weight_ep=p["weight_ep"])
    else:
        m = nm.PionDecay(pd, nh=p["nH"] / u.cm ** 3)
    x = np.asarray(x_kev, dtype=float) * u.keV
    return m.flux(x, distance=p["distance"] * u.kpc).to("1/(s cm2 keV)").value


def bins_of(x, f):
    """Integral over the bins between consecutive x of a piecewise power law."""
    out = []
    for a, b, fa, fb in zip(x[:-1], x[1:], f[:-1], f[1:]):
        if fa <= 0 or fb <= 0:
            out.append(None)
            continue
        # int_a^b fa (x/a)^s dx with t = ln(b/a)
        t = np.log(b / a)
        s1 = (np.log(fb) - np.log(fa)) / t + 1
        out.append(fa * a * (np.expm1(s1 * t) / s1 if abs(s1 * t) > 1e-6 else t))
    return out


def total(x, f):
    return sum(v for v in bins_of(x, f) if v is not None)


def check(case):
    models, pars = [], []
    for i, k in enumerate(case["models"]):
        m = getattr(sm, NAMES[k])("m%d" % i)
        for n, v in case["init"][i].items():
            getattr(m, n if n != "nH" else "nh").val = v
        models.append(m)
    evals = 0
    out = io.StringIO()
    for op in case["ops"]:
        i = op[1]
        k, m = case["models"][i], models[i]

        def p():
            return {q.name: q.val for q in m.pars}

        if op[0] == "set":
            getattr(m, op[2] if op[2] != "nH" else "nh").val = op[3]
            if p()[op[2]] != op[3]:
                fail("parameter %s is %r after setting it to %r", op[2], p()[op[2]], op[3])
            continue
        x = np.array(case["grids"][i][op[2]])
        before = p()
        what = "%s(%s) with %s" % (k, op[0], before)
        if op[0] in ("points", "bins"):
            evals += 1
            with contextlib.redirect_stdout(out):
                y = m(x) if op[0] == "points" else m(x[:-1], x[1:])
            f = reference(k, before, x)
            if op[0] == "points":
                want = f * x
            else:
                want = bins_of(x, f)
                y = np.array([a for a, b in zip(y, want) if b is not None])
                want = [b for b in want if b is not None]
            close(y, want, rtol=1e-6, atol=1e-290, what=what)
            if p() != before:
                fail("%s: evaluation changed the parameters to %s", what, p())
        else:
            _, _, _, binned, scale, slope = op
            f = reference(k, before, x)
            y = f * x if not binned else np.array([b or 0 for b in bins_of(x, f)])
            if np.any(y <= 1e-280) or not np.all(np.isfinite(y)) or len(y) < 2:
                continue
            d = scale * y * (x[:len(y)] / x[0]) ** slope
            xl = x[:len(y)]
            ratio = total(xl, d) / total(xl, y)
            new = before["ampl"] * ratio
            if not 0 < new < 1e59:
                continue
            evals += 1
            with contextlib.redirect_stdout(out):
                if binned:
                    m.guess(d, x[:-1], x[1:])
                else:
                    m.guess(d, x)
            now = p()
            close(now["ampl"], new, rtol=1e-6, what="%s: amplitude guessed" % what)
            if {a: b for a, b in now.items() if a != "ampl"} != \
                    {a: b for a, b in before.items() if a != "ampl"}:
                fail("%s: guess changed %s to %s", what, before, now)
    labels = sorted(set(case["models"]))
    return labels if evals > 1 else labels + ["trivial"]


# ------------------------------------------------------- relations of single models

@st.composite
def scalings(draw):
    k = draw(st.sampled_from(["ic", "syn", "brems", "pp"]))
    return {"kind": k, "x": draw(grid(k)), "binned": draw(st.booleans()),
            "p": {n: draw(param(n)) for n in COMMON + EXTRA[k]},
            "c": draw(logf(0.01, 100, 3)), "d": draw(logf(0.1, 10, 3))}


def check_scaling(case):
    k = case["kind"]
    x = np.array(case["x"])
    args = (x[:-1], x[1:]) if case["binned"] else (x,)

    def ev(**kw):
        m = getattr(sm, NAMES[k])()
        for n, v in dict(case["p"], **kw).items():
            getattr(m, n if n != "nH" else "nh").val = v
        return np.array(m(*args))

    y = ev()
    close(ev(ampl=case["p"]["ampl"] * case["c"]), y * case["c"], rtol=1e-6, atol=1e-290,
          what="%s: amplitude x %r" % (k, case["c"]))
    close(ev(distance=case["p"]["distance"] * case["d"]), y / case["d"] ** 2, rtol=1e-6,
          atol=1e-290, what="%s: distance x %r" % (k, case["d"]))
    dens = {"brems": "n0", "pp": "nH"}.get(k)
    if dens:
        close(ev(**{dens: case["p"][dens] * case["c"]}), y * case["c"], rtol=1e-6, atol=1e-290,
              what="%s: density x %r" % (k, case["c"]))
    return [k]


SUBS = [Sub("histories", histories(["ic", "syn", "brems"]), check, quick=480, thorough=5000),
        Sub("pion decay", histories(["pp"]), check, quick=24, thorough=240),
        Sub("scaling", scalings(), check_scaling, quick=160, thorough=1000)]
