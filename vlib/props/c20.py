"""C20: priors and posterior."""
import math

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import mc, tables
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "values and limits of the priors; and data, parametric models with arbitrary blobs, "
    "products of priors over their parameters and parameter vectors, drawn by Hypothesis; "
    "non-trivial: for priors a value inside, for posteriors a finite prior somewhere"
)
ASSUMPTIONS = []


# ------------------------------------------------------------------- priors

def numbers():
    return st.one_of(linf(-5, 5, 3), linf(-5, 5, 3), logf(1e-12, 1e12), st.integers(-3, 3),
                     logf(1e-12, 1e12).map(lambda x: -x))


@st.composite
def prior_cases(draw):
    a, b = sorted([draw(numbers()), draw(numbers())])
    v = draw(st.one_of(numbers(), st.just(a), st.just(b), linf(0, 1, 3).map(
        lambda t: a + t * (b - a))))
    return {"v": v, "a": a, "b": b, "mean": draw(numbers()), "sigma": draw(logf(1e-6, 1e6)),
            "k": draw(linf(-8, 8, 3)), "np": draw(chance(0.3)),
            "lim": draw(st.sampled_from(["both", "min", "max", "none"])), "kw": draw(st.booleans())}


def check_prior(case):
    v, a, b = case["v"], case["a"], case["b"]
    conv = np.float64 if case["np"] else (lambda x: x)
    v = conv(v)
    inside = a <= v <= b
    got = naima.uniform_prior(v, umin=a, umax=b) if case["kw"] else naima.uniform_prior(v, a, b)
    if not got == (0.0 if inside else -np.inf):
        fail("uniform_prior(%r, %r, %r) = %r", v, a, b, got)
    mean, s = case["mean"], case["sigma"]
    x = conv(mean + case["k"] * s)
    got = naima.normal_prior(x, mean=mean, sigma=s) if case["kw"] else \
        naima.normal_prior(x, mean, s)
    k = (x - mean) / s
    want = -0.5 * k * k - math.log(s) - 0.5 * math.log(2 * math.pi)
    close(got, want, rtol=1e-9, atol=1e-9, what="normal_prior(%r, %r, %r)" % (x, mean, s))
    # normalised: the density integrates to 1
    grid = mean + s * np.linspace(-9, 9, 181)
    dens = [math.exp(naima.normal_prior(g, mean, s)) for g in grid]
    steps = np.diff(grid)
    if s > 1e-9 * abs(mean):
        tot = float(np.sum(0.5 * (np.array(dens[1:]) + dens[:-1]) * steps))
        if abs(tot - 1) > 1e-5:
            fail("exp(normal_prior) integrates to %r for mean %r, sigma %r", tot, mean, s)
    lim = {"both": dict(umin=a, umax=b), "min": dict(umin=a), "max": dict(umax=b),
           "none": {}}[case["lim"]]
    got = naima.log_uniform_prior(v, **lim)
    ok = v > 0 and v >= lim.get("umin", 0) and v <= lim.get("umax", np.inf)
    want = -math.log(v) if ok else -np.inf
    if not (got == want or abs(got - want) <= 1e-12 * abs(want)):
        fail("log_uniform_prior(%r, %r) = %r, expected %r", v, lim, got, want)
    return ["inside" if inside else "outside", "log inside" if ok else "log outside"]


# ------------------------------------------------------------------- posterior

PRIORS = ["uniform", "uniform", "normal", "loguniform", "flat"]


@st.composite
def blob_spec(draw):
    kind = draw(st.sampled_from(["scalar", "array", "pair", "listpair", "float", "ndarray",
                                 "2d", "none", "string", "flux again"]))
    return {"kind": kind, "n": draw(st.integers(1, 5)),
            "unit": draw(st.sampled_from(["erg", "TeV", "G", "1/eV", "", "kpc"]))}


@st.composite
def cases(draw):
    kinds = draw(mc.kinds())
    power = "power" in kinds[0]
    ds = draw(tables.datasets(kinds=kinds, min_size=1, max_size=5, emin=1e10, emax=1e14,
                              ulerr=True))
    spec = draw(mc.parametric(power=power))
    for r in ds["rows"]:
        f = float("%.4g" % (spec["scale"] * draw(linf(0.2, 3, 3))))
        r["f"], r["lo"], r["hi"] = f, f * r["lo"] / (max(abs(r["f"]), r["lo"]) or 1), \
            f * r["hi"] / (max(abs(r["f"]), r["hi"]) or 1)
    n = spec["ndim"]
    pri = None
    if draw(chance(0.85)):
        pri = []
        for i in range(n):
            kind = draw(st.sampled_from(PRIORS))
            c = spec["p0"][i]
            w = draw(linf(0.1, 1.0, 3))
            if kind == "normal":  # up to 1e4 sigma away
                w = draw(logf(1e-4, 10.0, 3))
            pri.append({"kind": kind, "c": c, "w": w})
    # the first one is allowed by all priors but the log-uniform one
    coords = [list(spec["p0"])] + [
        [draw(linf(c - 0.8, c + 0.8, 4)) for c in spec["p0"]] for _ in range(4)]
    return {"ds": ds, "spec": spec, "prior": pri, "coords": coords,
            "form": draw(tables.forms(ds)), "sed": draw(st.sampled_from([None, True, False])),
            "out": draw(st.sampled_from(["flux", "tuple", "list"])),
            "blobs": draw(st.lists(blob_spec(), max_size=3))}


def prior_value(pri, p):
    """Reference."""
    tot = 0.0
    for d, x in zip(pri, p):
        c, w = d["c"], d["w"]
        if d["kind"] == "uniform":
            tot += 0.0 if c - w <= x <= c + w else -np.inf
        elif d["kind"] == "normal":
            tot += -0.5 * ((x - c) / w) ** 2 - math.log(w * math.sqrt(2 * math.pi))
        elif d["kind"] == "loguniform":
            tot += -math.log(x) if x > 0 and w <= x <= abs(c) + w + 1 else -np.inf
    return tot


def naima_prior(pri):
    def f(p):
        tot = 0.0
        for d, x in zip(pri, p):
            c, w = d["c"], d["w"]
            if d["kind"] == "uniform":
                tot += naima.uniform_prior(x, c - w, c + w)
            elif d["kind"] == "normal":
                tot += naima.normal_prior(x, c, w)
            elif d["kind"] == "loguniform":
                tot += naima.log_uniform_prior(x, w, abs(c) + w + 1)
        return tot
    return f


def make_blob(b, p, flux):
    s = 1.0 + abs(p[0])
    unit = u.Unit(b["unit"])
    n = b["n"]
    return {
        "scalar": s * unit, "array": s * np.arange(1, n + 1) * unit,
        "pair": (np.arange(n) * u.eV, s * np.arange(n) * unit),
        "listpair": [np.arange(n) * u.eV, s * np.arange(n) * unit],
        "float": float(s), "ndarray": s * np.arange(n), "2d": s * np.ones((n, 2)) * unit,
        "none": None, "string": "s%.6g" % s, "flux again": flux}[b["kind"]]


def same(a, b):
    if isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, u.Quantity):
        return isinstance(a, u.Quantity) and a.unit == b.unit and a.shape == b.shape \
            and bool(np.array_equal(a.value, b.value))
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and not isinstance(a, u.Quantity) \
            and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(b, float):
        return isinstance(a, float) and a == b
    return a is b or a == b


def output(case, p, data):
    flux = mc.model_flux(case["spec"], p, data)
    if case["out"] == "flux":
        return flux
    out = [flux] + [make_blob(b, p, flux) for b in case["blobs"]]
    return tuple(out) if case["out"] == "tuple" else out


def check(case):
    ds, spec = case["ds"], case["spec"]
    rows = tables.expected(ds)
    pri = case["prior"]
    t = tables.table(ds, case["form"])

    def model(p, data):
        return output(case, p, data)

    prior = None if pri is None else naima_prior(pri)
    n = spec["ndim"]
    with mc.quiet():
        s, _ = naima.get_sampler(data_table=t, p0=spec["p0"], model=model, prior=prior,
                                 nwalkers=2 * n + 2, nburn=0, threads=1, guess=False,
                                 data_sed=case["sed"])
    coords = np.array(case["coords"])
    got, blobs = s.compute_log_prob(coords)
    if blobs is None or len(blobs) != len(coords):
        fail("%r blobs for %d positions", None if blobs is None else len(blobs), len(coords))
    inside = 0
    for p, g, b in zip(coords, got, blobs):
        m = mc.model_sed(spec, p, [r["e"] for r in rows])
        lp = 0.0 if pri is None else prior_value(pri, p)
        if np.isinf(lp):
            if not g == -np.inf:
                fail("log-probability %r at %r, where the prior is -inf", float(g), p.tolist())
        elif not mc.near_ul(rows, m):
            inside += 1
            want = lp + mc.chi_terms(rows, m)
            if not abs(g - want) <= 1e-8 * abs(want - lp) + 1e-11 * abs(lp) + 1e-8:
                fail("log-probability %r at %r, expected prior %r + likelihood %r", float(g),
                     p.tolist(), lp, want - lp)
        # blobs, wherever the prior is
        out = output(case, p, s.data)
        if case["out"] == "flux":
            out = [out]
        if len(b) < len(out):
            fail("%d blobs stored, the model returned %d objects", len(b), len(out))
        for i, (x, y) in enumerate(zip(b, out)):
            if not same(x, y):
                fail("blob %d is %r, the model returned %r", i, x, y)
    kinds = [x["kind"] for x in case["blobs"]] if case["out"] != "flux" else ["flux only"]
    return kinds + ([] if inside else ["trivial"])


SUBS = [
    Sub("priors", prior_cases(), check_prior, quick=4000, thorough=40000),
    Sub("posterior", cases(), check, quick=1200, thorough=15000),
]
