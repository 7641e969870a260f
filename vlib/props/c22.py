"""C22: starting point of the chains."""
import copy

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import mc, tables
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "data, a parametric model (normalisation linear or logarithmic), starting points, "
    "labels, priors and options drawn by Hypothesis; non-trivial: the guess or the prefit "
    "moves the starting point"
)
ASSUMPTIONS = [
    "the ratio of integrated data to model flux is positive",
    "walkers are within 6.5 standard deviations (of 10 %) of the starting point"]

NAMES = ["norm", "Norm", "NORM", "normalization", "norm (1/eV)", "ampl", "Amplitude",
         "We", "We (erg)", "we", "Wp", "WP", "wp (48)"]
OTHER = ["index", "cutoff", "B", "alpha", "e_norm", "my amplitude", "xwe", "lognorm",
         "log10 norm", "log(cutoff)", "log10(B)", "ln(norm)", "Power", "(norm)"]


def log_labels(log):
    pre = {"log": ["log(%s)", "Log(%s)", "LOG(%s)"],
           "log10": ["log10(%s)", "Log10(%s)", "LOG10(%s)"]}[log]
    return [p % n for p in pre for n in ("norm", "Norm", "ampl", "amplitude", "We", "wp", "Wp/eV")]


@st.composite
def setups(draw, ndim=None, one_ok=False):
    kinds = draw(mc.kinds())
    power = "power" in kinds[0]
    spec = draw(mc.parametric(power=power, ndim=ndim))
    ds = draw(tables.datasets(kinds=kinds, min_size=1 if one_ok else 2, max_size=5,
                              emin=1e10, emax=1e14, errmin=0.05))
    true = [x + draw(linf(-0.3, 0.3, 3)) for x in spec["p0"]]
    f = mc.model_sed(spec, true, [r["e"] for r in ds["rows"]])
    for r, x in zip(ds["rows"], f):
        r["f"] = float("%.4g" % (abs(x) * draw(linf(0.5, 1.7, 3))))
        r["lo"], r["hi"] = (float("%.4g" % (abs(x) * draw(linf(0.1, 0.6, 3)))) for _ in "ab")
    return {"ds": ds, "spec": spec, "form": draw(tables.forms(ds)),
            "sed": draw(st.sampled_from([None, None, True, False]))}


@st.composite
def guess_cases(draw):
    c = draw(setups(one_ok=True))
    spec = c["spec"]
    n = spec["ndim"]
    how = draw(st.sampled_from(["one", "one", "one", "default", "none", "two", "off", "short"]))
    pos = draw(st.integers(0, n - 1))
    # the parameter with the normalisation label may be any of the model
    pool = NAMES if spec["log"] is None else log_labels(spec["log"])
    other = draw(st.permutations(OTHER))
    labels = [other[i] for i in range(n)]
    if how in ("one", "off", "short"):
        labels[0] = draw(st.sampled_from(pool))
    if how == "two" and n > 1:
        a, b = draw(st.permutations(list(range(n))))[:2]
        labels[a] = draw(st.sampled_from(NAMES))
        labels[b] = draw(st.sampled_from(NAMES + log_labels("log") + log_labels("log10")))
        if labels[a] == labels[b]:
            labels[b] += "2"
    if how == "default":
        labels = None
        spec["log"] = None
    if how == "short":
        labels = labels[:1]
    order = list(range(n))
    if how == "one":  # position of the normalisation among the parameters
        order[0], order[pos] = order[pos], order[0]
        labels = [labels[i] for i in order]
    off = draw(logf(1e-3, 1e3))
    spec["p0"][0] = float("%.4g" % {
        None: spec["p0"][0] * off, "log": spec["p0"][0] + np.log(off),
        "log10": spec["p0"][0] + np.log10(off)}[spec["log"]])
    c.update({"how": how, "labels": labels, "order": order,
              "p0type": draw(st.sampled_from(["list", "array", "tuple"])),
              "ltype": draw(st.sampled_from(["list", "list", "tuple", "array"])),
              "out": draw(st.sampled_from(["flux", "tuple"]))})
    return c


def integral(e, sed):
    """Linear trapezoid of energy times differential flux."""
    o = np.argsort(e, kind="stable")
    e, y = np.asarray(e)[o], np.asarray(sed)[o]
    return np.trapezoid(y / e, e)


def check_guess(case):
    spec, how, labels = case["spec"], case["how"], case["labels"]
    rows = tables.expected(case["ds"])
    n = spec["ndim"]
    order = case["order"]
    inv = np.argsort(order)

    def model(p, data):
        q = mc.model_flux(spec, np.asarray(p)[inv], data)
        return (q, 1 * u.erg) if case["out"] == "tuple" else q

    p0 = [spec["p0"][i] for i in order]
    given = {"list": list, "array": np.array, "tuple": tuple}[case["p0type"]](p0)
    lab = labels if labels is None else \
        {"list": list, "tuple": tuple, "array": np.array}[case["ltype"]](labels)
    lab0 = copy.copy(lab)
    with mc.quiet():
        s, pos = naima.get_sampler(data_table=tables.table(case["ds"], case["form"]), p0=given,
                                   model=model, nwalkers=2 * n + 2, nburn=0, threads=1,
                                   guess=how != "off", labels=lab, data_sed=case["sed"])
    if list(given) != p0 or type(given).__name__ != {"list": "list", "array": "ndarray",
                                                     "tuple": "tuple"}[case["p0type"]]:
        fail("p0 was modified: %r, was %r", list(given), p0)
    if lab is not None and (type(lab) is not type(lab0) or list(lab) != list(lab0)):
        fail("labels were modified: %r, were %r", lab, lab0)
    got = list(s.run_info["p0"])
    want = list(p0)
    moved = False
    if how in ("one", "default", "short") and len(rows) > 1:
        e = [r["e"] for r in rows]
        ratio = integral(e, [r["f"] for r in rows]) / integral(
            e, mc.model_sed(spec, spec["p0"], e))
        i = order.index(0)
        want[i] = {None: p0[i] * ratio, "log": p0[i] + np.log(ratio),
                   "log10": p0[i] + np.log10(ratio)}[spec["log"]]
        moved = abs(ratio - 1) > 1e-3
        got_ratio = integral(e, mc.model_sed(spec, np.array(got)[inv], e)) / integral(
            e, [r["f"] for r in rows])
        if abs(got_ratio - 1) > 1e-8:
            fail("labels %r: after the guess the model integrates to %r times the data",
                 list(s.labels), float(got_ratio))
    elif how in ("one", "default", "short"):
        return False
    if len(got) != len(want):
        fail("%d starting values for %d parameters", len(got), len(want))
    close(got, want, rtol=1e-9, atol=1e-12, what="starting point with labels %r"
          % (list(s.labels),))
    return [how] + ([] if moved or how in ("none", "two", "off") else ["trivial"])


# ------------------------------------------------------------------- prefit

class Box:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __call__(self, p):
        ok = all(a <= x <= b for x, a, b in zip(p, self.lo, self.hi))
        return 0.0 if ok else -np.inf


@st.composite
def prefit_cases(draw):
    c = draw(setups(ndim=draw(st.integers(1, 3))))
    spec = c["spec"]
    spec["p0"] = [x if abs(x) > 0.02 else 0.3 for x in spec["p0"]]
    pri = draw(st.sampled_from([None, None, "wide", "narrow", "tiny"]))
    w = {None: 0, "wide": 5.0, "narrow": 0.4, "tiny": 1e-3}[pri]
    c.update({"prior": None if pri is None else [[x - w for x in spec["p0"]],
                                                 [x + w for x in spec["p0"]]],
              "guess": draw(chance(0.3)), "int": draw(chance(0.1))})
    return c


def check_prefit(case):
    spec = case["spec"]
    rows = tables.expected(case["ds"])
    n = spec["ndim"]
    e = np.array([r["e"] for r in rows])
    p0 = list(spec["p0"])
    if case["int"]:
        p0 = [int(round(x)) or 1 for x in p0]
    prior = None if case["prior"] is None else Box(*case["prior"])

    def model(p, data):
        return mc.model_flux(spec, p, data)

    labels = ["x", "y", "z"][:n]
    if case["guess"] and spec["log"] is None:
        labels[0] = "norm"
    kw = dict(data_table=tables.table(case["ds"], case["form"]), model=model, prior=prior,
              nwalkers=40, nburn=0, threads=1, guess=case["guess"], data_sed=case["sed"],
              labels=labels)
    with mc.quiet():
        s0, pos0 = naima.get_sampler(p0=list(p0), **kw)
        s, pos = naima.get_sampler(p0=p0, prefit=True, **kw)
    start = np.array(s0.run_info["p0"])
    got = np.array(s.run_info["p0"])

    def lnl(p):
        return mc.chi_terms(rows, mc.model_sed(spec, p, e))

    l0, l1 = lnl(start), lnl(got)
    if not np.isfinite(l1):
        fail("the prefit leads to %r with log-likelihood %r", got.tolist(), l1)
    if l1 < l0 - 1e-6 * abs(l0) - 1e-6:
        fail("log-likelihood at the prefit parameters %r is %r, %r at the start %r",
             got.tolist(), l1, l0, start.tolist())
    if prior is not None and prior(start) == 0 and prior(got) != 0:
        fail("the prefit leads to %r, forbidden by the prior %r", got.tolist(), case["prior"])
    moved = np.any(np.abs(got - start) > 1e-9)
    # linear model: the optimum can be found on a grid
    if n == 1 and spec["log"] is None and prior is None and not any(r["ul"] for r in rows):
        grid = np.linspace(0.05, 6, 1200)
        best = max(lnl([x]) for x in grid)
        if best - l1 > 0.05 * max(best - l0, 0) + 0.5:
            fail("prefit of the normalisation stops at log-likelihood %r (started at %r), "
                 "%r is possible", l1, l0, best)
    for st_, c in ((pos0, start), (pos, got)):
        check_walkers(st_.coords, c, 40)
    return ["moved" if moved else "kept"] + ([] if moved else ["trivial"])


def check_walkers(coords, p0, nwalkers):
    if coords.shape != (nwalkers, len(p0)):
        fail("walkers of shape %r", coords.shape)
    dev = np.abs(coords - p0)
    lim = 6.5 * 0.1 * np.abs(p0)
    if np.any(dev > lim + 1e-12):
        i = np.unravel_index(np.argmax(dev - lim), dev.shape)
        fail("walker at %r, the starting point is %r", coords[i[0]].tolist(), p0.tolist())
    for k, x in enumerate(p0):
        if x != 0 and len(set(coords[:, k].tolist())) < nwalkers:
            fail("walkers do not spread in parameter %d", k)
        if x != 0:
            side = np.sum(coords[:, k] > x)
            if side in (0, nwalkers):  # probability 2**-39 for 40 walkers
                fail("all the walkers are on one side of the starting point %r", p0.tolist())


SUBS = [
    Sub("guess", guess_cases(), check_guess, quick=1600, thorough=20000),
    Sub("prefit", prefit_cases(), check_prefit, quick=240, thorough=4000),
]
