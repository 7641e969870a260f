"""C21: samples, probabilities and blobs of a run."""
import math

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import mc, tables
from ..gen import chance, linf
from ..harness import Sub
from ..util import fail

RULE = (
    "data, a parametric model with or without blobs, prior, numbers of walkers, burn-in and "
    "run steps, processes, labels and random seed drawn by Hypothesis; non-trivial: some "
    "walker moved in the run"
)
ASSUMPTIONS = ["models and priors are deterministic and can be pickled when several processes are used"]


class Model:
    """Picklable model function."""

    def __init__(self, spec, blobs):
        self.spec, self.blobs = spec, blobs

    def __call__(self, p, data):
        f = mc.model_flux(self.spec, p, data)
        if self.blobs is None:
            return f
        out = [f]
        for b in self.blobs:
            x = 1.0 + float(np.sum(np.abs(p)))
            out.append({"scalar": x * u.erg, "array": x * np.arange(3) * u.G,
                        "float": x, "pair": (np.arange(2) * u.eV, x * np.ones(2) / u.eV)}[b])
        return tuple(out)


class Prior:
    def __init__(self, lo, hi, mean):
        self.lo, self.hi, self.mean = lo, hi, mean

    def __call__(self, p):
        tot = naima.normal_prior(p[0], self.mean, 0.3)
        for x, a, b in zip(p, self.lo, self.hi):
            tot += naima.uniform_prior(x, a, b)
        return tot

    def reference(self, p):
        if not all(a <= x <= b for x, a, b in zip(p, self.lo, self.hi)):
            return -np.inf
        return -0.5 * ((p[0] - self.mean) / 0.3) ** 2 - math.log(0.3 * math.sqrt(2 * math.pi))


@st.composite
def setups(draw, max_dim=3):
    kinds = draw(mc.kinds())
    power = "power" in kinds[0]
    spec = draw(mc.parametric(power=power, ndim=draw(st.integers(1, max_dim))))
    spec["p0"] = [x if abs(x) > 0.02 else 0.3 for x in spec["p0"]]
    ds = draw(tables.datasets(kinds=kinds, min_size=1, max_size=5, emin=1e11, emax=1e14,
                              errmin=0.05))
    truth = mc.model_sed(spec, spec["p0"], [r["e"] for r in ds["rows"]])
    for r, f in zip(ds["rows"], truth):
        r["f"] = float("%.4g" % (f * draw(linf(0.5, 1.7, 3))))
        r["lo"], r["hi"] = (float("%.4g" % (f * draw(linf(0.1, 0.6, 3)))) for _ in "ab")
    return {"ds": ds, "spec": spec, "form": draw(tables.forms(ds)),
            "sed": draw(st.sampled_from([None, None, True, False]))}


@st.composite
def cases(draw):
    c = draw(setups())
    n = c["spec"]["ndim"]
    c.update({
        "nwalkers": 2 * n + 2 * draw(st.integers(0, 4)),
        "nburn": draw(st.sampled_from([0, 0, 1, 2, 5])),
        "runs": draw(st.lists(st.integers(1, 7), min_size=1, max_size=3)),
        "threads": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "blobs": draw(st.one_of(st.none(), st.lists(
            st.sampled_from(["scalar", "array", "float", "pair"]), max_size=3))),
        "prior": draw(st.sampled_from([None, "wide", "narrow"])),
        "labels": draw(st.sampled_from([None, "short", "full", "tuple", "array"])),
        "guess": draw(chance(0.3)), "prefit": draw(chance(0.15)),
        "how": draw(st.sampled_from(["two steps", "one call"])),
        "seed": draw(st.integers(0, 2 ** 31))})
    return c


def prior_of(case):
    if case["prior"] is None:
        return None
    w = 1.5 if case["prior"] == "wide" else 0.35
    p = case["spec"]["p0"]
    return Prior([x - w for x in p], [x + w for x in p], p[0])


def settings(case, **kw):
    n = case["spec"]["ndim"]
    labels = {None: None, "short": ["norm"], "full": ["norm"] + ["x%d" % i for i in range(n - 1)],
              "tuple": tuple(["norm"] + ["x%d" % i for i in range(n - 1)]),
              "array": np.array(["norm"] + ["x%d" % i for i in range(n - 1)])}[case["labels"]]
    d = dict(data_table=tables.table(case["ds"], case["form"]), p0=list(case["spec"]["p0"]),
             model=Model(case["spec"], case["blobs"]), prior=prior_of(case),
             nwalkers=case["nwalkers"], nburn=case["nburn"], threads=case["threads"],
             guess=case["guess"], prefit=case["prefit"], labels=labels,
             data_sed=case["sed"])
    d.update(kw)
    return d


def same(a, b):
    if isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, u.Quantity):
        return isinstance(a, u.Quantity) and a.unit == b.unit and a.shape == b.shape \
            and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def check_run(case, s, pos, nrun, what):
    spec = case["spec"]
    rows = tables.expected(case["ds"])
    n = spec["ndim"]
    chain, lnp, blobs = s.get_chain(), s.get_log_prob(), s.get_blobs()
    if chain.shape != (nrun, case["nwalkers"], n):
        fail("%s: chain of shape %r, expected %r", what, chain.shape,
             (nrun, case["nwalkers"], n))
    if lnp.shape != chain.shape[:2] or blobs is None or blobs.shape[:2] != chain.shape[:2]:
        fail("%s: log-probabilities of shape %r, blobs of shape %r", what, lnp.shape,
             None if blobs is None else blobs.shape)
    if not np.array_equal(pos.coords, chain[-1]) or not np.array_equal(pos.log_prob, lnp[-1]):
        fail("%s: the returned state is not the last step of the chain", what)
    model, prior = Model(spec, case["blobs"]), prior_of(case)
    e = [r["e"] for r in rows]
    for i in range(nrun):
        for k in range(case["nwalkers"]):
            p = chain[i, k]
            m = mc.model_sed(spec, p, e)
            if mc.near_ul(rows, m, 1e-10):
                continue
            want = mc.chi_terms(rows, m) + (0.0 if prior is None else prior.reference(p))
            if np.isinf(want):
                if not np.isinf(lnp[i, k]):
                    fail("%s: log-probability %r stored at %r, outside the prior", what,
                         float(lnp[i, k]), p.tolist())
            elif not abs(lnp[i, k] - want) <= 1e-8 * abs(want) + 1e-8:
                fail("%s: step %d, walker %d: log-probability %r, expected %r at %r", what, i,
                     k, float(lnp[i, k]), want, p.tolist())
            out = model(p, s.data)
            out = [out] if case["blobs"] is None else out
            b = blobs[i, k]
            if len(b) < len(out) or not all(same(x, y) for x, y in zip(b, out)):
                fail("%s: step %d, walker %d: blobs %r, expected %r", what, i, k, list(b), out)
    if s.run_info["n_run"] != nrun:
        fail("%s: run_info n_run %r, expected %r", what, s.run_info["n_run"], nrun)
    acc = np.asarray(s.acceptance_fraction)
    if acc.shape != (case["nwalkers"],) or np.any(acc < 0) or np.any(acc > 1):
        fail("%s: acceptance fraction %r", what, acc)


def check(case):
    runs = case["runs"]
    kw = settings(case)
    data_table = kw["data_table"]
    np.random.seed(case["seed"] % 2 ** 32)
    pieces = []
    with mc.quiet():
        if case["how"] == "two steps":
            s, pos = naima.get_sampler(**kw)
            burnt = pos.coords.copy()
            s, pos = naima.run_sampler(nrun=runs[0], sampler=s, pos=pos)
        else:
            s, pos = naima.run_sampler(nrun=runs[0], **kw)
            burnt = None
    check_run(case, s, pos, runs[0], "first run")
    pieces.append(s.get_chain().copy())
    n = case["spec"]["ndim"]
    # run_info and attributes
    ri = s.run_info
    for k, w in (("n_walkers", case["nwalkers"]), ("n_burn", case["nburn"]),
                 ("guess", case["guess"])):
        if ri[k] != w:
            fail("run_info[%r] is %r, expected %r", k, ri[k], w)
    if not case["guess"] and not case["prefit"] and list(ri["p0"]) != case["spec"]["p0"]:
        fail("run_info p0 is %r, given %r", ri["p0"], case["spec"]["p0"])
    if burnt is not None and list(ri["p0_burn_median"]) != np.median(burnt, axis=0).tolist():
        fail("p0_burn_median is %r, positions %r", ri["p0_burn_median"], burnt.tolist())
    given = [] if kw["labels"] is None else list(kw["labels"])
    labels = list(s.labels)
    if len(labels) != n or labels[:len(given)] != given[:n] or \
            not all(isinstance(x, str) for x in labels) or len(set(labels)) != n:
        fail("labels %r for %d parameters, given %r", labels, n, given)
    if s.modelfn is not kw["model"] or s.data_table is not data_table:
        fail("the sampler does not keep the model and table given")
    tables.check_validated(
        s.data, tables.expected(case["ds"]),
        tables.SED[case["ds"]["kind"]] if case["sed"] is None else case["sed"],
        "power" in case["ds"]["kind"], "data of the sampler")
    for i, nrun in enumerate(runs[1:]):
        with mc.quiet():
            s, pos = naima.run_sampler(nrun=nrun, sampler=s, pos=pos)
        check_run(case, s, pos, nrun, "run %d" % (i + 2))
        pieces.append(s.get_chain().copy())
    chain = np.concatenate(pieces)
    # the same run in one go, without burn-in, in one process
    np.random.seed(case["seed"] % 2 ** 32)
    kw = settings(case, nburn=0, threads=1)
    total = case["nburn"] + sum(runs)
    with mc.quiet():
        s2, pos2 = naima.run_sampler(nrun=total, **kw)
    check_run(case, s2, pos2, total, "single run")
    c2 = s2.get_chain()
    if not np.array_equal(c2[case["nburn"]:], chain):
        bad = np.flatnonzero(np.any(c2[case["nburn"]:] != chain, axis=(1, 2)))
        fail("with the same seed, burn-in of %d and runs of %r steps in %d processes differ "
             "from a single run in one process from step %d on", case["nburn"], runs,
             case["threads"], int(bad[0]))
    labels = ["%d processes" % case["threads"], case["how"]]
    if len(runs) > 1:
        labels.append("continued")
    moved = np.any(chain != chain[0])
    return labels + ([] if moved else ["trivial"])


SUBS = [Sub("runs", cases(), check, quick=320, thorough=5000)]
