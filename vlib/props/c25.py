"""C25: best fit and confidence bands."""
import re

import matplotlib

matplotlib.use("Agg")
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import chains, figs, mc, tables
from ..gen import chance, linf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "samplers with arbitrary chains, log-probabilities, labels and blobs, model outputs, "
    "confidence levels, energy ranges and units, drawn by Hypothesis; non-trivial: more than "
    "one step"
)
ASSUMPTIONS = [
    "a quantile of n samples is one of (or between) the two order statistics around rank "
    "q (n - 1)",
    "bands of recomputed models are compared with the exact distribution over the chain within "
    "the range of order statistics of 100 random samples (two-sided probability 1e-9)"]


@st.composite
def fit_cases(draw):
    c = draw(chains.chains(blobs=["flux", "pair", "pair", "scalar"], max_steps=12,
                           data={"min_size": 2}))
    kinds = ["flux"] + [b["kind"] for b in c["blobs"] or []]
    idx = [i for i, k in enumerate(kinds) if k in ("flux", "pair")]
    mode = draw(st.sampled_from(["confs", "confs", "samples", "ml"]))
    case = {"run": c, "modelidx": draw(st.sampled_from(idx)), "mode": mode,
            "sed": draw(st.sampled_from([None, True, False])),
            "e_unit": draw(st.sampled_from([None, "eV", "keV", "TeV", "erg"])),
            "last_step": draw(st.booleans()), "ML_info": draw(st.booleans()),
            "plotdata": draw(st.sampled_from([None, False, True])),
            "confs": draw(st.lists(linf(0.2, 4.0, 2), min_size=1, max_size=4, unique=True)),
            "n_samples": draw(st.integers(1, 8)),
            "noblobs": bool(draw(chance(0.12))), "e_range": None}
    if c["blobs"]:
        case["noblobs"] = False
    if draw(chance(0.25)) or case["noblobs"]:
        lo = draw(st.integers(9, 13))
        case["e_range"] = [float("1e%d" % lo), float("1e%d" % (lo + draw(st.integers(1, 3))))]
        case["e_npoints"] = draw(st.one_of(st.just(max(3, len(c["ds"]["rows"]))),
                                           st.integers(3, 12)))
        case["r_unit"] = draw(st.sampled_from(["eV", "GeV", "erg"]))
        if case["noblobs"] and draw(st.booleans()):
            case["default_range"] = True
    if mode == "confs" and not case["e_range"] and draw(chance(0.2)):
        # a chain long enough for the edges of bands above 3 sigma
        c["nsteps"] = draw(st.integers(800, 1500)) // c["nwalkers"] + 1
        case["last_step"] = False
        case["confs"] = draw(st.lists(linf(2.5, 5.0, 2), min_size=1, max_size=4, unique=True))
    return case


def curve_of(out, idx, energy):
    """(energies, values) of one model output."""
    x = out[idx] if isinstance(out, (tuple, list)) else out
    if isinstance(x, (tuple, list)):
        return x[0], x[1]
    return energy, x


def shown(model, p, data, idx, sed, e_unit):
    e, f = curve_of(model(p, data), idx, data["energy"])
    y, unit = figs.displayed(e, f, sed)
    return u.Quantity(e).to(e_unit).value, y


def matches(x, y, x0, y0):
    return len(x) == len(x0) and np.allclose(x, x0, rtol=1e-9, atol=0) and \
        np.allclose(y, y0, rtol=1e-7, atol=1e-300)


def check_fit(case):
    c = case["run"]
    c["noblobs"] = case["noblobs"]
    s = chains.build(c)
    model = s.modelfn
    chain, lnp = chains.arrays(c)
    sed = True if case["sed"] is None else case["sed"]
    idx = case["modelidx"]
    kw = {"modelidx": idx, "last_step": case["last_step"], "ML_info": case["ML_info"],
          "plotdata": case["plotdata"], "threads": 1}
    if case["sed"] is not None:
        kw["sed"] = sed
    e_unit = s.data["energy"].unit
    if case["e_unit"] is not None:
        kw["e_unit"] = e_unit = u.Unit(case["e_unit"])
    if case["mode"] == "confs":
        kw["confs"] = list(case["confs"])
    elif case["mode"] == "samples":
        kw["n_samples"] = case["n_samples"]
    else:
        kw["n_samples"] = None
    if case["plotdata"] and case["mode"] == "ml":
        kw["plotresiduals"] = True  # otherwise only the data are plotted
    kinds = ["flux"] + [b["kind"] for b in c["blobs"] or []]
    # data can only be shown with models of the same kind
    if case["plotdata"] and kinds[idx] != "flux":
        kw["plotdata"] = None
    grid = None
    if case["e_range"] is not None and not case.get("default_range"):
        kw["e_range"] = (case["e_range"] * u.eV).to(case["r_unit"])
        kw["e_npoints"] = case["e_npoints"]
    if case["mode"] == "ml" and kw["plotdata"] is None and kinds[idx] == "flux":
        kw["plotdata"] = False
    try:
        f = naima.plot_fit(s, **kw)
        ax = f.axes[0]
        all_p = chain[-1] if case["last_step"] else chain.reshape(-1, chain.shape[2])
        best = [chain[tuple(i)] for i in np.argwhere(lnp == np.max(lnp))]
        data = s.data
        if case["e_range"] is not None:
            x0 = None
        lines = [figs.xy(ln) + (ln,) for ln in figs.curves(ax)]
        nlines = 1 + (case["n_samples"] if case["mode"] == "samples" else 0)
        if len(lines) != nlines:
            fail("%d lines, expected %d", len(lines), nlines)
        x0 = lines[-1][0]
        if case["e_range"] is not None and kinds[idx] == "flux":
            if case.get("default_range"):
                lim = u.Quantity([data["energy"][0] / 3, data["energy"][-1] * 3]).to(e_unit).value
                n = 100
            else:
                lim = (case["e_range"] * u.eV).to(e_unit).value
                n = case["e_npoints"]
            want = np.logspace(np.log10(lim[0]), np.log10(lim[1]), n)
            close(x0, want, rtol=1e-9, what="energies of the model for an energy range")
        if case["e_range"] is not None:
            if kinds[idx] == "flux":
                grid = {"energy": x0 * e_unit, "flux": np.zeros(len(x0)) * data["flux"].unit}
            else:
                grid = {"energy": [1.0, 2.0] * u.TeV, "flux": np.zeros(2) * data["flux"].unit}
        else:
            grid = data
        # the best fit
        best_curves = [shown(model, p, grid, idx, sed, e_unit) for p in best]
        if nlines > 2:
            widths = [ln.get_linewidth() for _, _, ln in lines]
            odd = [i for i, w in enumerate(widths) if widths.count(w) == 1]
            mls = [lines[i] for i in odd] or lines
        else:
            mls = lines
        ok = [b for b in range(len(best)) if any(
            matches(x, y, *best_curves[b]) for x, y, _ in mls)]
        if not ok:
            fail("no line shows the model of the most probable sample %r: lines %r, expected %r",
                 [b.tolist() for b in best], [(x.tolist(), y.tolist()) for x, y, _ in mls],
                 [(x.tolist(), y.tolist()) for x, y in best_curves])
        curves = [shown(model, p, grid, idx, sed, e_unit) for p in all_p]
        ys = np.array([y for _, y in curves])
        if case["mode"] == "samples":
            bad = [y for x, y, _ in lines
                   if not any(matches(x, y, *w) for w in curves + best_curves)]
            if bad:
                fail("%d of %d lines are not models of the samples", len(bad), len(lines))
            n_sample = sum(any(matches(x, y, *w) for w in curves) for x, y, _ in lines)
            if n_sample < case["n_samples"]:
                fail("%d lines show samples, expected %d", n_sample, case["n_samples"])
        if case["mode"] == "confs":
            bb = figs.bands(ax)
            if len(bb) != len(case["confs"]):
                fail("%d bands, expected %d", len(bb), len(case["confs"]))
            edges = [figs.band_at(v, curves[0][0]) for v in bb]
            check_bands(edges, sorted(case["confs"], reverse=True), ys,
                        case["e_range"] is not None)
        elif figs.bands(ax):
            fail("confidence bands without confidence levels")
        txt = [t for t in figs.texts(f) if "probability" in t]
        if case["ML_info"] and case["mode"] != "ml":
            if len(txt) != 1:
                fail("maximum likelihood information: %r", figs.texts(f))
            check_info(txt[0], c, chain, np.max(lnp), [best[b] for b in ok])
        elif txt:
            fail("maximum likelihood information not asked for: %r", txt)
    finally:
        figs.close_all()
    labels = [case["mode"], kinds[idx]]
    if case["e_range"] is not None:
        labels.append("e_range")
    if case["last_step"]:
        labels.append("last step")
    return labels + ([] if len(chain) > 1 else ["trivial"])


def check_bands(edges, confs, ys, recomputed):
    from scipy import stats

    n = len(ys)
    order = np.sort(ys, axis=0)
    # widest first: find the band of each level by its width
    width = [float(np.sum(np.log(np.maximum(hi, 1e-300)) - np.log(np.maximum(lo, 1e-300))))
             for lo, hi in edges]
    perm = sorted(range(len(edges)), key=lambda i: -width[i])
    for k, i in enumerate(perm):
        lo, hi = edges[i]
        if k and (np.any(lo < edges[perm[k - 1]][0] * (1 - 1e-9) - 1e-300)
                  or np.any(hi > edges[perm[k - 1]][1] * (1 + 1e-9) + 1e-300)):
            fail("bands at %s sigma are not nested", confs)
        for y, q, name in ((lo, stats.norm.cdf(-confs[k]), "lower"),
                           (hi, stats.norm.cdf(confs[k]), "upper")):
            if not recomputed:
                a, b = int(np.floor(q * (n - 1) - 1e-9)), int(np.ceil(q * (n - 1) + 1e-9))
                a, b = max(a, 0), min(b, n - 1)
            else:
                r = int(q * 99)
                a = int(np.floor(n * stats.beta.ppf(5e-10, r + 1, 100 - r))) - 1
                b = int(np.ceil(n * stats.beta.ppf(1 - 5e-10, r + 1, 100 - r))) + 1
                a, b = max(a, 0), min(b, n - 1)
            w = (order[a] * (1 - 1e-7) - 1e-300, order[b] * (1 + 1e-7) + 1e-300)
            bad = (y < w[0]) | (y > w[1])
            if np.any(bad):
                j = int(np.flatnonzero(bad)[0])
                fail("%s edge at %g sigma of %d samples: %r, expected %r to %r (of %r to %r)",
                     name, confs[k], n, y[j], order[a][j], order[b][j], order[0][j], order[-1][j])


def check_info(text, c, chain, lnp, best):
    nums = {}
    for line in text.splitlines():
        m = re.match(r"^\s*(.*?)\s*:\s*(%s)(?:\s*\+/-\s*(%s))?\s*$" % (figs.NUM, figs.NUM), line)
        if m:
            nums[m.group(1)] = (m.group(2), m.group(3))
    flat = chain.reshape(-1, chain.shape[2])

    def agree(t, w):
        return t is not None and abs(float(t) - w) <= 5.1e-3 * abs(w) + 1e-300

    v = nums.get("Maximum log probability", (None, None))[0]
    if not agree(v, lnp):
        fail("maximum log probability shown as %r, expected %r", v, lnp)
    if not any(all(agree(nums.get(lab, (None,))[0], p[i]) for i, lab in enumerate(c["labels"]))
               for p in best):
        fail("maximum likelihood parameters shown: %r, expected %r", nums,
             [p.tolist() for p in best])
    for i, lab in enumerate(c["labels"]):
        lo, hi = np.percentile(flat[:, i], [16, 84])
        if not agree(nums[lab][1], (hi - lo) / 2):
            fail("error of %r shown as %r, expected %r", lab, nums[lab][1], (hi - lo) / 2)


# ------------------------------------------------------------------ corner plots

@st.composite
def corner_cases(draw):
    c = draw(chains.chains(blobs=["scalar"], min_steps=4, max_steps=10, max_dim=3,
                           data={"min_size": 1}))
    return {"run": c, "show_ML": draw(st.sampled_from([None, True, False]))}


def check_corner(case):
    c = case["run"]
    s = chains.build(c)
    chain, lnp = chains.arrays(c)
    before = chains.snapshot(s)
    try:
        f = naima.plot_corner(s, **({} if case["show_ML"] is None
                                    else {"show_ML": case["show_ML"]}))
        if chains.snapshot(s) != before:
            fail("plot_corner modified the sampler")
        k = chain.shape[2]
        best = [chain[tuple(i)] for i in np.argwhere(lnp == np.max(lnp))]
        flat = chain.reshape(-1, k)
        ok = list(range(len(best)))
        for i in range(k):
            ax = f.axes[i * k + i]
            vert = [float(x[0]) for x, _ in map(figs.xy, ax.lines)
                    if len(x) == 2 and x[0] == x[1]]
            qs = np.percentile(flat[:, i], (16, 50, 84))
            for q, w in zip((16, 50, 84), qs):
                if not any(abs(v - w) <= 0.02 * np.ptp(flat[:, i]) for v in vert):
                    fail("no line at the %d%% quantile %r of parameter %d: %r", q, w, i, vert)
            if case["show_ML"] is False:  # lines other than those of the quantiles
                vert = [v for v in vert if np.min(np.abs(v - qs)) > 1e-9 * abs(v)]
            ok = [j for j in ok if any(abs(v - best[j][i]) <= 1e-9 * abs(v) for v in vert)]
        if case["show_ML"] is not False and not ok:
            fail("no lines at the most probable sample %r", [b.tolist() for b in best])
        if case["show_ML"] is False and ok:
            fail("lines at the most probable sample although show_ML=False")
    finally:
        figs.close_all()


# ------------------------------------------------------------------ which samples

@st.composite
def draw_cases(draw):
    c = draw(chains.chains(blobs=["scalar"], min_steps=40, max_steps=70, max_dim=2, ties=False,
                           data={"min_size": 2}))
    c["nwalkers"] = draw(st.sampled_from([8, 10, 16]))
    return {"run": c, "order": draw(st.sampled_from(["step", "step", "walker"])),
            "last_step": draw(chance(0.15)), "what": draw(st.sampled_from(["samples", "confs"])),
            "e_range": draw(chance(0.8)), "sed": draw(st.booleans()),
            "n_samples": draw(st.sampled_from([100, 150, 400])),
            "np_seed": draw(st.integers(0, 10 ** 6))}


def check_draws(case):
    """The models shown come from all over the chain, not from a part of it."""
    from scipy import stats
    c = case["run"]
    shape = (c["nsteps"], c["nwalkers"])
    r = np.arange(shape[0] * shape[1]) / (shape[0] * shape[1] - 1.0)
    if case["last_step"] or case["order"] == "walker":
        r = r.reshape(shape[::-1]).T
    r = r.reshape(shape)
    p0 = c["spec"]["p0"]
    c["values"] = [abs(p0[0]) * (1 + 3 * r)] + [np.full(shape, p) for p in p0[1:]]
    s = chains.build(c)
    del c["values"]
    kw = {"last_step": case["last_step"], "sed": case["sed"], "threads": 1, "ML_info": False,
          "plotdata": False}
    if case["e_range"]:
        e = s.data["energy"]
        kw.update(e_range=u.Quantity([e[0], 1.1 * e[-1]]), e_npoints=3)
    if case["what"] == "samples":
        kw["n_samples"] = case["n_samples"]
    else:
        kw["confs"] = [2, 1]
    np.random.seed(case["np_seed"])
    try:
        f = naima.plot_fit(s, **kw)
        ax = f.axes[0]
        lines = [figs.xy(ln) for ln in figs.curves(ax)]
        x = lines[-1][0]
        data = s.data
        if case["e_range"]:
            data = {"energy": x * s.data["energy"].unit,
                    "flux": np.zeros(len(x)) * s.data["flux"].unit}
        a, b = [shown(s.modelfn, [abs(p0[0]) * k] + list(p0[1:]), data, 0, case["sed"],
                      s.data["energy"].unit)[1][0] for k in (1, 4)]
        pool = r[-1] if case["last_step"] else r.ravel()
        if not abs(b - a) > 1e-6 * abs(b):
            return False

        def pos(y):  # position in the chain, the flux being linear in the normalisation
            v = (y - a) / (b - a)
            i = np.argmin(np.abs(r.ravel() - v))  # the best fit may be of any step
            if abs(r.ravel()[i] - v) > 1e-6:
                fail("a model shown belongs to none of the samples")
            return float(r.ravel()[i])

        if case["what"] == "samples":
            got = np.array([pos(y[0]) for _, y in lines])
            edges = np.percentile(pool, [0, 25, 50, 75, 100])
            for k in range(4):
                if not np.any((got >= edges[k]) & (got <= edges[k + 1])):
                    fail("none of %d samples shown is of quarter %d of the chain",
                         len(got), k + 1)
        else:
            bb = sorted((figs.band_at(v, x) for v in figs.bands(ax)),
                        key=lambda v: v[1][0] - v[0][0])
            if len(bb) != 2:
                fail("%d bands", len(bb))
            for sigma, (lo, hi) in zip((1, 2), bb):
                for y, q in ((lo, stats.norm.cdf(-sigma)), (hi, stats.norm.cdf(sigma))):
                    # 100 samples or more: 8 standard deviations
                    tol = 8 * np.sqrt(q * (1 - q) / 100) + 0.03
                    v = pos(y[0])
                    rank = np.mean(pool <= v)
                    if abs(rank - q) > tol + 1.0 / len(pool):
                        fail("edge at %d sigma at rank %g of the samples, expected %g",
                             sigma, rank, q)
    finally:
        figs.close_all()
    return [case["what"]] + (["e_range"] if case["e_range"] else ["trivial"])


SUBS = [Sub("draws", draw_cases(), check_draws, quick=48, thorough=300),
        Sub("fit", fit_cases(), check_fit, quick=400, thorough=5000),
        Sub("corner", corner_cases(), check_corner, quick=40, thorough=400)]
