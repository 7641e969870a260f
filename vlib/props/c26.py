"""C26: plots of data, fits and residuals."""
import re

import matplotlib

matplotlib.use("Agg")
import astropy.units as u
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

import naima
from naima.utils import validate_data_table

from .. import chains, figs, mc, tables
from ..gen import chance, linf
from ..harness import Sub
from ..util import fail

RULE = (
    "data tables (or lists of tables) in all forms, samplers, options and sequences of plots "
    "drawn by Hypothesis; non-trivial: upper limits, several tables, points compatible with "
    "zero, a reused figure or residuals"
)
ASSUMPTIONS = [
    "upper limits are positive",
    "of points compatible with zero only the position and the upper end of the error bar are "
    "prescribed, and that the lower end is not below it"]


@st.composite
def splits(draw, ds):
    """The rows of a data set as one or several tables."""
    n = len(ds["rows"])
    k = min(draw(st.sampled_from([1, 1, 2, 3])), n)
    out = [dict(ds, rows=ds["rows"][i::k]) for i in range(k)]
    return [[d, draw(tables.forms(d))] for d in out]


@st.composite
def options(draw):
    o = {}
    if draw(chance(0.3)):
        o["ulim_opts"] = draw(st.sampled_from([
            {"height_fraction": 0.5}, {"capsize": 3}, {"height_fraction": 0.1, "capsize": 7}]))
    if draw(chance(0.3)):
        o["errorbar_opts"] = draw(st.sampled_from([
            {"ms": 3}, {"elinewidth": 1}, {"alpha": 0.5, "ms": 4}]))
    if draw(chance(0.6)):
        o["sed"] = draw(st.booleans())
    if draw(chance(0.4)):
        o["e_unit"] = draw(st.sampled_from(["eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]))
    if draw(chance(0.2)):
        o["xlabel"] = "my energies"
    if draw(chance(0.2)):
        o["ylabel"] = "my fluxes"
    return o


def kwargs(o):
    kw = dict(o)
    for k in ("ulim_opts", "errorbar_opts"):
        if k in kw:
            kw[k] = dict(kw[k])
    if "e_unit" in kw:
        kw["e_unit"] = u.Unit(kw["e_unit"])
    return kw


def fix_ul(ds):
    for r in ds["rows"]:
        if r["ul"] and not r["f"] > 0:
            r["f"] = r["hi"] if r["hi"] > 0 else abs(r["f"]) or 1e-12
    return ds


@st.composite
def data_cases(draw):
    ds = fix_ul(draw(tables.datasets(emin=1e5, max_size=7, ulerr=True)))
    ds2 = fix_ul(draw(tables.datasets(kinds=[ds["kind"]], emin=1e5, max_size=3, ulerr=True)))
    return {"tables": draw(splits(ds)), "form2": [ds2, draw(tables.forms(ds2))],
            "input": draw(st.sampled_from(["table", "table", "validated", "sampler-like",
                                           "dict"])),
            "opts": draw(options()), "opts2": draw(options()),
            "again": draw(chance(0.5)), "other": draw(chance(0.3))}


def build_tables(ts):
    out = [tables.table(d, f) for d, f in ts]
    return out if len(out) > 1 else out[0]


def expected(ts):
    rows = []
    for i, (d, _) in enumerate(ts):
        rows += tables.expected(d, group=i if len(ts) > 1 else 0)
    return sorted(rows, key=lambda r: r["e"])


class Holder:
    pass


def shown_rows(rows, kind, sed, e_unit):
    """Rows as displayed: values in the target units."""
    out = []
    power = "power" in kind
    fx = (u.Unit("erg/s") if power else u.Unit("erg/(s cm2)"))
    for r in rows:
        e = r["e"] * u.eV
        d = {"ul": r["ul"], "group": r["group"], "x": e.to(e_unit).value,
             "el": (r["el"] * u.eV).to(e_unit).value, "eh": (r["eh"] * u.eV).to(e_unit).value,
             "cl": r["cl"], "e": r["e"], "sf": r["f"]}
        for c in ("f", "lo", "hi"):
            d[c], d["unit"] = figs.displayed(e, r[c] * fx, sed)
        out.append(d)
    return out


def near(a, b, scale):
    return abs(a - b) <= 1e-6 * abs(scale)


def check_points(ax, rows, height, what):
    """The error bars drawn are those of the rows."""
    import matplotlib.colors as mcol

    conts = figs.errorbars(ax)
    marked, arrows, bars = [], [], []
    for d in conts:
        has_marker = d["line"] is not None and d["line"].get_marker() not in ("None", "", None) \
            and np.size(d["x"])
        n = len(d["x"])
        for i in range(n):
            p = {"x": d["x"][i], "y": d["y"][i],
                 "xs": None if d["xerr"] is None else d["xerr"][i][:, 0],
                 "ys": None if d["yerr"] is None else d["yerr"][i][:, 1],
                 "color": mcol.to_hex(d["line"].get_color())}
            if has_marker:
                marked.append(p)
            elif p["ys"] is not None:
                p["caps"] = d["caps"]
                arrows.append(p)
            else:
                bars.append(p)
    meas = [r for r in rows if not r["ul"]]
    uls = [r for r in rows if r["ul"]]
    if len(marked) != len(meas):
        fail("%s: %d points drawn, %d measurements", what, len(marked), len(meas))
    if len(arrows) != len(uls):
        fail("%s: %d arrows drawn, %d upper limits", what, len(arrows), len(uls))
    colors = {}
    for r in meas:
        sc = abs(r["f"]) + r["lo"] + r["hi"]
        cand = [p for p in marked if near(p["x"], r["x"], r["x"]) and near(p["y"], r["f"], sc)]
        if not cand:
            fail("%s: no point at (%r, %r): %r", what, r["x"], r["f"],
                 [(p["x"], p["y"]) for p in marked])
        good = [p for p in cand if ok_errors(p, r)]
        if not good:
            fail("%s: error bars at (%r, %r) are x %r y %r, expected x -%r +%r, y -%r +%r", what,
                 r["x"], r["f"], [None if p["xs"] is None else p["xs"].tolist() for p in cand],
                 [None if p["ys"] is None else p["ys"].tolist() for p in cand],
                 r["el"], r["eh"], r["lo"], r["hi"])
        marked.remove(good[0])
        colors.setdefault(r["group"], set()).add(good[0]["color"])
    for r in uls:
        cand = [p for p in arrows if near(p["x"], r["x"], r["x"]) and near(p["y"], r["f"], r["f"])
                and near(p["ys"].max(), r["f"], r["f"])
                and near(p["ys"].min(), r["f"] * (1 - height), r["f"])]
        if not cand:
            fail("%s: no arrow from %r down by %r of it at %r: %r", what, r["f"], height, r["x"],
                 [(p["x"], p["y"], p["ys"].tolist()) for p in arrows])
        arrows.remove(cand[0])
        colors.setdefault(r["group"], set()).add(cand[0]["color"])
        xb = [p for p in bars if near(p["x"], r["x"], r["x"]) and near(p["y"], r["f"], r["f"])
              and p["xs"] is not None and near(p["xs"].min(), r["x"] - r["el"], r["x"])
              and near(p["xs"].max(), r["x"] + r["eh"], r["x"])]
        if not xb and cand[0]["xs"] is None:
            fail("%s: no energy bin of the upper limit at (%r, %r)", what, r["x"], r["f"])
        if not any(np.size(c.get_ydata()) for c in cand[0]["caps"]):
            fail("%s: upper limit at %r without arrow head", what, r["x"])
    for g, c in colors.items():
        if len(c) != 1:
            fail("%s: colors %r in group %r", what, sorted(c), g)
    if len(set(c for s in colors.values() for c in s)) != len(colors):
        fail("%s: colors of the groups: %r", what, colors)


def ok_errors(p, r):
    if p["xs"] is None or p["ys"] is None:
        return False
    sc = abs(r["f"]) + r["lo"] + r["hi"]
    if not (near(p["xs"].min(), r["x"] - r["el"], r["x"])
            and near(p["xs"].max(), r["x"] + r["eh"], r["x"])):
        return False
    if not near(p["ys"].max(), r["f"] + r["hi"], sc):
        return False
    low = r["f"] - r["lo"]
    if low > 1e-6 * sc:
        return near(p["ys"].min(), low, sc)
    # compatible with zero: cut so that it can be shown
    if r["f"] > 0 and not 0 < p["ys"].min() <= 0.01 * r["f"]:
        return low > 0
    return low - 1e-6 * sc <= p["ys"].min() <= r["f"] + 1e-6 * sc


def check_axes(ax, xax, rows, opts, sed, e_unit, what, xunit=True):
    if ax.get_xscale() != "log" or ax.get_yscale() != "log":
        fail("%s: axes are %s, %s", what, ax.get_xscale(), ax.get_yscale())
    lo, hi = ax.get_xlim()
    for r in rows:
        if not lo * (1 - 1e-9) <= r["x"] <= hi * (1 + 1e-9):
            fail("%s: point at %r outside of the axis %r", what, r["x"], (lo, hi))
    if "xlabel" in opts:
        if xax.get_xlabel() != opts["xlabel"]:
            fail("%s: label %r", what, xax.get_xlabel())
    elif xunit and e_unit.to_string("latex_inline") not in xax.get_xlabel():
        fail("%s: energies in %s, label %r", what, e_unit, xax.get_xlabel())
    if "ylabel" in opts:
        if ax.get_ylabel() != opts["ylabel"]:
            fail("%s: label %r", what, ax.get_ylabel())
    elif rows[0]["unit"].to_string("latex_inline") not in ax.get_ylabel() or \
            ("E^2" in ax.get_ylabel()) != bool(sed):
        fail("%s: values in %s, SED %s, label %r", what, rows[0]["unit"], sed, ax.get_ylabel())


def artists(f):
    """All that is drawn, as plain data."""
    out = []
    for ax in f.axes:
        out.append([[figs.xy(ln)[0].tolist(), figs.xy(ln)[1].tolist()] for ln in ax.lines]
                   + [[np.concatenate([p.vertices for p in c.get_paths()]).tolist()
                       if c.get_paths() else []] for c in ax.collections]
                   + [ax.get_xlabel(), ax.get_ylabel(), list(ax.get_xlim()),
                      list(ax.get_ylim()), ax.get_title()])
    return out


def snap(t):
    if isinstance(t, list):
        return [snap(x) for x in t]
    if isinstance(t, dict):
        return {k: (str(v.unit) if isinstance(v, u.Quantity) else "", repr(np.asarray(v).tolist()))
                for k, v in t.items()}
    if isinstance(t, Holder):
        return tables.snapshot(t.data)
    return tables.snapshot(t)


def check_data(case):
    ts = case["tables"]
    kind = ts[0][0]["kind"]
    t = build_tables(ts)
    if case["input"] != "table":
        v = validate_data_table(t)
        if case["input"] == "dict":
            t = {c: v[c] for c in v.colnames}
        elif case["input"] == "sampler-like":
            t = Holder()
            t.data = v
        else:
            t = v
    rows = expected(ts)
    before = snap(t)
    opts = case["opts"]
    kw = kwargs(opts)
    kw0 = repr(kw)
    sed = opts.get("sed", True)
    labels = []
    try:
        import matplotlib.pyplot as plt

        f = naima.plot_data(t, **kw)
        if case["other"]:
            plt.figure()
        if case["input"] == "table" and len(ts) > 1:
            src = t[0]  # units of the first table
        else:
            src = t.data if isinstance(t, Holder) else t
        if snap(t) != before or repr(kw) != kw0:
            fail("arguments modified: %r, before %r", snap(t), before)
        ax = f.axes[0]
        if len(f.axes) != 1:
            fail("%d axes", len(f.axes))
        e_unit = kw.get("e_unit", src["energy"].unit)
        sh = shown_rows(rows, kind, sed, e_unit)
        height = opts.get("ulim_opts", {}).get("height_fraction", 0.25)
        check_points(ax, sh, height, "plot of data")
        check_axes(ax, ax, sh, opts, sed, e_unit, "plot of data")
        ylim = ax.get_ylim()
        for r in sh:
            if r["f"] > 0 and not ylim[0] <= r["f"] <= ylim[1]:
                fail("point at (%r, %r) outside of the axis %r", r["x"], r["f"], ylim)
        ms = opts.get("errorbar_opts", {}).get("ms")
        if ms is not None:
            for d in figs.errorbars(ax):
                if d["line"].get_marker() not in ("None", "", None) and \
                        d["line"].get_markersize() != ms:
                    fail("marker size %r, requested %r", d["line"].get_markersize(), ms)
        a = artists(f)
        f2 = naima.plot_data(t, **kw)
        if f2 is f or artists(f2) != a or artists(f) != a:
            fail("plotting again gives another figure")
        if case["again"]:
            # more data on the same figure, in its units
            labels.append("again")
            ds2, form2 = case["form2"]
            t2 = tables.table(ds2, form2)
            o2 = {k: x for k, x in case["opts2"].items() if k not in ("sed", "xlabel")}
            n0 = len([c for c in ax.containers])
            f3 = naima.plot_data(t2, figure=f, sed=sed, **kwargs(o2))
            if f3 is not f or len(f.axes) != 1:
                fail("figure given not used")
            if "xlabel" not in opts or "e_unit" in o2:
                r2 = shown_rows(tables.expected(ds2), kind, sed, u.Unit(o2.get("e_unit", e_unit)))

                class Sel:
                    containers = ax.containers[n0:]
                check_points(Sel, r2, o2.get("ulim_opts", {}).get("height_fraction", 0.25),
                             "data on the same figure")
    finally:
        figs.close_all()
    if len(ts) > 1:
        labels.append("tables")
    if any(r["ul"] for r in rows):
        labels.append("upper limits")
    if any(r["lo"] >= r["f"] for r in rows):
        labels.append("zero")
    labels.append(case["input"])
    return labels if len(labels) > 1 else ["trivial"]


# ----------------------------------------------------------------- fits

@st.composite
def fit_cases(draw):
    c = draw(chains.chains(blobs=["samepair", "fluxpair", "fluxpair", "gridpair", "gridpair", "pair"], max_steps=4,
                           max_dim=3, data={"min_size": 2}, max_blobs=2))
    kinds = ["flux"] + [b["kind"] for b in c["blobs"] or []]
    o = draw(options())
    if draw(chance(0.2)):
        o["label"] = "my model"
    return {"run": c, "tables": draw(splits(c["ds"])), "opts": o,
            "modelidx": draw(st.integers(0, len(kinds) - 1)),
            "mode": draw(st.sampled_from(["samples", "confs", "confs", "ml"])),
            "plotdata": draw(st.sampled_from([None, True, True, False])),
            "plotresiduals": draw(st.sampled_from([None, None, True, False])),
            "nosamples": draw(st.booleans()),
            "other": draw(chance(0.3)), "figure": draw(chance(0.3)),
            "erange": draw(st.one_of(st.none(), st.none(), st.none(), st.fixed_dictionaries({
                "unit": st.sampled_from(["eV", "TeV", "erg"]),
                "npoints": st.sampled_from([None, "data", "data", "data", 30, 200])}))),
            "before": draw(st.lists(st.sampled_from(["data", "fit", "chain", "blob", "corner"]),
                                    max_size=2))}


def ml_values(model, p, data, idx, rows, sed, kind):
    """SED values (erg) of the model output at the energies of the rows, as ranges between
    those at the neighbouring energies where it has other energies."""
    out = model(p, data)
    out = [out] if isinstance(out, u.Quantity) else list(out)
    x = out[idx]
    e, f = x if isinstance(x, tuple) else (data["energy"], x)
    y = mc.to_sed(e.to("eV").value, f)
    ev = e.to("eV").value
    if kind == "gridpair":
        out = []
        for r in rows:
            i = int(np.clip(np.searchsorted(ev, r["e"]), 1, len(ev) - 1))
            v = [y[j] * (1 if sed else (r["e"] / ev[j]) ** 2) for j in (i - 1, i)]
            out.append((min(v), max(v)))
        return out
    return [y[int(np.argmin(np.abs(ev / r["e"] - 1)))] for r in rows]


def some_plot(name, s, kinds):
    import matplotlib.pyplot as plt

    if name == "data":
        naima.plot_data(s, sed=False, e_unit=u.keV)
    elif name == "fit":
        naima.plot_fit(s, confs=[2, 1], sed=True, e_unit=u.erg)
    elif name == "chain":
        naima.plot_chain(s, 0)
    elif name == "blob":
        naima.plot_blob(s, 0, label="b")
    elif np.prod(s.get_chain().shape[:2]) > s.get_chain().shape[2]:
        naima.plot_corner(s)
    return plt.rcParams.copy()


def check_fit(case):
    import matplotlib.pyplot as plt

    c = case["run"]
    ts = case["tables"]
    kind = ts[0][0]["kind"]
    s = chains.build(c, table=build_tables(ts))
    kinds = ["flux"] + [b["kind"] for b in c["blobs"] or []]
    idx = case["modelidx"]
    chain, lnp = chains.arrays(c)
    rows = expected(ts)
    opts = case["opts"]
    kw = kwargs(opts)
    sed = opts.get("sed", True)
    kw.update(modelidx=idx, threads=1)
    if case["mode"] == "confs":
        kw["confs"] = [1.0, 3.0]
        if case["nosamples"]:
            kw["n_samples"] = None
    else:
        kw["n_samples"] = 3 if case["mode"] == "samples" else None
    comparable = kinds[idx] != "pair"
    for k in ("plotdata", "plotresiduals"):
        if case[k] is not None and (comparable or not case[k]):
            kw[k] = case[k]
    same_size = kinds[idx] in ("flux", "samepair", "gridpair") or (
        kinds[idx] == "pair" and (c["blobs"][idx - 1]["n"] == len(rows)))
    plotdata = kw.get("plotdata", comparable and same_size)
    residuals = plotdata and (kw["plotresiduals"] if "plotresiduals" in kw
                              else case["mode"] != "ml")
    e_unit = kw.get("e_unit", s.data["energy"].unit)
    if case.get("erange"):  # of the curves; residuals are those of the stored best model
        r = case["erange"]
        ee = [x["e"] for x in rows]
        kw["e_range"] = (np.array([0.7 * min(ee), 1.5 * max(ee)]) * u.eV).to(r["unit"])
        if r["npoints"]:
            kw["e_npoints"] = len(rows) if r["npoints"] == "data" else r["npoints"]
    before = chains.snapshot(s)
    rc = plt.rcParams.copy()
    kw0 = repr(kw)
    try:
        for name in case["before"]:
            if some_plot(name, s, kinds) != rc:
                fail("plot_%s changed the settings of matplotlib", name)
            if chains.snapshot(s) != before:
                fail("plot_%s modified the sampler", name)
        fig = plt.figure() if case["figure"] else None
        if case["other"]:
            plt.figure()
        f = naima.plot_fit(s, figure=fig, **kw)
        if fig is not None and f is not fig:
            fail("figure given not used")
        if chains.snapshot(s) != before or repr(kw) != kw0:
            fail("plot_fit modified its arguments")
        if plt.rcParams.copy() != rc:
            fail("plot_fit changed the settings of matplotlib")
        if len(f.axes) != (2 if residuals else 1):
            fail("%d panels, expected %d (data %s, residuals %s)", len(f.axes),
                 2 if residuals else 1, plotdata, residuals)
        ax = f.axes[0]
        sh = shown_rows(rows, kind, sed, e_unit)
        if plotdata:
            check_points(ax, sh, opts.get("ulim_opts", {}).get("height_fraction", 0.25),
                         "data of the fit")
            only_data = case["mode"] == "ml" and not residuals
            o = dict(opts)
            if "label" in o and "ylabel" not in o and only_data:
                pass
            check_axes(ax, f.axes[-1], sh, o, sed, e_unit, "fit")
        elif figs.errorbars(ax):
            fail("data points drawn with plotdata %r", case["plotdata"])
        if "label" in opts and ax.get_title() != opts["label"] and not (
                plotdata and case["mode"] == "ml" and not residuals):
            fail("title %r", ax.get_title())
        if residuals:
            ok = False
            best = [chain[tuple(i)] for i in np.argwhere(lnp == np.max(lnp))]
            for p in best:
                m = ml_values(s.modelfn, p, s.data, idx, rows, sed, kinds[idx])
                try:
                    check_residuals(f.axes[1], rows, sh, m)
                    ok = True
                except AssertionError as e:
                    err = e
            if not ok:
                raise err
    finally:
        figs.close_all()
    labels = [case["mode"], kinds[idx]]
    if residuals:
        labels.append("residuals")
    if len(ts) > 1:
        labels.append("tables")
    if any(r["ul"] for r in rows):
        labels.append("upper limits")
    return labels if residuals or len(ts) > 1 else labels + ["trivial"]


def check_residuals(ax, rows, sh, m):
    pts = []
    for d in figs.errorbars(ax):
        for i in range(len(d["x"])):
            pts.append((d["x"][i], d["y"][i], d["yerr"][i][:, 1], d["xerr"][i][:, 0]))
    want = []
    for r, q, mm in zip(sh, rows, m):
        if not r["ul"]:
            v = sorted((q["f"] - k) / ((q["lo"] + q["hi"]) / 2)
                       for k in (mm if isinstance(mm, tuple) else (mm,)))
            want.append((r["x"], v[0], v[-1], r))
    if len(pts) != len(want):
        fail("%d residuals, %d measurements", len(pts), len(want))
    for x, y, ymax, r in want:
        sc = max(abs(y), abs(ymax)) + (abs(r["f"]) / ((r["lo"] + r["hi"]) / 2)) + 1
        cand = [p for p in pts if near(p[0], x, x) and (
            near(p[1], y, sc) or near(p[1], ymax, sc) or y <= p[1] <= ymax)]
        if not cand:
            fail("no residual (%r, %r to %r): %r", x, y, ymax, [p[:2] for p in pts])
        p = cand[0]
        if not (near(p[2].min(), p[1] - 1, sc) and near(p[2].max(), p[1] + 1, sc)):
            fail("error of the residual at %r: %r", x, p[2].tolist())
        if not (near(p[3].min(), x - r["el"], x) and near(p[3].max(), x + r["eh"], x)):
            fail("energy bin of the residual at %r: %r", x, p[3].tolist())
        pts.remove(p)


SUBS = [Sub("data", data_cases(), check_data, quick=400, thorough=5000),
        Sub("fit", fit_cases(), check_fit, quick=400, thorough=4000)]
