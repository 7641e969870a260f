"""C30: the interactive fitter."""
import re
import warnings

import matplotlib

matplotlib.use("Agg")
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima
from naima.model_fitter import InteractiveModelFitter

from .. import figs, mc, tables
from ..gen import chance, linf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "models, data, energy ranges, labels and sequences of slider moves, updates, switches of the "
    "automatic update and fits, drawn by Hypothesis; non-trivial: at least one move or fit"
)
ASSUMPTIONS = [
    "upper limits are positive; likelihoods are not compared within 1e-7 of an upper limit",
    "initial values lie within the range of their sliders, or these are extended to them"]


class Model:
    """The model; with blobs its first output counts."""

    def __init__(self, spec, blobs):
        self.spec, self.blobs = spec, blobs

    def __call__(self, p, data):
        f = mc.model_flux(self.spec, p, data)
        return (f, [1.0] * u.m, "x") if self.blobs else f


LABELS = ["log10(norm)", "norm", "index", "alpha", "log10(cutoff)", "amplitude", "curvature", "B",
          "log(amplitude)"]


@st.composite
def cases(draw, interactive=False):
    k = draw(mc.kinds())
    hasdata = interactive or draw(chance(0.8))
    spec = draw(mc.parametric(power="power" in k[0]))
    ds = draw(tables.datasets(kinds=k, min_size=2, max_size=6, emin=1e10, emax=1e15, errmin=0.05,
                              ulerr=True))
    for r in ds["rows"]:
        f = max(mc.model_sed(spec, spec["p0"], [r["e"]])[0], 1e-6 * spec["scale"])
        s = f / (max(abs(r["f"]), *(x for x in (r["lo"], r["hi"], 0.0) if x >= 0)) or 1.0)
        for c in ("f", "lo", "hi"):
            r[c] = float("%.4g" % (r[c] * s))
        if r["ul"] and not r["f"] > 0:
            r["f"] = r["hi"] if r["hi"] > 0 else abs(r["f"]) or 1e-12
    n = spec["ndim"]
    labels = [LABELS[i] for i in draw(st.permutations(list(range(len(LABELS)))))[:n]]
    case = {"spec": spec, "ds": ds, "form": draw(tables.forms(ds)), "hasdata": hasdata,
            "blobs": draw(st.booleans()), "labels": draw(st.sampled_from(["all", "all", "some",
                                                                        "none"])),
            "names": labels, "sed": draw(st.sampled_from([None, True, False])),
            "auto": draw(st.sampled_from([None, True, False])), "e_range": None,
            "p0": draw(st.sampled_from(["list", "array"])),
            "prefit": interactive and draw(chance(0.4))}
    if draw(chance(0.4)):
        lo = draw(st.integers(9, 13))
        case["e_range"] = [10.0 ** lo, 10.0 ** (lo + draw(st.integers(1, 4)))]
        case["r_unit"] = draw(st.sampled_from(["eV", "GeV", "erg", "TeV"]))
        case["e_npoints"] = draw(st.one_of(st.none(), st.just(len(ds["rows"])),
                                             st.integers(3, 30)))
    ops = ["set", "set", "set", "update", "toggle"] + (["fit"] if hasdata else [])
    case["ops"] = []
    for _ in range(draw(st.integers(0, 7))):
        op = draw(st.sampled_from(ops))
        case["ops"].append([op] + ([draw(st.integers(0, n - 1)), draw(linf(0, 1, 3))]
                                   if op == "set" else []))
    return case


class Shown:
    """What the window shows."""

    def __init__(self, imf, case, model):
        self.imf, self.case, self.model = imf, case, model
        self.sed = True if case["sed"] is None else case["sed"]
        self.rows = tables.expected(case["ds"])

    def values(self):
        return [float(s.val) for s in self.imf.parsliders]

    def check(self, pars, what):
        imf, case = self.imf, self.case
        close([float(p) for p in imf.pars], pars, rtol=1e-12, atol=1e-300,
              what=what + ": parameters")
        x, y = figs.xy(imf.line)
        e_unit = self.e_unit()
        if case["e_range"] is not None:
            lim = (case["e_range"] * u.eV).to(e_unit).value
            n = case["e_npoints"] or 100
            close(x, np.logspace(np.log10(lim[0]), np.log10(lim[1]), n), rtol=1e-9,
                  what=what + ": energies of the model")
        elif case["hasdata"]:
            close(x, [(r["e"] * u.eV).to(e_unit).value for r in self.rows], rtol=1e-9,
                  what=what + ": energies of the model")
        f = self.model(pars, {"energy": x * e_unit})
        f = f[0] if isinstance(f, tuple) else f
        want, unit = figs.displayed(x * e_unit, f, self.sed)
        close(y, want, rtol=1e-7, atol=1e-300, what=what + ": line of the model")
        ax = imf.line.axes
        lab = ax.get_xlabel() + " | " + ax.get_ylabel()
        for un in (unit, e_unit):
            if un.to_string("latex_inline") not in lab:
                fail("%s: values in %s, labels %r", what, un, lab)
        if case["hasdata"]:
            m = mc.model_sed(case["spec"], pars, [r["e"] for r in self.rows])
            if not mc.near_ul(self.rows, m):
                want = mc.chi_terms(self.rows, m)
                t = imf.lnprobtxt.get_text()
                g = re.search(r"=\s*(%s|-inf)" % figs.NUM, t)
                shown = float(g.group(1)) if g else np.nan
                if shown != want and not abs(shown - want) <= 0.0501 + 1e-6 * abs(want):
                    fail("%s: likelihood shown as %r, expected %r", what, t, want)

    def e_unit(self):
        c = self.case
        if c["hasdata"]:
            return self.imf.data["energy"].unit
        return u.Unit(c["r_unit"]) if c["e_range"] is not None else u.TeV

    def like(self, p):
        m = mc.model_sed(self.case["spec"], p, [r["e"] for r in self.rows])
        return None if mc.near_ul(self.rows, m) else mc.chi_terms(self.rows, m)


def labels_of(case):
    n = case["spec"]["ndim"]
    return {"all": list(case["names"]), "some": list(case["names"][:n - 1]), "none": None}[
        case["labels"]]


def check(case):
    import matplotlib.pyplot as plt

    model = Model(case["spec"], case["blobs"])
    p0 = list(case["spec"]["p0"])
    p0 = np.array(p0) if case["p0"] == "array" else p0
    p0_before = list(p0)
    labels = labels_of(case)
    labels_before = None if labels is None else list(labels)
    kw = {}
    t = None
    if case["hasdata"]:
        t = kw["data"] = tables.table(case["ds"], case["form"])
        before = tables.snapshot(t)
    for k in ("sed", "labels"):
        v = case[k] if k != "labels" else labels
        if v is not None:
            kw[k] = v
    if case["auto"] is not None:
        kw["auto_update"] = case["auto"]
    if case["e_range"] is not None:
        kw["e_range"] = [(e * u.eV).to(case["r_unit"]) for e in case["e_range"]]
        if case["e_npoints"]:
            kw["e_npoints"] = case["e_npoints"]
    auto = case["auto"] is not False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            imf = InteractiveModelFitter(model, p0, **kw)
        w = Shown(imf, case, model)
        close(w.values(), p0_before, rtol=1e-12, what="sliders at the start")
        names = [s.label.get_text() for s in imf.parsliders]
        want = (labels_before or []) + ["par%d" % i for i in range(len(p0))][
            len(labels_before or []):]
        if names != want:
            fail("sliders %r, expected %r", names, want)
        cur = p0_before
        w.check(cur, "at the start")
        done = []
        for k, op in enumerate(case["ops"]):
            what = "after %s" % case["ops"][:k + 1]
            if op[0] == "set":
                s = imf.parsliders[op[1]]
                s.set_val(s.valmin + op[2] * (s.valmax - s.valmin))
                if auto:
                    cur = w.values()
            elif op[0] == "update":
                imf.update("button")
                cur = w.values()
            elif op[0] == "toggle":
                imf.update_autoupdate("Auto update")
                auto = not auto
            else:
                start = w.values()
                imf.do_fit("button")
                cur = [float(p) for p in imf.pars]
                close(w.values(), cur, rtol=1e-12, atol=1e-300, what=what + ": sliders")
                a, b = w.like(start), w.like(cur)
                if a is not None and b is not None and not b >= a - 1e-6 * abs(a) - 1e-9:
                    fail("%s: likelihood went from %r at %r to %r at %r", what, a, start, b, cur)
            w.check(cur, what)
            done.append(op[0])
        if list(p0) != p0_before or (labels is not None and labels != labels_before):
            fail("arguments modified: p0 %r, labels %r", list(p0), labels)
        if t is not None and tables.snapshot(t) != before:
            fail("table modified")
        imf.close_fig(None)
        if plt.get_fignums():
            fail("the window is not closed")
    finally:
        figs.close_all()
    return sorted(set(done)) or ["trivial"]


# --------------------------------------------------- the fitter started by get_sampler

def check_sampler(case):
    """Moves made while the window is open determine the start of the sampler."""
    import matplotlib.pyplot as plt
    import matplotlib.widgets as mw

    model = Model(case["spec"], case["blobs"])
    p0 = list(case["spec"]["p0"])
    t = tables.table(case["ds"], case["form"])
    sliders, buttons, final = [], [], []
    # whatever the way the widgets are imported
    slider0, button0, show0 = mw.Slider.__init__, mw.Button.__init__, plt.show

    def new_slider(self, *a, **k):
        slider0(self, *a, **k)
        sliders.append(self)

    def new_button(self, *a, **k):
        button0(self, *a, **k)
        buttons.append(self)

    def show(*a, **k):
        for op in case["ops"]:
            if op[0] == "set":
                s = sliders[op[1]]
                s.set_val(s.valmin + op[2] * (s.valmax - s.valmin))
            elif op[0] in ("fit", "update"):
                for b in buttons:
                    if ("fit" in b.label.get_text()) == (op[0] == "fit") and \
                            "Close" not in b.label.get_text():
                        b._observers.process("clicked", None)
        final.extend(float(s.val) for s in sliders)

    mw.Slider.__init__, mw.Button.__init__, plt.show = new_slider, new_button, show
    rc = plt.rcParams.copy()
    try:
        with mc.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s, state = naima.get_sampler(
                data_table=t, p0=list(p0), model=model, nwalkers=16, nburn=0, threads=1,
                guess=False, interactive=True, labels=labels_of(case), prefit=case["prefit"])
        if plt.rcParams.copy() != rc:
            fail("settings of matplotlib changed")
        if len(final) != len(p0):
            fail("%d sliders for %d parameters", len(final), len(p0))
        start = final
        if case["prefit"]:
            # the fit starts from where the window was left
            start = list(s.run_info["p0"])
            with mc.quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                at_start, at_final = (float(np.ravel(s.compute_log_prob(np.array([x]))[0])[0])
                                      for x in (start, final))
            if np.isfinite(at_final) and not at_start >= at_final - 1e-9 * abs(at_final) - 1e-9:
                fail("the fit went from %r (%r) to %r (%r)", final, at_final, start, at_start)
        else:
            close(s.run_info["p0"], final, rtol=1e-12, atol=1e-300,
                  what="initial parameters after %s" % case["ops"])
        if not case["ops"]:
            close(final, p0, rtol=1e-12, what="sliders at the start")
        # walkers surround them
        x = np.asarray(state.coords)
        if np.any(np.abs(x - start) > 0.1 * 7 * np.abs(start) + 1e-300):
            fail("walkers at %r, not around %r", x.tolist(), start)
    finally:
        mw.Slider.__init__, mw.Button.__init__, plt.show = slider0, button0, show0
        figs.close_all()
    return sorted(set(op[0] for op in case["ops"])) or ["trivial"]


SUBS = [Sub("window", cases(), check, quick=240, thorough=3000),
        Sub("get_sampler", cases(interactive=True), check_sampler, quick=64, thorough=600)]
