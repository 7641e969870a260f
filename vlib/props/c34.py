"""C34: the set of diagnostic plots."""
import os
import re
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import numpy as np
from hypothesis import strategies as st

import naima

from .. import chains, figs, mc
from ..gen import chance
from ..harness import Sub
from ..util import fail
from .c25 import curve_of
from .c27 import check_value, find

RULE = (
    "samplers with arbitrary chains, labels and blobs, selections of models, labels and forms, "
    "drawn by Hypothesis; the figures are read when they are saved and the files listed "
    "afterwards; non-trivial: at least one model besides the flux, or a selection of models"
)
ASSUMPTIONS = [
    "the samples of each parameter vary",
    "models that cannot be shown (placeholders of missing blobs, spectra of other physical "
    "types) are left out with a warning"]
LABELS = ["norm", "index", "log10(norm)", "log(We)", "cutoff", "log10(cutoff)", "B [uG]",
          "n [1/cm3]", "a/b", "alpha", "log10(n [1/cm3])", "log10(We (erg))", "log(Wp (erg))"]


@st.composite
def labels(draw):
    return [LABELS[i] for i in draw(st.permutations(list(range(len(LABELS)))))]


@st.composite
def cases(draw):
    c = draw(chains.chains(max_dim=3, min_steps=2, max_steps=8, max_blobs=2,
                           blobs=["scalar", "float", "flux", "samepair", "fluxpair"],
                           labels=labels(), ties=False, data={"min_size": 2}))
    n = 1 + len(c["blobs"] or [])
    idx = None
    if draw(chance(0.5)):
        idx = draw(st.permutations(list(range(n))))[:draw(st.integers(1, n))]
    m = len(idx) if idx is not None else n
    blob_labels = draw(st.sampled_from([None, "list", "short", "string"]))
    if blob_labels == "string" and (m != 1 or idx is None):
        blob_labels = "list"
    return {"run": c, "modelidxs": idx, "pdf": draw(chance(0.3)),
            "sed": draw(st.sampled_from([None, True, False, "list"])),
            "seds": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
            "blob_labels": blob_labels, "last_step": draw(st.sampled_from([None, False, True])),
            "rc": draw(st.sampled_from([{}, {"interactive": True}, {"pdf.fonttype": 42},
                                        {"interactive": True, "lines.linewidth": 2.5}])),
            "dpi": draw(st.sampled_from([None, 15, 20, 30])) if draw(chance(0.1)) else 15}


def summary(f):
    """What a figure shows when it is saved."""
    return {"texts": figs.texts(f), "labels": [ax.get_xlabel() for ax in f.axes],
            "ylabels": [ax.get_ylabel() for ax in f.axes],
            "titles": [ax.get_title() for ax in f.axes],
            "curves": [[figs.xy(ln) for ln in figs.curves(ax)] for ax in f.axes],
            "lines": [[figs.xy(ln) for ln in ax.lines] for ax in f.axes]}


def check(case):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    c = case["run"]
    s = chains.build(c)
    chain, lnp = chains.arrays(c)
    last = bool(case["last_step"])
    ndim = chain.shape[2]
    if any(np.ptp(chain[-1, :, i]) == 0 for i in range(ndim)):
        return False
    before = chains.snapshot(s)
    kw = {k: case[k] for k in ("modelidxs", "last_step", "dpi") if case[k] is not None}
    if "modelidxs" in kw:
        kw["modelidxs"] = list(kw["modelidxs"])
    if case["pdf"]:
        kw["pdf"] = True
    nm = 2 if c["blobs"] is None or not c["blobs"] else 1 + len(c["blobs"])
    idx = case["modelidxs"] if case["modelidxs"] is not None else list(range(nm))
    seds = [True] * nm
    if case["sed"] == "list":
        seds = (case["seds"] * 2)[:len(idx)]
        kw["sed"] = list(seds)
    elif case["sed"] is not None:
        kw["sed"] = case["sed"]
        seds = [case["sed"]] * nm
    titles = ["Model output %d" % i for i in idx]
    if case["blob_labels"] == "string":
        titles = ["only"]
        kw["blob_labels"] = "only"
    elif case["blob_labels"]:
        given = ["out %s" % "abc"[k] for k in range(len(idx))]
        given = given[:-1] if case["blob_labels"] == "short" else given
        titles = given + titles[len(given):]
        kw["blob_labels"] = list(given)
    tmp = tempfile.mkdtemp(prefix="c34")
    original = plt.rcParams.copy()
    plt.rcParams.update(case.get("rc") or {})
    rc = plt.rcParams.copy()
    saved = []
    savefig = Figure.savefig

    def record(fig, target, *a, **k):
        saved.append((target, summary(fig)))
        return savefig(fig, target, *a, **k)

    Figure.savefig = record
    try:
        with mc.quiet():
            naima.save_diagnostic_plots(os.path.join(tmp, "out"), s, **kw)
        if chains.snapshot(s) != before:
            fail("the sampler was modified")
        if plt.rcParams.copy() != rc:
            fail("settings of matplotlib changed: %r", sorted(
                k for k in rc if rc[k] != plt.rcParams[k]))
        files = sorted(os.listdir(tmp))
        if any(os.path.getsize(os.path.join(tmp, x)) < 100 for x in files):
            fail("empty files among %r", files)
        # which of the models can be shown
        model = chains.Model(c["spec"], c["blobs"])
        kinds = ["flux"] + [b["kind"] for b in c["blobs"]] if c["blobs"] else ["flux", "nothing"]
        want = [i for i in idx if kinds[i] != "nothing"]
        if case["pdf"]:
            if files != ["out_plots.pdf"]:
                fail("files %r, expected one PDF", files)
            n = pdf_pages(os.path.join(tmp, "out_plots.pdf"))
            if n != ndim + 1 + len(want):
                fail("%d pages, expected %d", n, ndim + 1 + len(want))
        else:
            chains_f = [x for x in files if x.startswith("out_chain_")]
            rest = [x for x in files if not x.startswith("out_chain_")]
            if len(chains_f) != ndim:
                fail("chain plots %r for the parameters %r", chains_f, c["labels"][:ndim])
            exp = sorted(["out_corner.png"] + ["out_model%d.png" % i for i in want])
            if rest != exp:
                fail("files %r, expected %r", rest, exp)
            for lab in c["labels"][:ndim]:
                if re.fullmatch("[a-z]+", lab) and "out_chain_%s.png" % lab not in chains_f:
                    fail("no plot for %r among %r", lab, chains_f)
        if plt.get_fignums():
            fail("figures left open: %r", plt.get_fignums())
        if len(saved) != ndim + 1 + len(want):
            fail("%d figures saved, expected %d", len(saved), ndim + 1 + len(want))
        # parameters in their order
        for i in range(ndim):
            lab = c["labels"][i]
            target, f = saved[i]
            if not case["pdf"]:
                inner = re.sub(r"^.*log(10)?\(|\)$", "", lab).replace("/", "_")
                if os.path.basename(target).startswith("out_chain_%s" % inner) is False:
                    fail("chain of %r saved as %r", lab, target)
            dist = chain[-1, :, i] if last else chain[:, :, i].ravel()
            m = find("\n".join(f["texts"]), r"^\s*%s = \$(.*)\$\s*$" % re.escape(lab),
                     "value of %r" % lab)
            check_value(m.group(1), dist, lab)
        # corner plot
        f = saved[ndim][1]
        if [x for x in f["labels"] if x] != c["labels"][:ndim]:
            fail("labels of the corner plot %r, expected %r", f["labels"], c["labels"][:ndim])
        best = [chain[tuple(i)] for i in np.argwhere(lnp == np.max(lnp))]
        for i in range(ndim):
            vert = [float(x[0]) for x, _ in f["lines"][i * ndim + i]
                    if len(x) == 2 and x[0] == x[1]]
            best = [b for b in best if any(abs(v - b[i]) <= 1e-9 * abs(v) for v in vert)]
        if not best:
            fail("corner plot without the most probable sample")
        # models in the order requested
        pos = {i: k for k, i in enumerate(idx)}
        for i, (target, f) in zip(want, saved[ndim + 1:]):
            title = titles[pos[i]]
            if not case["pdf"] and os.path.basename(target) != "out_model%d.png" % i:
                fail("model %d saved as %r", i, target)
            if kinds[i] in ("scalar", "float"):
                text = "\n".join(f["texts"])
                m = find(text, r"^\s*%s = \$(.*)\$\s*(\S.*)?$" % re.escape(title),
                         "value of model %d" % i)
                sel = chain[-1] if last else chain.reshape(-1, ndim)
                out = [model(p, s.data)[i] for p in sel]
                vals = np.array([getattr(o, "value", o) for o in out], dtype=float)
                check_value(m.group(1), vals, title)
                continue
            if not any(title in x for x in f["titles"] + f["texts"]):
                fail("no title %r for model %d: %r", title, i, f["titles"] + f["texts"])
            ok = False
            for p in [chain[tuple(j)] for j in np.argwhere(lnp == np.max(lnp))]:
                out = model(p, s.data)
                x0, y0 = curve_of(list(out) if isinstance(out, tuple) else [out], i,
                                  s.data["energy"])
                y, unit = figs.displayed(x0, y0, seds[pos[i]])
                o = np.argsort(x0.value)
                for xu in ("eV", "keV", "MeV", "GeV", "TeV", "PeV", "erg", "J"):
                    xx = x0.to(xu).value[o]
                    ok = ok or any(
                        len(a) == len(xx) and np.allclose(np.sort(a), xx, rtol=1e-6, atol=0)
                        and np.allclose(b[np.argsort(a)], y[o], rtol=1e-6, atol=0)
                        for cs in f["curves"] for a, b in cs)
            if not ok:
                fail("the most probable model %d is not shown", i)
            if not any(unit.to_string("latex_inline") in x for x in f["ylabels"]):
                fail("values in %s, labels %r", unit, f["ylabels"])
    finally:
        Figure.savefig = savefig
        plt.rcParams.update(original)
        figs.close_all()
        shutil.rmtree(tmp)
    out = ["pdf" if case["pdf"] else "png"]
    return out + ([] if c["blobs"] or case["modelidxs"] is not None else ["trivial"])


def pdf_pages(fn):
    with open(fn, "rb") as f:
        return len(re.findall(rb"/Type\s*/Page\b(?!s)", f.read()))


SUBS = [Sub("files", cases(), check, quick=96, thorough=1500)]
