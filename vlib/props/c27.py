"""C27: values with uncertainties in the text of plots."""
import re

import matplotlib

matplotlib.use("Agg")
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import chains, figs, tables
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import fail

RULE = (
    "distributions of samples of any location, width and shape, drawn by Hypothesis, shown by "
    "plot_chain and plot_blob; non-trivial: not of order unity, skewed, or with null quantiles"
)
ASSUMPTIONS = ["samples of a parameter are not all equal (no density estimate exists)"]


@st.composite
def values(draw, n, log=False):
    """n samples."""
    shape = draw(st.sampled_from(["normal", "normal", "skewed", "left", "ties", "tail", "integers",
                                  "two"]))
    if log:
        m, w = draw(linf(-20, 20, 6)), draw(logf(1e-3, 2, 3))
    else:
        m = draw(st.one_of(st.just(0.0), logf(1e-4, 1e4, 8), logf(1e-35, 1e35, 8),
                           st.sampled_from([1.0, 10.0, 99.96, 100.0, 999.6, 1e-2, 9.996e-3, 1e3])))
        w = (m or 1.0) * draw(logf(1e-7, 10.0, 4)) if draw(chance(0.85)) or m == 0 \
            else draw(logf(1e-10, 1e10, 3))
        w = max(w, 1e-7 * abs(m))
        if draw(chance(0.3)):
            m = -m
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    z = rng.standard_normal(n)
    if shape == "skewed":
        z = np.exp(z)
    elif shape == "left":
        z = -np.exp(z)
    elif shape == "ties":
        z = np.where(rng.uniform(size=n) < 0.55, 0, np.abs(z))
    elif shape == "tail":
        z = np.where(rng.uniform(size=n) < 0.8, 0, z)
    elif shape == "integers":
        z = np.round(2 * z)
    elif shape == "two":
        z = np.where(rng.uniform(size=n) < 0.5, -1, 1) + 0.01 * z
    z[0], z[-1] = 0.5, -1.0
    return [float(v) for v in m + w * z]


@st.composite
def cases(draw):
    c = draw(chains.chains(blobs=["param"], max_dim=2, min_steps=2, max_steps=8, max_blobs=0,
                           data={"min_size": 1, "max_size": 2}, ties=False))
    c["nsteps"] = max(c["nsteps"], 2)
    c["blobs"] = [{"kind": draw(st.sampled_from(["param", "param", "paramfloat"])), "n": 1,
                   "unit": draw(st.sampled_from(["erg", "1/(eV cm3)", "TeV", "kpc", ""]))}]
    n = c["nsteps"] * c["nwalkers"]
    c["values"] = [draw(values(n, log=lab.split("(")[0] in ("log", "log10") and "(" in lab))
                   for lab in c["labels"][:c["spec"]["ndim"]]]
    return {"run": c, "last_step": draw(st.sampled_from([None, False, True])),
            "what": draw(st.sampled_from(["chain", "chain", "blob"])),
            "label": draw(st.sampled_from([None, "$W_e$", "my blob"]))}


FLOAT = r"(-?\d+(?:\.\d*)?)(?:\s*\\times\s*10\^\{(-?\d+)\})?"


def parse(tex):
    """(value, decimals, [errors], [decimals], exponent) of a LaTeX value."""
    t = tex.strip()
    m = re.fullmatch(r"\((.*)\)\s*\\times\s*10\^\{(-?\d+)\}", t)
    k = 0
    if m:
        t, k = m.group(1).strip(), int(m.group(2))
    m = re.fullmatch(FLOAT + r"\s*\\pm\s*" + FLOAT, t)
    if m:
        v, ve, e, ee = m.groups()
        return v, int(ve or 0), [e], int(ee or 0), k
    m = re.fullmatch(r"(-?\d+(?:\.\d*)?)\^\{\+(-?\d+(?:\.\d*)?)\}_\{-(-?\d+(?:\.\d*)?)\}", t)
    if m:
        v, hi, lo = m.groups()
        return v, 0, [hi, lo], 0, k
    fail("cannot read %r as a value with uncertainty", tex)


def dec(s):
    return len(s.split(".")[1]) if "." in s else 0


def lead(x):
    """Decimal place of the first digit."""
    return 10.0 ** np.floor(np.log10(x))


def check_value(tex, dist, what):
    lo, med, hi = (float(x) for x in np.percentile(dist, [16, 50, 84]))
    elo, ehi = med - lo, hi - med
    v, ve, errs, ee, k = parse(tex)
    val = float(v) * 10.0 ** (k + ve)
    info = "%s: %r for %r +%r -%r" % (what, tex, med, ehi, elo)
    rnd = 1e-12 * (abs(med) + elo + ehi) + 1e-9 * (elo + ehi)
    if elo == 0 and ehi == 0:
        if len(errs) != 1 or float(errs[0]) != 0:
            fail("%s: null uncertainties expected", info)
        if abs(val - med) > 5.1e-3 * abs(med):
            fail("%s: wrong value", info)
        return
    if len(errs) == 1:
        mean = (elo + ehi) / 2
        if abs(ehi - elo) > 0.25 * mean * (1 + 1e-6) + 1e-15 * abs(med):
            fail("%s: one uncertainty for two that differ", info)
        want = [mean]
    else:
        want = [ehi, elo]
    ulp = [10.0 ** (k + ve - dec(v))]
    for e, w in zip(errs, want):
        x = float(e) * 10.0 ** (k + ee)
        p = 10.0 ** (k + ee - dec(e))
        if w > 1e-12 * abs(med):
            if not x > 0:
                fail("%s: uncertainty %r shown as %r", info, w, e)
            # at least the first digit, all of the decimals shown
            tol = 0.5 * (p if dec(e) else max(p, lead(w)))
            if abs(x - w) > tol * (1 + 1e-6) + rnd or abs(x - w) > 0.5 * lead(w) * (1 + 1e-6) + rnd:
                fail("%s: uncertainty %r shown as %r", info, w, x)
        elif x > 1e-9 * abs(med):
            fail("%s: null uncertainty shown as %r", info, x)
    # the value to the last decimal shown, at least to the first digit of the uncertainty
    nz = [w for w in want if w > 1e-12 * abs(med)]
    first = lead(min(nz)) if nz else None
    tol = 0.5 * (ulp[0] if dec(v) or first is None else max(ulp[0], first))
    if abs(val - med) > tol * (1 + 1e-6) + rnd:
        fail("%s: value shown as %r", info, val)
    if first is not None and abs(val - med) > 0.5 * first * (1 + 1e-6) + rnd:
        fail("%s: value shown as %r, uncertain by %r", info, val, min(nz))


def check_float(tex, want, what):
    m = re.fullmatch(FLOAT, tex.strip())
    if not m:
        fail("%s: cannot read %r", what, tex)
    x = float(m.group(1)) * 10.0 ** int(m.group(2) or 0)
    if abs(x - want) > 5.1e-3 * abs(want) + 1e-300:
        fail("%s: %r shown as %r", what, want, tex)


def find(text, pattern, what):
    m = re.search(pattern, text, re.M)
    if not m:
        fail("%s not found in %r", what, text)
    return m


def check(case):
    c = case["run"]
    s = chains.build(c)
    chain, lnp = chains.arrays(c)
    last = bool(case["last_step"])
    kw = {} if case["last_step"] is None else {"last_step": last}
    try:
        if case["what"] == "chain":
            for i, label in enumerate(c["labels"]):
                dist = chain[-1, :, i] if last else chain[:, :, i].ravel()
                if np.ptp(dist) == 0:
                    return False
                f = naima.plot_chain(s, i, **kw)
                text = "\n".join(figs.texts(f))
                lab = re.escape(label)
                m = find(text, r"^\s*%s = \$(.*)\$\s*$" % lab, "value of %r" % label)
                check_value(m.group(1), dist, label)
                m = find(text, r"median: \$(.*)\$, std: \$(.*)\$", "median")
                check_float(m.group(1), np.median(dist), "median of %r" % label)
                check_float(m.group(2), np.std(dist), "standard deviation of %r" % label)
                m = find(text, r"Walkers:\s*(\d+)", "number of walkers")
                if int(m.group(1)) != c["nwalkers"]:
                    fail("%s walkers, expected %d", m.group(1), c["nwalkers"])
                m = find(text, r"Steps in chain:\s*(\d+)", "number of steps")
                if int(m.group(1)) != c["nsteps"]:
                    fail("%s steps, expected %d", m.group(1), c["nsteps"])
                m = find(text, r"acceptance fraction:\s*([\d.]+)", "acceptance")
                if abs(float(m.group(1)) - np.mean(s.acceptance_fraction)) > 5.1e-4:
                    fail("acceptance fraction %s, expected %r", m.group(1),
                         np.mean(s.acceptance_fraction))
                kind = label.split("(")[0]
                if "(" in label and kind in ("log", "log10"):
                    inner = label[len(kind) + 1:-1]
                    m = find(text, r"^\s*%s = \$(.*)\$\s*$" % re.escape(inner),
                             "value of %r" % inner)
                    check_value(m.group(1), np.exp(dist) if kind == "log" else 10.0 ** dist, inner)
                elif len(re.findall(r" = \$", text)) != 1:
                    fail("more than one value for %r: %r", label, text)
                # the marks at the quantiles
                q = np.percentile(dist, [16, 50, 84])
                check_marks(f, q, np.ptp(dist), label)
        else:
            b = c["blobs"][0]
            dist = chain[-1, :, 0] if last else chain[:, :, 0].ravel()
            if np.ptp(dist) == 0:
                return False
            if case["label"]:
                kw["label"] = case["label"]
            f = naima.plot_blob(s, 1, **kw)
            text = "\n".join(figs.texts(f))
            label = case["label"] or "Model output 1"
            unit = "" if b["kind"] == "paramfloat" else str(u.Unit(b["unit"]))
            m = find(text, r"^\s*%s = \$(.*)\$\s*(\S.*)?$" % re.escape(label), "value of the blob")
            if (m.group(2) or "").strip() != unit:
                fail("unit of the blob %r, expected %r", m.group(2), unit)
            check_value(m.group(1), dist, "blob")
            m = find(text, r"median: \$(.*)\$ (.*), std: \$([^$]*)\$", "median")
            check_float(m.group(1), np.median(dist), "median of the blob")
            check_float(m.group(3), np.std(dist), "standard deviation of the blob")
            check_marks(f, np.percentile(dist, [16, 50, 84]), np.ptp(dist), "blob")
            if unit and "[%s]" % unit not in f.axes[0].get_xlabel():
                fail("unit %r, label %r", unit, f.axes[0].get_xlabel())
    finally:
        figs.close_all()
    return [case["what"]] + (["last step"] if last else [])


def check_marks(f, q, width, what):
    """A line at the median and a span between the quantiles."""
    tol = 1e-6 * width + 1e-9 * abs(q[1])
    lines, spans = [], []
    for ax in f.axes:
        for ln in ax.lines:
            x = figs.xy(ln)[0]
            if len(x) == 2 and x[0] == x[1]:
                lines.append(float(x[0]))
        for p in ax.patches:
            e = p.get_extents() if False else p.get_path().get_extents(p.get_patch_transform())
            spans.append((float(e.x0), float(e.x1)))
    if not any(abs(x - q[1]) <= tol for x in lines):
        fail("%s: no line at the median %r: %r", what, q[1], lines)
    if not any(abs(a - q[0]) <= tol and abs(b - q[2]) <= tol for a, b in spans):
        fail("%s: no span between %r and %r: %r", what, q[0], q[2], spans[-3:])


SUBS = [Sub("text", cases(), check, quick=480, thorough=6000)]
