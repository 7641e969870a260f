"""C24: the results table."""
import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.table import Table
from hypothesis import strategies as st

import naima

from .. import chains
from ..gen import chance
from ..harness import Sub
from ..util import fail

RULE = (
    "samplers with arbitrary chains, log-probabilities, labels, blobs and run information, "
    "and options, drawn by Hypothesis; non-trivial: more than one sample per parameter and "
    "a conversion of a logarithm, a scalar blob, or use of the last step only"
)
ASSUMPTIONS = ["labels of logarithms end with the parenthesis of the logarithm"]
KINDS = ["scalar", "units", "array", "float", "pair", "flux", "list"]


@st.composite
def label_lists(draw):
    pool = ["norm", "log10(norm)", "log(We)", "log10(Wp)", "cutoff", "index", "B [uG]", "log10(E)",
            "x*log10(y)", "2 log(z)", "log_norm", "log10 norm", "log10(α)", "γ", "ln(q)",
            "log(a b)", "log10(norm (1/eV))", "log(We (erg))", "log10(n (1/cm3) x)", "f (x)",
            "log10(%s)" % ("long " * 20).strip(), ("norm " * 15).strip()]
    i = draw(st.permutations(list(range(len(pool)))))
    return [pool[k] for k in i[:4]]


@st.composite
def cases(draw):
    c = draw(chains.chains(blobs=KINDS, max_steps=15, data={"min_size": 1},
                           labels=label_lists()))
    return {"run": c, "format": draw(st.sampled_from([None, None, "ascii.ecsv", "ascii.ipac",
                                                      "ascii.csv"])),
            "convert_log": draw(st.sampled_from([None, True, False])),
            "last_step": draw(st.sampled_from([None, True, False])),
            "include_blobs": draw(st.sampled_from([None, True, True, False])),
            "read": draw(chance(0.3))}


def stats(x):
    lo, med, hi = (float(np.percentile(x, q)) for q in (16, 50, 84))
    return med, med - lo, hi - med


def expected_rows(case, s, meta=None):
    c = case["run"]
    chain, lnp = chains.arrays(c)
    last = bool(case["last_step"])
    blobs = s.get_blobs()
    rows, units = [], {}
    for i, label in enumerate(c["labels"]):
        x = chain[-1, :, i] if last else chain[:, :, i].ravel()
        rows.append((label,) + stats(x))
        kind = label.split("(")[0]
        if case["convert_log"] is not False and "(" in label and kind in ("log", "log10"):
            y = np.exp(x) if kind == "log" else 10.0 ** x
            rows.append((label[len(kind) + 1:-1],) + stats(y))
    if case["include_blobs"] is not False:
        sel = blobs[-1:] if last else blobs
        for j in range(len(blobs[0][0])):
            b0 = blobs[0][0][j]
            if isinstance(b0, (tuple, list)) or np.size(getattr(b0, "value", b0)) != 1:
                continue
            vals = [w[j] for step in sel for w in step]
            if isinstance(b0, u.Quantity):
                unit = b0.unit
                if any(v.unit != unit for v in vals):  # any of them, as stated
                    unit = u.Unit(str((meta or {}).get("blob%d_unit" % j, unit)))
                    if meta is not None and not any(v.unit == unit for v in vals):
                        fail("blob%d is given in %s", j, unit)
                if unit != u.dimensionless_unscaled:
                    units["blob%d" % j] = unit
                vals = [float(np.ravel(v.to(unit).value)[0]) for v in vals]
            rows.append(("blob%d" % j,) + stats(vals))
    return rows, units


def meta_of(t, fmt):
    if fmt == "ascii.ipac":
        return {k: v["value"] for k, v in t.meta["keywords"].items()}
    return t.meta


def check_table(t, rows, units, what):
    labels = [x.decode() if isinstance(x, bytes) else str(x) for x in t["label"]]
    if labels != [r[0] for r in rows]:
        fail("%s: rows %r, expected %r", what, labels, [r[0] for r in rows])
    for i, r in enumerate(rows):
        for col, w in zip(("median", "unc_lo", "unc_hi"), r[1:]):
            g = float(t[col][i])
            if not (abs(g - w) <= 1e-9 * (abs(w) + abs(r[1])) or (np.isnan(g) and np.isnan(w))):
                fail("%s: %s of %r is %r, expected %r", what, col, r[0], g, w)


def check_meta(meta, s, case, rows, units, what, info=True):
    c = case["run"]
    chain, lnp = chains.arrays(c)
    best = np.max(lnp)
    n = chain.shape[1] * (1 if case["last_step"] else chain.shape[0])
    k = chain.shape[2]
    for key, w in (("n_samples", n), ("MaxLogLikelihood", best),
                   ("BIC", k * np.log(len(c["ds"]["rows"])) - 2 * best)):
        if key not in meta:
            fail("%s: no %s", what, key)
        if not abs(float(meta[key]) - w) <= 1e-9 * abs(w) + 1e-12:
            fail("%s: %s is %r, expected %r", what, key, meta[key], w)
    ml = [float(x) for x in meta["ML_pars"]]
    idx = np.argwhere(np.all(np.isclose(chain, ml, rtol=1e-12, atol=0), axis=2))
    if len(ml) != k or not any(lnp[tuple(i)] == best for i in idx):
        fail("%s: ML_pars %r are not those of a sample with the maximum probability", what, ml)
    for name, unit in units.items():
        if u.Unit(str(meta.get(name + "_unit"))) != unit:
            fail("%s: unit of %s is %r, expected %s", what, name, meta.get(name + "_unit"), unit)
    if info:
        for key, v in s.run_info.items():
            g = meta.get(key)
            if not (np.shape(g) == np.shape(v) and np.all(np.asarray(g) == np.asarray(v))):
                fail("%s: %s is %r, run_info has %r", what, key, g, v)


def check(case):
    c = case["run"]
    s = chains.build(c)
    before = chains.snapshot(s)
    kw = {k: case[k] for k in ("format", "convert_log", "last_step", "include_blobs")
          if case[k] is not None}
    fmt = case["format"] or "ascii.ecsv"
    rows, units = expected_rows(case, s)
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        out = os.path.join(d, "fit")
        nonascii = any(ord(ch) > 127 for r in rows for ch in r[0])
        if nonascii and fmt == "ascii.ipac":
            return False  # the format does not allow for it
        t = naima.save_results_table(out, s, **kw)
        if chains.snapshot(s) != before:
            fail("the sampler was modified")
        rows, units = expected_rows(case, s, meta_of(t, fmt))
        check_table(t, rows, units, "returned table")
        ext = "ecsv" if fmt == "ascii.ecsv" else "dat"
        files = os.listdir(d)
        if files != ["fit_results." + ext]:
            fail("files written: %r, expected fit_results.%s", files, ext)
        path = os.path.join(d, files[0])
        meta = meta_of(t, fmt)
        check_meta(meta, s, case, rows, units, "returned table")
        r = Table.read(path, format=fmt)
        check_table(r, rows, units, "table read from file")
        if fmt == "ascii.ecsv":
            check_meta(r.meta, s, case, rows, units, "table read from file")
        # not overwritten unless requested
        with open(path) as f:
            text = f.read()
        try:
            naima.save_results_table(out, s, **dict(kw, last_step=not case["last_step"]))
        except OSError:
            pass
        with open(path) as f:
            if f.read() != text:
                fail("results overwritten without overwrite=True")
        t2 = naima.save_results_table(out, s, overwrite=True, **kw)
        check_table(t2, rows, units, "table saved again")
        if case["read"]:
            # the same table from the run read from file
            p = os.path.join(d, "run.h5")
            naima.save_run(p, s)
            t3 = naima.save_results_table(os.path.join(d, "read"), naima.read_run(p), **kw)
            # float blobs without any saved blob after them may be missing
            rows, units = expected_rows(case, s, meta_of(t3, fmt))
            check_table(t3, rows, units, "table of the run read from file")
    labels = []
    if any(r[0].startswith("blob") for r in rows):
        labels.append("scalar blobs")
    if len(rows) > len(c["labels"]):
        labels.append("more rows")
    if case["last_step"]:
        labels.append("last step")
    return labels or ["trivial"]


SUBS = [Sub("table", cases(), check, quick=640, thorough=8000)]
