"""Data tables: canonical measurements and their many representations.

A data set is {"kind": flux kind, "rows": [...], "bins": None/"sym"/"asym",
"cl": None or number}; each row has e (eV), f, lo, hi (erg-based unit of its
kind at that energy: always the SED value), ul, el, eh (relative half widths of
its energy bin).  Everything is plain data."""
import astropy.units as u
import numpy as np
from astropy.table import QTable, Table
from hypothesis import strategies as st

from .gen import chance, linf, logf, sig
from .util import close, fail

EV = 1.602176634e-12
E_UNITS = ["eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]
F_UNITS = {
    "flux": ["erg/(s cm2)", "eV/(s cm2)", "TeV/(s m2)", "W/m2", "GeV/(h cm2)"],
    "differential flux": ["1/(s cm2 TeV)", "1/(s m2 keV)", "1/(s cm2 erg)",
                          "1/(h cm2 GeV)", "1/(s cm2 eV)"],
    "power": ["erg/s", "W", "TeV/s", "eV/h"],
    "differential power": ["1/(s TeV)", "1/(s erg)", "1/(h keV)", "1/(s eV)"],
}
# (energies in eV, SED in erg): conversion of SED to the canonical unit
CANON = {"flux": "erg/(s cm2)", "power": "erg/s",
         "differential flux": "1/(s cm2 eV)", "differential power": "1/(s eV)"}
SED = {"flux": True, "power": True, "differential flux": False,
       "differential power": False}


@st.composite
def datasets(draw, kinds=tuple(F_UNITS), min_size=1, max_size=8, ul=True, negative=True,
             emin=1e2, emax=1e14, bins=("none", "none", "sym", "asym"), errmin=0.01,
             ulerr=False, near=False):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(min_size, max_size))
    energies = draw(st.lists(logf(emin, emax), min_size=n, max_size=n, unique=True))
    if near and n > 1 and draw(chance(0.2)):
        # two energies that differ by little, in any order
        i, j = draw(st.permutations(list(range(n))))[:2]
        energies[i] = energies[j] * (1 + draw(st.sampled_from([2e-8, -2e-8, 1e-5, -1e-5])))
    scale = draw(logf(1e-14, 1e-8)) * (1e45 if "power" in kind else 1.0)
    symerr = draw(chance(0.4))
    b = draw(st.sampled_from(bins))
    anyul = ul and draw(chance(0.6))
    # errors of upper limits: any, zero or missing
    ulerr = draw(st.sampled_from(["any", "any", "zero", "nan"])) if ulerr else "any"
    rows = []
    for e in energies:
        f = sig(scale * draw(logf(0.1, 10, 4)), 4)
        if negative and draw(chance(0.1)):
            f = -f if draw(st.booleans()) else 0.0
        lo = sig(scale * draw(logf(errmin, 1, 4)), 4)
        hi = lo if symerr else sig(scale * draw(logf(errmin, 1, 4)), 4)
        r = {"e": e, "f": f, "lo": lo, "hi": hi, "ul": bool(anyul and draw(chance(0.35)))}
        if r["ul"] and ulerr != "any":
            r["lo"] = r["hi"] = 0.0 if ulerr == "zero" else float("nan")
        if b != "none":
            r["el"] = draw(linf(0.01, 0.5, 3))
            r["eh"] = r["el"] if b == "sym" else draw(linf(0.01, 1.0, 3))
        rows.append(r)
    cl = draw(st.one_of(st.none(), linf(0.5, 0.999, 4).filter(lambda x: x < 1)))
    return {"kind": kind, "rows": rows, "bins": b, "cl": cl}


@st.composite
def forms(draw, ds):
    """One way of writing a data set."""
    n = len(ds["rows"])
    sym = all(r["lo"] == r["hi"] for r in ds["rows"])
    eu = st.sampled_from(E_UNITS)
    fu = st.sampled_from(F_UNITS[ds["kind"]])
    bins = {"none": ["none"], "sym": ["width", "error", "lohi", "edges"],
            "asym": ["lohi", "edges"]}[ds["bins"]]
    anyul = any(r["ul"] for r in ds["rows"])
    uls = ["bool", "int", "str", draw(st.sampled_from(["i1", "i2", "i4", "u1", ">i8", "S5"]))] \
        + ([] if anyul else ["absent"])
    return {
        "perm": draw(st.permutations(list(range(n)))),
        "eu": draw(eu), "bu": [draw(eu), draw(eu)],
        "fu": [draw(fu), draw(fu), draw(fu), draw(fu)],
        "errors": draw(st.sampled_from(["one", "two"] if sym else ["two"])),
        "bins": draw(st.sampled_from(bins)),
        "ul": draw(st.sampled_from(uls)),
        "flux_ul": draw(chance(0.3)) and anyul,
        "table": draw(st.sampled_from(["Table", "QTable", "ecsv", "ipac"] * 4 + ["fits"])),
        "bare_cl": draw(st.booleans()),
        "extra": draw(chance(0.2)),
    }


PLAIN = {"eu": "TeV", "bu": ["TeV", "TeV"], "errors": "two", "ul": "bool",
         "flux_ul": False, "table": "QTable", "extra": False}


def plain_form(ds):
    f = dict(PLAIN, perm=list(range(len(ds["rows"]))),
             fu=[F_UNITS[ds["kind"]][0]] * 4,
             bins={"none": "none", "sym": "lohi", "asym": "lohi"}[ds["bins"]])
    return f


def fluxes(ds, key):
    """Values in the canonical unit of the kind of the data set."""
    e = np.array([r["e"] for r in ds["rows"]])
    f = np.array([r[key] for r in ds["rows"]])
    return f if SED[ds["kind"]] else f / EV / e ** 2


def table(ds, form=None):
    form = form or plain_form(ds)
    p = form["perm"]
    e = np.array([r["e"] for r in ds["rows"]])
    ul = np.array([r["ul"] for r in ds["rows"]])
    cu = u.Unit(CANON[ds["kind"]])

    t = QTable()
    t["energy"] = (e * u.eV).to(form["eu"])[p]
    f = (fluxes(ds, "f") * cu).to(form["fu"][0])
    if form["flux_ul"]:
        fl = f.to(form["fu"][3])
        other = np.where(ul, 1.0, 7.7)
        t["flux"] = np.where(ul, 3.21, 1.0)[p] * f[p]
        t["flux_ul"] = other[p] * fl[p]
    else:
        t["flux"] = f[p]
    if form["errors"] == "one":
        t["flux_error"] = (fluxes(ds, "lo") * cu).to(form["fu"][1])[p]
    else:
        t["flux_error_lo"] = (fluxes(ds, "lo") * cu).to(form["fu"][1])[p]
        t["flux_error_hi"] = (fluxes(ds, "hi") * cu).to(form["fu"][2])[p]
    if form["bins"] != "none":
        lo = e * [r["el"] for r in ds["rows"]] * u.eV
        hi = e * [r["eh"] for r in ds["rows"]] * u.eV
        b1, b2 = form["bu"]
        if form["bins"] == "width":
            t["energy_width"] = (2 * lo).to(b1)[p]
        elif form["bins"] == "error":
            t["energy_error"] = lo.to(b1)[p]
        elif form["bins"] == "lohi":
            t["energy_error_lo"] = lo.to(b1)[p]
            t["energy_error_hi"] = hi.to(b2)[p]
        else:
            t["energy_lo"] = (e * u.eV - lo).to(b1)[p]
            t["energy_hi"] = (e * u.eV + hi).to(b2)[p]
    if form["ul"] == "bool":
        t["ul"] = ul[p]
    elif form["ul"] == "int":
        t["ul"] = ul.astype(int)[p]
    elif form["ul"] == "str":
        t["ul"] = np.array([str(bool(x)) for x in ul])[p]
    elif form["ul"] == "S5":
        t["ul"] = np.array([str(bool(x)) for x in ul])[p].astype("S5")
    elif form["ul"] != "absent":
        t["ul"] = ul[p].astype(form["ul"])
    if form["extra"]:
        t["name"] = ["p%d" % i for i in range(len(e))]
    if ds["cl"] is not None:
        bare = form.get("bare_cl") and form["table"] != "ipac"
        t.meta["keywords"] = {"cl": ds["cl"] if bare else {"value": ds["cl"]}}
    if form["table"] == "Table":
        t = Table(t)
    elif form["table"] == "ipac":
        import io

        s = io.StringIO()
        Table(t).write(s, format="ascii.ipac")
        t = Table.read(s.getvalue(), format="ascii.ipac")
    elif form["table"] == "ecsv":
        import io

        s = io.StringIO()
        t.write(s, format="ascii.ecsv")
        t = Table.read(s.getvalue(), format="ascii.ecsv")
    elif form["table"] == "fits":
        t = fits(t)
    return t


def fits(t):
    """The table as read from a FITS file, with its metadata."""
    import io
    import warnings

    s = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        Table(t, meta={}).write(s, format="fits")
        s.seek(0)
        out = Table.read(s, format="fits")
    out.meta.clear()
    out.meta.update(t.meta)
    return out


def edges(e):
    """Distances to the edges of generated bins, in the units of e."""
    e = np.asarray(e, dtype=float)
    if len(e) == 1:
        return np.zeros(1), np.zeros(1)
    o = np.argsort(e, kind="stable")
    s = e[o]
    mid = np.sqrt(s[1:] * s[:-1])
    lo, hi = np.empty(len(e)), np.empty(len(e))
    lo[1:] = s[1:] - mid
    hi[:-1] = mid - s[:-1]
    lo[0] = s[0] * (1 - s[0] / mid[0])
    hi[-1] = lo[-1]
    out = np.empty(len(e)), np.empty(len(e))
    out[0][o], out[1][o] = lo, hi
    return out


def expected(ds, group=0):
    """Rows of the validated table, as SED in the erg-based unit."""
    rows = []
    e = np.array([r["e"] for r in ds["rows"]])
    glo, ghi = edges(e)
    for i, r in enumerate(ds["rows"]):
        rows.append({
            "e": r["e"], "f": r["f"], "lo": r["lo"], "hi": r["hi"], "ul": r["ul"],
            "el": glo[i] if ds["bins"] == "none" else r["e"] * r["el"],
            "eh": ghi[i] if ds["bins"] == "none" else r["e"] * r["eh"],
            "cl": 0.9 if ds["cl"] is None else ds["cl"], "group": group})
    return sorted(rows, key=lambda r: (r["e"], r["group"]))


def check_validated(v, rows, sed, power, what, group=True):
    """Compare a validated table with the expected rows."""
    need = ["energy", "flux", "flux_error_lo", "flux_error_hi", "energy_error_lo",
            "energy_error_hi", "ul", "cl"]
    for c in need:
        if c not in v.colnames:
            fail("%s: no column %r", what, c)
    if len(v) != len(rows):
        fail("%s: %d rows, expected %d", what, len(v), len(rows))
    e = v["energy"].to("eV").value
    if np.any(np.diff(e) < 0):
        fail("%s: not sorted by energy: %r", what, e.tolist())
    unit = {(True, False): "erg/(s cm2)", (True, True): "erg/s",
            (False, False): "1/(s cm2 eV)", (False, True): "1/(s eV)"}[(sed, power)]
    cols = {}
    for c in need[1:]:
        q = v[c]
        if c.startswith("energy"):
            cols[c] = q.to("eV").value
        elif c.startswith("flux"):
            try:
                x = q.to(unit).value
            except u.UnitConversionError:
                fail("%s: %s in %s, expected units of %s", what, c, q.unit, unit)
            cols[c] = x if sed else x * e ** 2 * EV
        else:
            cols[c] = np.asarray(q)
    if group and "group" in v.colnames:
        cols["group"] = np.asarray(v["group"])
    want = sorted(r["e"] for r in rows)
    close(e, want, rtol=1e-9, what=what + ": energy")
    # rows of the same energy may come in any order
    keys = {"flux": "f", "flux_error_lo": "lo", "flux_error_hi": "hi", "ul": "ul",
            "cl": "cl", "energy_error_lo": "el", "energy_error_hi": "eh",
            "group": "group"}
    used = set()
    for i in range(len(e)):
        # candidates of this energy
        ok = None
        for j, r in enumerate(rows):
            if j in used or abs(r["e"] - e[i]) > 1e-9 * r["e"]:
                continue
            bad = [c for c in cols if not _same(c, cols[c][i], r[keys[c]], r["e"])]
            if not bad:
                used.add(j)
                ok = True
                break
            ok = (bad, r)
        if ok is not True:
            if ok is None:
                fail("%s: no row at %r eV", what, e[i])
            bad, r = ok
            fail("%s: row at %r eV has %s, expected %s", what, e[i],
                 {c: cols[c][i].tolist() for c in bad}, {c: r[keys[c]] for c in bad})


def _same(c, a, b, e):
    if c == "ul":
        return bool(a) == bool(b) and a in (True, False)
    if c == "group":
        return a == b
    if np.isnan(b):
        return bool(np.isnan(a))
    atol = 1e-9 * e if c.startswith("energy") else 1e-300
    return abs(a - b) <= 1e-8 * abs(b) + atol


def snapshot(t):
    """Everything observable about a table."""
    out = {"type": type(t).__name__, "cols": list(t.colnames), "meta": repr(dict(t.meta))}
    for c in t.colnames:
        q = t[c]
        out[c] = (str(getattr(q, "unit", None)), str(np.asarray(q).dtype.newbyteorder("=")),
                  # missing values are equal
                  [repr(x) if x != x else x for x in np.asarray(q).tolist()])
    return out
