"""C32: generated energy bins and build_data_table."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima
from naima.utils import validate_data_table

from .. import tables
from ..gen import ENERGY_UNITS, chance, logf
from ..harness import Sub
from ..util import close, fail, raises

RULE = (
    "sets of distinct energies in any order, unit and grouping, and measurements with "
    "every combination of optional columns, drawn by Hypothesis; non-trivial: two or more "
    "energies"
)
ASSUMPTIONS = []


@st.composite
def edge_cases(draw):
    e = draw(st.lists(logf(1e-3, 1e15), min_size=1, max_size=10, unique=True))
    if draw(chance(0.3)):  # close energies
        e = sorted({float("%.6g" % (e[0] * (1 + 1e-3 * k))) for k in range(len(e))})
    n = len(e)
    ng = draw(st.integers(1, 3))
    return {"e": e, "eu": draw(st.sampled_from(ENERGY_UNITS)),
            "perm": draw(st.permutations(list(range(n)))),
            "groups": [draw(st.integers(0, ng - 1)) for _ in range(n)],
            "labels": draw(st.sampled_from([[0, 1, 2], [5, 3, 10], [-1, 7, 2]])),
            "gtype": draw(st.sampled_from(["array", "array", "list", "tuple"]))}


def check_edges(case):
    e = np.array(case["e"])
    n = len(e)
    p = np.array(case["perm"])
    x = (e * u.eV).to(case["eu"])[p]
    x0 = x.copy()
    out = naima.generate_energy_edges(x)
    if len(out) != 2:
        fail("%d arrays returned", len(out))
    lo, hi = (o.to("eV").value for o in out)
    wlo, whi = tables.edges(e)

    def same(got, want, what):
        if np.shape(got) != np.shape(want):
            fail("%s: shape %s, expected %s", what, np.shape(got), np.shape(want))
        bad = np.abs(got - want) > 1e-9 * (e[p] + want)
        if np.any(bad) or not np.all(np.isfinite(got)):
            fail("%s: %r eV, expected %r for energies %r", what, got.tolist(),
                 want.tolist(), e[p].tolist())

    same(lo, wlo[p], "lower distances")
    same(hi, whi[p], "upper distances")
    if np.any(lo < 0) or np.any(hi < 0):
        fail("negative distances %r %r", lo.tolist(), hi.tolist())
    # neighbours meet
    s = np.argsort(e[p])
    es = e[p][s]
    for i in range(n - 1):
        a, b = es[i] + hi[s][i], es[i + 1] - lo[s][i + 1]
        if abs(a - b) > 1e-9 * es[i + 1] or abs(a - np.sqrt(es[i] * es[i + 1])) > 1e-9 * a:
            fail("bins at %r and %r eV do not meet at their geometric mean: %r, %r",
                 es[i], es[i + 1], a, b)
    # groups
    lab = np.array(case["labels"])[case["groups"]]
    g0 = lab[p].copy()
    out = naima.generate_energy_edges(x, groups={"array": np.array, "list": list, "tuple": tuple}[
        case.get("gtype", "array")](lab[p]))
    lo, hi = (o.to("eV").value for o in out)
    wl, wh = np.zeros(n), np.zeros(n)
    for g in set(lab.tolist()):
        m = lab == g
        wl[m], wh[m] = tables.edges(e[m])
    same(lo, wl[p], "lower distances with groups %r" % lab[p].tolist())
    same(hi, wh[p], "upper distances with groups %r" % lab[p].tolist())
    if not np.array_equal(x, x0):
        fail("energies were modified")
    labels = ["%d groups" % len(set(lab.tolist()))]
    return labels + (["trivial"] if n < 2 else [])


@st.composite
def build_cases(draw):
    ds = draw(tables.datasets(near=True))
    n = len(ds["rows"])
    return {"ds": ds, "fu": [draw(st.sampled_from(tables.F_UNITS[ds["kind"]]))
                             for _ in range(3)],
            "eu": [draw(st.sampled_from(tables.E_UNITS)) for _ in range(3)],
            "perm": draw(st.permutations(list(range(n)))),
            "errors": draw(st.sampled_from(["one", "two"])),
            "bins": draw(st.sampled_from({"none": ["none"], "sym": ["width", "edges"],
                                          "asym": ["edges"]}[ds["bins"]])),
            "ul": draw(st.sampled_from(["bool", "int", "list", "intlist"])),
            "sed": draw(st.sampled_from([None, True, False]))}


def check_build(case):
    ds = case["ds"]
    if case["errors"] == "one":
        for r in ds["rows"]:
            r["hi"] = r["lo"]
    p = case["perm"]
    e = (np.array([r["e"] for r in ds["rows"]]) * u.eV)[p]
    cu = u.Unit(tables.CANON[ds["kind"]])
    kw = {"energy": e.to(case["eu"][0]),
          "flux": (tables.fluxes(ds, "f") * cu).to(case["fu"][0])[p]}
    lo = (tables.fluxes(ds, "lo") * cu).to(case["fu"][1])[p]
    if case["errors"] == "one":
        kw["flux_error"] = lo
    else:
        kw["flux_error_lo"] = lo
        kw["flux_error_hi"] = (tables.fluxes(ds, "hi") * cu).to(case["fu"][2])[p]
    if case["bins"] != "none":
        el = e * np.array([r["el"] for r in ds["rows"]])[p]
        eh = e * np.array([r["eh"] for r in ds["rows"]])[p]
        if case["bins"] == "width":
            kw["energy_width"] = (2 * el).to(case["eu"][1])
        else:
            kw["energy_lo"] = (e - el).to(case["eu"][1])
            kw["energy_hi"] = (e + eh).to(case["eu"][2])
    ul = np.array([r["ul"] for r in ds["rows"]])[p]
    if ul.any() or case["ul"] in ("bool", "intlist"):
        kw["ul"] = {"bool": ul, "int": ul.astype(int), "list": ul.tolist(),
                    "intlist": [int(x) for x in ul]}[case["ul"]]
    if ds["cl"] is not None:
        kw["cl"] = ds["cl"]
    saved = {k: (v.copy() if isinstance(v, u.Quantity) else np.array(v)) for k, v in kw.items()}
    t = naima.build_data_table(**kw)
    for k, v in kw.items():
        if not np.array_equal(np.asarray(v), np.asarray(saved[k])) or \
                getattr(v, "unit", None) != getattr(saved[k], "unit", None):
            fail("argument %s was modified", k)
        if k == "cl":
            got = t.meta["keywords"]["cl"]["value"]
            if got != v:
                fail("cl of the table is %r, given %r", got, v)
            continue
        col = t[k]
        if isinstance(v, u.Quantity):
            if col.unit != v.unit:
                fail("column %s in %s, given in %s", k, col.unit, v.unit)
            close(col.value, v.value, rtol=1e-15, what="column " + k)
        elif [bool(x) for x in col] != [bool(x) for x in v]:
            fail("column %s is %r, given %r", k, list(col), v)
    rows = tables.expected(ds)
    power = "power" in ds["kind"]
    sed = tables.SED[ds["kind"]] if case["sed"] is None else case["sed"]
    tables.check_validated(validate_data_table(t, sed=case["sed"]), rows, sed, power,
                           "validated built table")
    # modifying the given arrays afterwards leaves the table as it is
    kw["flux"] *= 2
    kw["energy"] *= 3
    tables.check_validated(validate_data_table(t, sed=case["sed"]), rows, sed, power,
                           "built table after modifying the arrays")
    # flux errors are needed
    bad = {k: v for k, v in kw.items() if not k.startswith("flux_error")}
    raises(TypeError, lambda: naima.build_data_table(**bad), "no flux errors")
    if case["errors"] == "two":
        for k in ("flux_error_lo", "flux_error_hi"):
            bad = {a: b for a, b in kw.items() if a != k}
            raises(TypeError, lambda: naima.build_data_table(**bad), "no " + k)
    return ["bins " + case["bins"]] + (["trivial"] if len(rows) < 2 else [])


SUBS = [
    Sub("edges", edge_cases(), check_edges, quick=6000, thorough=40000),
    Sub("build_data_table", build_cases(), check_build, quick=2400, thorough=20000),
]
