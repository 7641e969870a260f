"""C18: malformed tables are rejected by everything that takes a table."""
import copy

import astropy.units as u
import numpy as np
from astropy.table import Column, QTable, Table
from hypothesis import strategies as st

import naima
from naima.utils import validate_data_table

from .. import tables
from ..gen import chance
from ..harness import Sub
from ..util import fail, raises

RULE = (
    "a valid table in any representation, one corruption of it and the entry point it is "
    "given to, drawn by Hypothesis; every case is first checked to be accepted without the "
    "corruption; non-trivial: the corruption applies to the table"
)
ASSUMPTIONS = [
    "whether floating point numbers may hold upper limit flags "
    "is not part of the property"]

WRONG = {
    "energy": ["cm", "s", "Hz", "K", "1/(s cm2 TeV)", "m/s", "1/TeV", ""],
    "flux": ["1/(s cm2)", "erg", "K", "1/TeV", "1/(s m3 TeV)", "TeV2", "Jy", "", "1/(TeV cm3)"],
}
BAD_UL = [["no", "yes"], ["true", "false"], ["1", "0"], ["", "True"], ["True ", "False"],
          ["TRUE", "FALSE"], ["None", "True"], [0.0, 1.0], [0.5, 1.0], [float("nan"), 1.0]]
BAD_CL = ["0.95", "abc", [0.9], {"a": 1}, None, [0.9, 0.95], "", [[0.9]]]
NOT_TABLES = ["dict", "array", "none", "list of dict", "string", "number", "list of none",
              "quantity", "mixed", "list of string"]


@st.composite
def corruptions(draw):
    kind = draw(st.sampled_from(["drop", "drop", "unitless", "wrong", "wrong", "errtype",
                                 "ul", "ul", "cl", "flux_ul", "ndim"]))
    c = {"kind": kind, "col": draw(st.integers(0, 5))}
    if kind == "wrong":
        c["energy"] = draw(st.sampled_from(WRONG["energy"]))
        c["flux"] = draw(st.sampled_from(WRONG["flux"]))
    elif kind == "errtype":
        c["unit"] = draw(st.sampled_from(sorted(tables.F_UNITS)))
    elif kind == "ul":
        c["bad"] = draw(st.sampled_from(BAD_UL))
        c["at"] = draw(st.integers(0, 7))
    elif kind == "cl":
        c["bad"] = draw(st.sampled_from(BAD_CL))
        c["bare"] = draw(st.booleans())
    elif kind == "flux_ul":
        c["unit"] = draw(st.sampled_from(["", "cm", "erg", "other"]))
        c["at"] = draw(st.integers(0, 7))
    return c


ENTRY = ["validate", "validate", "first of list", "last of list", "get_sampler",
         "estimate_B xray", "estimate_B vhe"]


@st.composite
def cases(draw):
    ds = draw(tables.datasets(min_size=2, max_size=5, negative=False))
    return {"ds": ds, "form": draw(tables.forms(ds)), "bad": draw(corruptions()),
            "entry": draw(st.sampled_from(ENTRY)),
            "sed": draw(st.sampled_from([None, True, False]))}


def with_unit(t, name, value, unit):
    """Replace a column, keeping the type of the table."""
    value = np.asarray(value)
    i = t.colnames.index(name)
    new = Column(value, name=name) if unit is None else \
        (value * u.Unit(unit) if isinstance(t, QTable) else Column(value, unit=unit))
    t.replace_column(name, new) if not isinstance(t, QTable) else None
    if isinstance(t, QTable):
        t.remove_column(name)
        t.add_column(new, index=i, name=name)


def corrupt(t, ds, bad):
    """The corrupted table and the exception expected (None: not applicable)."""
    t = t.copy()
    kind = bad["kind"]
    pick = lambda cols: cols[bad["col"] % len(cols)]  # noqa: E731
    ecols = [c for c in t.colnames if c.startswith("energy")]
    fcols = [c for c in t.colnames if c.startswith("flux") and c != "flux_ul"]
    if kind == "drop":
        t.remove_column(pick(["energy"] + fcols))
        return t, TypeError
    if kind == "unitless":
        c = pick(ecols + fcols)
        with_unit(t, c, u.Quantity(t[c]).value, None)
        return t, TypeError
    if kind == "wrong":
        c = pick(ecols + fcols)
        with_unit(t, c, u.Quantity(t[c]).value, bad["energy" if c in ecols else "flux"])
        return t, TypeError
    if kind == "errtype":
        if bad["unit"] == ds["kind"]:
            return t, None
        c = pick([x for x in fcols if x != "flux"])
        with_unit(t, c, u.Quantity(t[c]).value, tables.F_UNITS[bad["unit"]][0])
        return t, Exception
    if kind == "ul":
        vals = [bad["bad"][i % 2] for i in range(len(t))]
        if isinstance(vals[0], str):
            # one bad flag among good ones, wherever it is
            good = ["True" if i % 2 else "False" for i in range(len(t))]
            i = bad["at"] % len(t)
            good[i] = bad["bad"][0] if bad["bad"][0] not in ("True", "False") \
                else bad["bad"][1]
            vals = good
        t["ul"] = vals
        return t, TypeError
    if kind == "cl":
        bare = bad.get("bare") and not isinstance(bad["bad"], dict)
        t.meta["keywords"] = {"cl": bad["bad"] if bare else {"value": bad["bad"]}}
        return t, TypeError
    if kind == "flux_ul":
        ul = np.zeros(len(t), dtype=bool)
        ul[bad["at"] % len(t)] = True
        t["ul"] = ul
        unit = bad["unit"]
        if unit == "other":
            unit = {"flux": "1/(s cm2 TeV)", "differential flux": "erg/(s cm2)",
                    "power": "1/(s TeV)", "differential power": "erg/s"}[ds["kind"]]
        t["flux_ul"] = np.linspace(1, 2, len(t)) * u.Unit(unit)
        return t, Exception
    c = pick(["energy"] + fcols)
    q = u.Quantity(t[c])
    two = np.stack([q.value, q.value], axis=1)
    with_unit(t, c, two, q.unit)
    return t, Exception


def model_of(ds):
    cu = u.Unit(tables.CANON[ds["kind"]])

    def model(p, data):
        return p[0] * np.ones(len(data["energy"])) * cu
    return model


def enter(entry, t, good, ds, sed):
    if entry == "validate":
        return validate_data_table(t, sed=sed)
    if entry == "first of list":
        return validate_data_table([t, good], sed=sed)
    if entry == "last of list":
        return validate_data_table([good, t], sed=sed)
    if entry == "get_sampler":
        return naima.get_sampler(data_table=t, p0=[1.0], model=model_of(ds), nwalkers=4,
                                 nburn=0, threads=1, guess=False, data_sed=sed)
    if entry == "estimate_B xray":
        return naima.estimate_B(t, good)
    return naima.estimate_B(good, t)


def check(case):
    ds, entry = case["ds"], case["entry"]
    t = tables.table(ds, case["form"])
    good = tables.table(ds)
    enter(entry, t, good, ds, case["sed"])
    bad, exc = corrupt(t, ds, case["bad"])
    if exc is None:
        return False
    what = "table with %r given to %s" % (case["bad"], entry)
    raises(exc, lambda: enter(entry, bad, good, ds, case["sed"]), what)
    return [case["bad"]["kind"], entry]


# ------------------------------------------------------------------- not a table

@st.composite
def nontable_cases(draw):
    ds = draw(tables.datasets(min_size=2, max_size=3, negative=False))
    return {"ds": ds, "what": draw(st.sampled_from(NOT_TABLES)),
            "entry": draw(st.sampled_from(["validate", "get_sampler", "estimate_B xray",
                                           "estimate_B vhe"]))}


def check_nontable(case):
    ds = case["ds"]
    good = tables.table(ds)
    d = {c: good[c] for c in good.colnames}
    x = {"dict": d, "array": np.ones((3, 3)), "none": None, "list of dict": [d],
         "string": "data.dat", "number": 3.0, "list of none": [None],
         "quantity": good["energy"], "mixed": [good, d],
         "list of string": ["a.dat", "b.dat"]}[case["what"]]
    raises(TypeError, lambda: enter(case["entry"], x, good, ds, None),
           "%s given to %s as a table" % (case["what"], case["entry"]))


# ------------------------------------------------------------------- build_data_table

@st.composite
def build_cases(draw):
    ds = draw(tables.datasets(min_size=2, max_size=4, negative=False))
    kind = draw(st.sampled_from(["no error", "no hi", "no lo", "wrong", "wrong", "unitless",
                                 "cl", "errtype"]))
    return {"ds": ds, "kind": kind, "col": draw(st.integers(0, 5)),
            "energy": draw(st.sampled_from(WRONG["energy"])),
            "flux": draw(st.sampled_from(WRONG["flux"])),
            "cl": draw(st.sampled_from([c for c in BAD_CL if c is not None])),
            "bins": draw(st.sampled_from(["none", "width", "edges"])),
            "errors": draw(st.sampled_from(["one", "two"])),
            "errunit": draw(st.sampled_from(sorted(tables.F_UNITS)))}


def build_args(case):
    ds = case["ds"]
    e = np.array([r["e"] for r in ds["rows"]]) * u.eV
    cu = u.Unit(tables.CANON[ds["kind"]])
    kw = {"energy": e, "flux": tables.fluxes(ds, "f") * cu}
    if case["errors"] == "one":
        kw["flux_error"] = tables.fluxes(ds, "lo") * cu
    else:
        kw["flux_error_lo"] = tables.fluxes(ds, "lo") * cu
        kw["flux_error_hi"] = tables.fluxes(ds, "hi") * cu
    if case["bins"] == "width":
        kw["energy_width"] = 0.2 * e
    elif case["bins"] == "edges":
        kw["energy_lo"], kw["energy_hi"] = 0.9 * e, 1.2 * e
    kw["ul"] = [r["ul"] for r in ds["rows"]]
    if ds["cl"] is not None:
        kw["cl"] = ds["cl"]
    return kw


def check_build(case):
    kw = build_args(case)
    naima.build_data_table(**kw)
    kind = case["kind"]
    exc = TypeError
    errs = [k for k in kw if k.startswith("flux_error")]
    if kind == "no error":
        for k in errs:
            del kw[k]
    elif kind in ("no hi", "no lo"):
        if len(errs) < 2:
            return False
        del kw["flux_error_" + kind[3:]]
    elif kind == "cl":
        kw["cl"] = case["cl"]
    elif kind == "errtype":
        if case["errunit"] == case["ds"]["kind"]:
            return False
        kw[errs[0]] = kw[errs[0]].value * u.Unit(tables.F_UNITS[case["errunit"]][0])
        exc = Exception
    else:
        cols = [k for k in kw if isinstance(kw[k], u.Quantity)]
        c = cols[case["col"] % len(cols)]
        v = kw[c].value
        kw[c] = v if kind == "unitless" else \
            v * u.Unit(case["energy" if c.startswith("energy") else "flux"])
    raises(exc, lambda: naima.build_data_table(**kw),
           "build_data_table with %s" % kind)
    return [kind]


# ------------------------------------------------------------------- get_sampler

COMPATIBLE = {"flux": ["erg/(s cm2)", "1/(s cm2 TeV)", "eV/(s m2)", "1/(h m2 keV)"],
              "power": ["erg/s", "1/(s TeV)", "W", "1/(h keV)"]}
USELESS = ["1/TeV", "erg", "TeV2", "", "1/(s cm2)", "K", "cm", "1/(cm3 eV)"]


@st.composite
def model_cases(draw):
    ds = draw(tables.datasets(min_size=2, max_size=4, negative=False))
    other = COMPATIBLE["flux" if "power" in ds["kind"] else "power"]
    return {"ds": ds, "form": draw(tables.forms(ds)),
            "unit": draw(st.sampled_from(USELESS + other)),
            "out": draw(st.sampled_from(["array", "tuple", "list"])),
            "guess": draw(st.booleans()), "nburn": draw(st.integers(0, 1)),
            "label": draw(st.sampled_from([None, "norm", "log10(norm)", "index"])),
            "missing": draw(st.sampled_from([None, None, None, "table", "model", "both"])),
            "sed": draw(st.sampled_from([None, True, False]))}


def check_model(case):
    ds = case["ds"]
    t = tables.table(ds, case["form"])
    good = COMPATIBLE["power" if "power" in ds["kind"] else "flux"]
    n = len(t)

    def model(unit):
        def f(p, data):
            x = (1.0 + 0.1 * p[0]) * np.ones(n) * u.Unit(unit)
            return {"array": x, "tuple": (x, 1 * u.erg), "list": [x, 2.0]}[case["out"]]
        return f

    kw = dict(p0=[1.0], nwalkers=4, threads=1, nburn=0, guess=case["guess"],
              labels=None if case["label"] is None else [case["label"]],
              data_sed=case["sed"])
    for unit in good:
        naima.get_sampler(data_table=t, model=model(unit), **kw)
    kw["nburn"] = case["nburn"]
    if case["missing"]:
        a = {"data_table": t, "model": model(good[0])}
        if case["missing"] != "model":
            del a["data_table"]
        if case["missing"] != "table":
            del a["model"]
        raises(TypeError, lambda: naima.get_sampler(**a, **kw), "get_sampler without "
               + case["missing"])
        return ["missing"]
    raises(u.UnitsError, lambda: naima.get_sampler(data_table=t, model=model(case["unit"]),
                                                   **kw),
           "model in %r for data in %s" % (case["unit"], ds["kind"]))
    return ["units"]


SUBS = [
    Sub("corrupted", cases(), check, quick=2000, thorough=20000),
    Sub("not tables", nontable_cases(), check_nontable, quick=200, thorough=600),
    Sub("build_data_table", build_cases(), check_build, quick=600, thorough=6000),
    Sub("models", model_cases(), check_model, quick=600, thorough=6000),
]
