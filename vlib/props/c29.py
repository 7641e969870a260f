"""C29: estimate_B."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima
from naima.utils import validate_data_table

from .. import tables
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail, qval, raises

RULE = (
    "pairs of X-ray and gamma-ray data sets, each written in two ways, densities and scale "
    "factors, drawn by Hypothesis; non-trivial: more than two points in a table"
)
ASSUMPTIONS = ["fluxes are positive and no rows are upper limits"]
KB = 8.617333262e-5


@st.composite
def cases(draw):
    power = draw(chance(0.3))
    kinds = ["power", "differential power"] if power else ["flux", "differential flux"]
    out = {}
    for name, emin, emax in (("xray", 1e2, 1e6), ("vhe", 1e8, 1e14)):
        ds = draw(tables.datasets(kinds=kinds, min_size=2, max_size=7, ul=False, negative=False,
                                  emin=emin, emax=emax))
        out[name] = ds
        out[name + "_form"] = draw(tables.forms(ds))
        out[name + "_form2"] = draw(tables.forms(ds))
    out["u"] = draw(st.one_of(st.none(), logf(1e-3, 1e3, 4)))
    out["u_unit"] = draw(st.sampled_from(["eV/cm3", "erg/cm3", "J/m3", "TeV/pc3"]))
    out["c"] = [draw(logf(1e-3, 1e3, 3)) for _ in range(3)]
    out["split"] = draw(chance(0.2))
    out["validated"] = [draw(st.sampled_from([None, "sed", "diff"])) for _ in range(2)]
    return out


def integral(ds):
    """Integral of the differential energy flux over the energies, in erg units."""
    rows = sorted(ds["rows"], key=lambda r: r["e"])
    e = np.array([r["e"] for r in rows])
    f = np.array([r["f"] for r in rows]) / e  # E dN/dE = SED / E
    tot = 0.0
    for a, b, fa, fb in zip(e[:-1], e[1:], f[:-1], f[1:]):
        t = np.log(b / a)
        s1 = np.log(fb / fa) / t + 1
        tot += fa * a * (np.expm1(s1 * t) / s1 if abs(s1 * t) > 1e-9 else t)
    return tot


def scaled(ds, c):
    rows = [dict(r, f=r["f"] * c, lo=r["lo"] * c, hi=r["hi"] * c) for r in ds["rows"]]
    return dict(ds, rows=rows)


def check(case):
    x, v = case["xray"], case["vhe"]
    kw = {}
    dens = 0.261
    if case["u"] is not None:
        dens = case["u"]
        kw["photon_energy_density"] = (dens * u.Unit("eV/cm3")).to(case["u_unit"])
    ux = 8 * np.pi * dens * tables.EV

    def est(xd, vd, fx="xray_form", fv="vhe_form", kw=kw):
        tx, tv = tables.table(xd, case[fx]), tables.table(vd, case[fv])
        # tables may be validated before, in either form
        if fx == "xray_form2" and case["validated"][0]:
            tx = validate_data_table(tx, sed=case["validated"][0] == "sed")
        if fv == "vhe_form2" and case["validated"][1]:
            tv = validate_data_table(tv, sed=case["validated"][1] == "sed")
        s = tables.snapshot(tx), tables.snapshot(tv)
        b = naima.estimate_B(tx, tv, **kw)
        if (tables.snapshot(tx), tables.snapshot(tv)) != s:
            fail("tables modified")
        if not isinstance(b, u.Quantity) or b.unit.physical_type != "magnetic flux density" \
                and not b.unit.is_equivalent("G"):
            fail("not a magnetic field: %r", b)
        return float(qval(b, "G"))

    b = est(x, v)
    want = np.sqrt(ux * integral(x) / integral(v))
    close(b, want, rtol=1e-7, what="magnetic field")
    close(est(x, v, "xray_form2", "vhe_form2"), b, rtol=1e-7, what="tables written differently")
    cx, cv, cu = case["c"]
    close(est(scaled(x, cx), v), b * np.sqrt(cx), rtol=1e-7, what="X-ray flux x %r" % cx)
    close(est(x, scaled(v, cv)), b / np.sqrt(cv), rtol=1e-7, what="gamma-ray flux x %r" % cv)
    close(est(x, v, kw={"photon_energy_density": cu * dens * u.Unit("eV/cm3")}),
          b * np.sqrt(cu), rtol=1e-7, what="density x %r" % cu)
    # recovers the field
    b0 = 10e-6 * cu
    k = b0 ** 2 / ux * integral(v) / integral(x)
    close(est(scaled(x, k), v), b0, rtol=1e-7, what="field with u_B/u_ph = Lx/Lvhe")
    if case["split"] and len(v["rows"]) > 2:
        tl = [tables.table(dict(v, rows=v["rows"][i::2])) for i in range(2)]
        close(qval(naima.estimate_B(tables.table(x, case["xray_form"]), tl, **kw), "G"), b,
              rtol=1e-7, what="gamma-ray data in two tables")
    # several tables of one spectrum
    if case["split"] and len(x["rows"]) > 2:
        parts = [dict(x, rows=x["rows"][i::2]) for i in range(2)]
        tl = [tables.table(p) for p in parts]
        close(qval(naima.estimate_B(tl, tables.table(v, case["vhe_form"]), **kw), "G"), b,
              rtol=1e-7, what="X-ray data in two tables")
    # a luminosity and a flux have no ratio
    other = dict(v, kind={"power": "flux", "flux": "power", "differential power": "flux",
                          "differential flux": "power"}[v["kind"]])
    raises(u.UnitsError, lambda: naima.estimate_B(
        tables.table(x, case["xray_form"]), tables.table(other), **kw), "flux and luminosity")
    return len(x["rows"]) > 2 or len(v["rows"]) > 2


SUBS = [Sub("ratio", cases(), check, quick=400, thorough=6000)]
