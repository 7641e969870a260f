"""Data, models and reference likelihoods for the checks of the samplers.

All spectra are SED values in erg (erg/(cm2 s) or erg/s) until they are written
in the units a case asks for."""
import contextlib
import io

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from . import tables
from .gen import linf
from .util import fail

FLUX = ("flux", "differential flux")
POWER = ("power", "differential power")


@contextlib.contextmanager
def quiet():
    """Progress of the sampler is printed."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def spectrum(e_ev, sed_erg, unit):
    """The spectrum (SED values in erg) in a unit of any kind."""
    unit = u.Unit(unit)
    e_ev = np.asarray(e_ev, dtype=float)
    for canon in ("erg/(s cm2)", "erg/s"):
        if u.Unit(canon).is_equivalent(unit):
            return (np.asarray(sed_erg) * u.Unit(canon)).to(unit)
    for canon in ("1/(s cm2 eV)", "1/(s eV)"):
        if u.Unit(canon).is_equivalent(unit):
            return (np.asarray(sed_erg) / tables.EV / e_ev ** 2 * u.Unit(canon)).to(unit)
    raise ValueError(unit)


def to_sed(e_ev, q):
    """Inverse of `spectrum`."""
    e_ev = np.asarray(e_ev, dtype=float)
    for canon in ("erg/(s cm2)", "erg/s"):
        if q.unit.is_equivalent(canon):
            return q.to(canon).value
    for canon in ("1/(s cm2 eV)", "1/(s eV)"):
        if q.unit.is_equivalent(canon):
            return q.to(canon).value * tables.EV * e_ev ** 2
    fail("not a spectrum: %s", q.unit)


def chi_terms(rows, m):
    """Log-likelihood of SED values m for the rows (of tables.expected)."""
    tot = 0.0
    for r, x in zip(rows, m):
        if r["ul"]:
            if x > r["f"]:
                tot += np.log(1 - r["cl"])
        else:
            err = r["hi"] if x > r["f"] else r["lo"]
            tot -= 0.5 * ((x - r["f"]) / err) ** 2
    return tot


def near_ul(rows, m, tol=1e-7):
    return any(r["ul"] and abs(x - r["f"]) <= tol * abs(r["f"]) for r, x in zip(rows, m))


def kinds():
    return st.sampled_from([FLUX, FLUX, FLUX, POWER])


def model_units(power):
    k = POWER if power else FLUX
    return sorted(tables.F_UNITS[k[0]] + tables.F_UNITS[k[1]])


# ------------------------------------------------------------- a family of models

@st.composite
def parametric(draw, ndim=None, min_dim=1, power=False, log=None):
    """amp * scale * (e/e0)^(-index - curvature log10(e/e0)) [and an exponential cutoff]."""
    n = ndim or draw(st.integers(min_dim, 4))
    return {"ndim": n, "log": draw(st.sampled_from([None, None, "log10", "log"]))
            if log is None else log,
            "e0": 1e12, "scale": 1e-11 * (1e45 if power else 1.0),
            "unit": draw(st.sampled_from(model_units(power))),
            "p0": [draw(linf(0.2, 3.0, 3)), draw(linf(-0.5, 0.8, 3)), draw(linf(-0.2, 0.3, 3)),
                   draw(linf(12.0, 15.0, 4))][:n] + [draw(linf(0.2, 3.0, 3))
                                                     for _ in range(n - 4)]}


def model_sed(spec, p, e_ev):
    e_ev = np.asarray(e_ev, dtype=float)
    p = [np.float64(x) for x in p]
    a = p[0] if spec["log"] is None else (10.0 ** p[0] if spec["log"] == "log10"
                                           else np.exp(p[0]))
    x = e_ev / spec["e0"]
    idx = (p[1] if len(p) > 1 else 0.0) + (p[2] * np.log10(x) if len(p) > 2 else 0.0)
    f = a * spec["scale"] * x ** -idx
    if len(p) > 3:
        f = f * np.exp(-e_ev / 10.0 ** p[3])
    for k, v in enumerate(p[4:]):
        f = f * np.exp(0.05 * v / (k + 1))
    return f


def model_flux(spec, p, data):
    e = u.Quantity(data["energy"]).to("eV").value
    return spectrum(e, model_sed(spec, p, e), spec["unit"])
