"""Generators and helpers shared by the checks of the spectra (C09-C14)."""
import math

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from . import rad, ref
from .gen import chance, linf, logf

ENERGY = ["eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]


def as_unit(x_ev, unit):
    return (x_ev * u.eV).to(unit)


@st.composite
def electron_kw(draw, emin=(1e6, 1e12), emax=(1e11, 1e16), ned=(10, 60)):
    """Electron energy limits in eV (or absent: the default)."""
    kw = {}
    if draw(chance(0.6)):
        kw["Eemin"] = [draw(logf(*emin, 4)), draw(st.sampled_from(ENERGY))]
    if draw(chance(0.6)):
        lo = max(emax[0], 3 * kw.get("Eemin", [0])[0])
        kw["Eemax"] = [draw(logf(lo, max(emax[1], 10 * lo), 4)),
                       draw(st.sampled_from(ENERGY))]
    if draw(chance(0.85)):
        kw["nEed"] = draw(st.integers(*ned))
    return kw


def limits(kw, emin, emax, ned):
    lo = kw["Eemin"][0] if "Eemin" in kw else emin
    hi = kw["Eemax"][0] if "Eemax" in kw else emax
    return lo, hi, kw.get("nEed", ned)


def ambiguous(lo, hi, n):
    """Number of points of the grid at the mercy of rounding errors."""
    x = n * math.log10(hi / lo)
    return abs(x - round(x)) < 1e-6


def naima_kw(kw):
    return {k: as_unit(*v) if isinstance(v, list) else v for k, v in kw.items()}


def photons(lo, hi, min_size=1, max_size=5):
    """Photon energies in eV: any, and round ones."""
    a, b = math.ceil(math.log10(lo)), math.floor(math.log10(hi))
    e = st.one_of(logf(lo, hi), logf(lo, hi), logf(lo, hi),
                  st.integers(a, b).map(lambda k: float("1e%d" % k)))
    return st.lists(e, min_size=min_size, max_size=max_size, unique=True)


def flux(model, e_ev):
    f = model.flux(rad.ev(e_ev), distance=0)
    return np.atleast_1d(f.to("1/(s eV)").value)


@st.composite
def warm(draw, **extra):
    """An earlier state of the model: evaluated in that one, then given the parameters of
    the case by assignment. None: a new model."""
    if not draw(chance(0.3)):
        return None
    w = {"pd": draw(rad.dists()), "between": draw(st.booleans())}
    w.update({k: draw(v) for k, v in extra.items()})
    return w


def make(cls, pd, kw, w=None, e_ev=(), fixed=(), start=None):
    """A model with the distribution and options given, with or without a past."""
    if not w:
        return cls(rad.dist(pd), **kw)
    m = cls(rad.dist(w["pd"]), **dict(start or {}, **{k: kw[k] for k in fixed if k in kw}))
    flux(m, e_ev)
    m.particle_distribution = rad.dist(pd)
    for k in sorted(kw):
        if k in fixed:
            continue
        if w["between"]:
            try:
                flux(m, e_ev)
            except ValueError:
                pass  # the limits of both states together may be no range
        setattr(m, k, kw[k])
    return m


def seed_ref(s):
    """A seed field of rad.seed_fields for ref.inverse_compton."""
    if s["kind"] == "named":
        return {"CMB": ("iso", 2.72548, None), "FIR": ("iso", 30.0, 0.5),
                "NIR": ("iso", 3000.0, 1.0)}[s["name"]]
    if s["kind"] == "thermal":
        return ("iso", s["T"][0], s["u"][0])
    if s["kind"] == "blackbody":
        return ("iso", s["T"][0], None)
    th = ()
    if "theta" in s:
        th = (s["theta"][0] * {"rad": 1.0, "deg": math.pi / 180, "arcmin": math.pi / 10800,
                               "arcsec": math.pi / 648000,
                               "hourangle": math.pi / 12}[s["theta"][1]],)
    if s["kind"] == "aniso":
        return ("ani", s["T"][0], None if s.get("bb") else s["u"][0]) + th
    if s["kind"] == "mono":
        return ("mono", s["E"][0], s["u"][0]) + th
    e = np.array(s["E"][0])
    return ("array", e, np.array(s["n"][0]) / e ** 2) + th


EMAX = 1e9 * ref.MEC2_EV
