"""Particle distributions and radiative models from plain data."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima
from naima.radiative import PionDecayKelner06

from .gen import chance, eu, linf, logf

DIST_PARS = {
    "PowerLaw": ["amplitude", "e_0", "alpha"],
    "ExponentialCutoffPowerLaw": ["amplitude", "e_0", "alpha", "e_cutoff", "beta"],
    "BrokenPowerLaw": ["amplitude", "e_0", "e_break", "alpha_1", "alpha_2"],
    "LogParabola": ["amplitude", "e_0", "alpha", "beta"],
    "ExponentialCutoffBrokenPowerLaw": [
        "amplitude", "e_0", "e_break", "alpha_1", "alpha_2", "e_cutoff", "beta"],
}
AMP = ["1/eV", "1/TeV", "1/erg", "1/GeV"]


def q(v):
    """[value, unit] -> Quantity."""
    return v[0] * u.Unit(v[1])


def par_value(kind, p):
    """Strategy of one parameter: plain number or [value, unit]."""
    if p == "amplitude":
        return st.tuples(logf(1e30, 1e42), st.sampled_from(AMP)).map(list)
    if p == "e_0":
        return st.tuples(logf(0.01, 30.0), st.just("TeV")).map(list)
    if p == "e_cutoff":
        return st.tuples(logf(0.3, 300.0), st.just("TeV")).map(list)
    if p == "e_break":
        return st.tuples(logf(0.01, 100.0), st.just("TeV")).map(list)
    if p == "beta":
        return linf(0.0, 0.15) if kind == "LogParabola" else linf(0.5, 2.0)
    return linf(1.4, 3.6, 3)


@st.composite
def dists(draw, kinds=None, callables=True):
    kind = draw(st.sampled_from(kinds or sorted(DIST_PARS)))
    d = {"kind": kind, "pars": {p: draw(par_value(kind, p)) for p in DIST_PARS[kind]}}
    # as a naima model, or hidden behind a plain function
    d["wrap"] = draw(st.sampled_from(["", "", "", "function"])) if callables else ""
    return d


def mkpar(v):
    return q(v) if isinstance(v, (list, tuple)) else v


def dist(spec):
    m = getattr(naima.models, spec["kind"])(
        **{p: mkpar(v) for p, v in spec["pars"].items()})
    if spec.get("wrap") == "function":
        return lambda e: m(e)
    return m


SEEDS_NAMED = ["CMB", "FIR", "NIR"]


@st.composite
def seed_fields(draw, max_size=4, min_size=1, kinds=("named", "thermal", "blackbody", "aniso",
                                         "mono", "array")):
    n = draw(st.integers(min_size, max_size))
    out = []
    names = set()
    for i in range(n):
        kind = draw(st.sampled_from(kinds))
        if kind == "named":
            name = draw(st.sampled_from(SEEDS_NAMED))
            if name in names:
                name = next(x for x in SEEDS_NAMED + ["S%d" % i] if x not in names)
            if name in SEEDS_NAMED:
                names.add(name)
                out.append({"kind": "named", "name": name})
                continue
            kind = "thermal"
        name = "S%d" % i
        s = {"kind": kind, "name": name}
        if kind in ("thermal", "blackbody", "aniso"):
            s["T"] = [draw(logf(1.0, 3e4, 4)), "K"]
            if draw(chance(0.15)):
                s["tunit"] = draw(st.sampled_from(["mK", "kK", "MK"]))
            s["u"] = [draw(logf(0.03, 30.0, 4)), draw(st.sampled_from(
                ["eV/cm3", "eV/cm3", "erg/cm3", "J/m3"]))]
            if kind == "aniso":
                s["theta"] = draw(angles())
                if draw(chance(0.2)):
                    s["bb"] = True
            if kind == "blackbody" or s.get("bb"):
                s["zero"] = draw(st.sampled_from([None, None, "float", "eV/cm3", "J/m3"]))
        elif kind == "mono":
            s["E"] = [draw(logf(1e-3, 1e3, 4)), "eV"]
            s["u"] = [draw(logf(0.03, 30.0, 4)), draw(st.sampled_from(
                ["eV/cm3", "erg/cm3", "J/m3"]))]
        else:
            e0 = draw(logf(1e-4, 1e2, 3))
            n = draw(st.integers(2, 8))
            dec = draw(linf(0.2, 3.0, 3))
            s["E"] = [[float("%.5g" % (e0 * 10 ** (dec * k / (n - 1)))) for k in range(n)],
                      draw(st.sampled_from(["eV", "keV", "erg"]))]
            # energy density per logarithm of energy, in eV/cm3
            s["n"] = [draw(st.lists(logf(0.03, 30.0, 4), min_size=n, max_size=n)),
                      draw(st.sampled_from(["1/(eV cm3)", "1/(erg cm3)",
                                            "eV/cm3", "erg/cm3"]))]
        if kind in ("mono", "array") and draw(chance(0.25)):
            s["theta"] = draw(angles())
        out.append(s)
    return out


def angles():
    return st.one_of(
        st.tuples(linf(10, 180), st.just("deg")),
        st.tuples(st.one_of(linf(-180, -10), linf(180, 350)), st.just("deg")),
        st.tuples(linf(0.2, 3.1), st.just("rad")),
        st.tuples(linf(600, 10800), st.just("arcmin")),
        st.tuples(linf(36000, 648000), st.just("arcsec")),
        st.tuples(linf(0.5, 12), st.just("hourangle"))).map(list)


def mkseed(s):
    """The numbers of a seed are in eV and eV/cm3; its units only say how they
    are written."""
    if s["kind"] == "named":
        return s["name"]
    uu = (s["u"][0] * u.eV / u.cm ** 3).to(s["u"][1]) if "u" in s else 0
    temp = q(s["T"]).to(s.get("tunit", "K")) if "T" in s else None
    if s["kind"] == "thermal":
        return [s["name"], temp, uu]
    zero = {None: 0, "float": 0.0}.get(s.get("zero"))
    if zero is None:
        zero = 0 * u.Unit(s["zero"])
    if s["kind"] == "blackbody":
        return [s["name"], temp, zero]
    if s["kind"] == "aniso":
        return [s["name"], temp, zero if s.get("bb") else uu, q(s["theta"])]
    angle = [q(s["theta"])] if "theta" in s else []
    if s["kind"] == "mono":
        return [s["name"], q(s["E"]), uu] + angle
    e = np.array(s["E"][0]) * u.eV
    n = np.array(s["n"][0]) * u.eV / u.cm ** 3
    unit = u.Unit(s["n"][1])
    if unit.physical_type != u.Unit("eV/cm3").physical_type:
        n = n / e ** 2
    return [s["name"], e.to(s["E"][1]), n.to(unit)] + angle


def seeds_arg(seeds):
    return [mkseed(s) for s in seeds]


CLASSES = {
    "Synchrotron": naima.models.Synchrotron,
    "InverseCompton": naima.models.InverseCompton,
    "Bremsstrahlung": naima.models.Bremsstrahlung,
    "PionDecay": naima.models.PionDecay,
    "PionDecayKelner06": PionDecayKelner06,
}
ALL = ["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"]

# photon energies [eV] where each process emits
PHOTON = {
    "Synchrotron": (1e-5, 1e6),
    "InverseCompton": (1e3, 3e14),
    "Bremsstrahlung": (1e7, 1e14),
    "PionDecay": (1.01e7, 9.9e14),
    "PionDecayKelner06": (1e8, 1e14),
}


@st.composite
def radiatives(draw, classes=ALL, ned=(10, 40), lut=True, **kwd):
    cls = draw(st.sampled_from(classes))
    kw = {}
    if cls == "Synchrotron":
        kw["B"] = draw(st.tuples(logf(0.1, 1e6), st.sampled_from(["uG"])).map(list))
        if draw(chance(0.3)):
            kw["B"] = draw(st.tuples(logf(1e-10, 1e-5), st.just("mT")).map(list))
    if cls == "InverseCompton":
        kw["seeds"] = draw(seed_fields(max_size=3))
    if cls in ("Synchrotron", "InverseCompton", "Bremsstrahlung"):
        kw["nEed"] = draw(st.integers(*ned))
        if draw(chance(0.5)):
            kw["Eemin"] = draw(st.sampled_from(
                [[100.0, "MeV"], [1.0, "GeV"], [10.0, "GeV"], [0.3, "TeV"], [1e-3, "erg"]]))
        if draw(chance(0.5)):
            kw["Eemax"] = draw(st.sampled_from(
                [[10.0, "TeV"], [100.0, "TeV"], [510.0, "TeV"], [1.0, "PeV"]]))
    if cls == "Bremsstrahlung":
        kw["n0"] = [draw(logf(1e-3, 1e4)), draw(st.sampled_from(["1/cm3", "1/m3"]))]
        if draw(chance(0.3)):
            kw["weight_ee"] = draw(linf(0, 3))
        if draw(chance(0.3)):
            kw["weight_ep"] = draw(linf(0, 3))
    if cls == "PionDecay":
        kw["nh"] = [draw(logf(1e-3, 1e4)), draw(st.sampled_from(["1/cm3", "1/m3"]))]
        kw["nEpd"] = draw(st.integers(*ned))
        if draw(chance(0.4)):
            kw["Epmax"] = draw(st.sampled_from(
                [[10.0, "TeV"], [100.0, "TeV"], [1.0, "PeV"]]))
        if draw(chance(0.2)):
            kw["Epmin"] = draw(st.sampled_from([[2.0, "GeV"], [0.1, "TeV"]]))
        if not lut or draw(chance(0.5)):
            kw["useLUT"] = False
            kw["hiEmodel"] = draw(st.sampled_from(
                ["Pythia8", "Geant4", "SIBYLL", "QGSJET"]))
            kw["nuclear_enhancement"] = draw(st.booleans())
    if cls == "PionDecayKelner06":
        kw["nh"] = [draw(logf(1e-3, 1e4)), draw(st.sampled_from(["1/cm3", "1/m3"]))]
    return {"cls": cls, "kw": kw, "pd": draw(dists(**kwd))}


def radiative(spec, pd=None):
    kw = dict(spec["kw"])
    if pd is None:
        pd = dist(spec["pd"])
    args = {}
    if "seeds" in kw:
        args["seed_photon_fields"] = seeds_arg(kw.pop("seeds"))
    for k, v in kw.items():
        args[k] = mkpar(v)
    return CLASSES[spec["cls"]](pd, **args)


def photon_energies(cls, min_size=1, max_size=5):
    lo, hi = PHOTON[cls]
    e = logf(lo, hi)
    # a few above every particle energy: no emission
    e = st.one_of(*[e] * 12, logf(1.1e15, 1e17)) if cls != "Synchrotron" else e
    return st.lists(e, min_size=min_size, max_size=max_size, unique=True)


@st.composite
def with_energies(draw, max_size=5, min_size=1, **kw):
    spec = draw(radiatives(**kw))
    spec["energies"] = draw(photon_energies(spec["cls"], min_size, max_size))
    return spec


def ev(energies, unit="eV"):
    return (np.asarray(energies, dtype=float) * u.eV).to(unit)
