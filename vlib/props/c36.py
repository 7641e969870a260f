"""C36: parameters of radiative models of the wrong physical type."""
import warnings

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from .. import rad
from ..gen import chance, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "radiative class, parameter, value and unit of the same or another physical type, given to "
    "the constructor or assigned to a model (evaluated before or not), and particle "
    "distributions of any physical type, drawn by Hypothesis; non-trivial: all cases"
)
ASSUMPTIONS = ["a parameter assigned to a model may be rejected when the model is evaluated"]

PARS = {
    "Synchrotron": {"B": "B", "Eemin": "energy", "Eemax": "energy"},
    "InverseCompton": {"Eemin": "energy", "Eemax": "energy"},
    "Bremsstrahlung": {"n0": "density", "Eemin": "energy", "Eemax": "energy"},
    "PionDecay": {"nh": "density", "Epmin": "energy", "Epmax": "energy"},
    "PionDecayKelner06": {"nh": "density", "Etrans": "energy"},
}
GOOD = {"B": {"uG": 1.0, "G": 1e-6, "nT": 0.1, "T": 1e-10, "mG": 1e-3},
        "density": {"1/cm3": 1.0, "1/m3": 1e6, "1/pc3": 3.0856775814913673e18 ** 3,
                    "1/km3": 1e15},
        "energy": {"eV": 1e9, "MeV": 1e3, "GeV": 1.0, "TeV": 1e-3, "erg": 1.602176634e-3,
                   "J": 1.602176634e-10}}
# of all parameters, in the reference unit (uG, 1/cm3, GeV)
VALUE = {"B": (1e-1, 1e3), "n0": (1e-3, 1e3), "nh": (1e-3, 1e3), "Eemin": (1.0, 100.0),
         "Eemax": (1e4, 1e6), "Epmin": (1.3, 100.0), "Epmax": (1e4, 1e6), "Etrans": (20, 1000)}
ALIEN = ["", "cm", "s", "K", "g", "1/cm2", "1/s", "eV", "TeV", "erg/s", "uG", "1/cm3", "g/cm3",
         "eV/cm3", "1/eV", "A/m", "V/m", "cm3", "uG2", "erg/cm3", "m/s", "G cm", "deg", "1/cm",
         "1/(cm3 s)", "GeV2", "mag", "pc"]
REF = {"B": u.G, "density": u.cm ** -3, "energy": u.eV}


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(sorted(PARS)))
    par = draw(st.sampled_from(sorted(PARS[cls])))
    typ = PARS[cls][par]
    return {"cls": cls, "par": par, "value": draw(logf(*VALUE[par])),
            "good": draw(st.sampled_from(sorted(GOOD[typ]))),
            "bad": draw(st.sampled_from(ALIEN + ["number", "int"] * 5)),
            "assigned": draw(st.booleans()), "before": draw(st.booleans()),
            "sed": draw(st.booleans()), "energy": draw(logf(1.0, 20.0, 3)),
            "lut": draw(st.booleans()), "pd": draw(rad.dists(
                kinds=["PowerLaw", "ExponentialCutoffPowerLaw"], callables=False))}


def evaluate(case, value, assigned):
    kw = {"nEed": 10} if case["cls"] in ("Synchrotron", "InverseCompton", "Bremsstrahlung") else (
        {"nEpd": 10, "useLUT": case["lut"]} if case["cls"] == "PionDecay" else {})
    cls = rad.CLASSES[case["cls"]]
    pd = rad.dist(case["pd"])
    scale = 1e-6 if case["cls"] == "Synchrotron" else 1.0
    e = [case["energy"] * scale] * u.GeV

    def spectrum(m):
        f = (m.sed if case["sed"] else m.flux)(e, distance=0)
        return f.to("erg/s" if case["sed"] else "1/(s eV)").value

    if assigned:
        m = cls(pd, **kw)
        if case["before"]:
            spectrum(m)
        setattr(m, case["par"], value)
    else:
        m = cls(pd, **dict(kw, **{case["par"]: value}))
    return spectrum(m)


def check(case):
    typ = PARS[case["cls"]][case["par"]]
    ref = {"B": "uG", "density": "1/cm3", "energy": "GeV"}[typ]
    v = case["value"]
    want = evaluate(case, v * u.Unit(ref), False)
    got = evaluate(case, v * GOOD[typ][case["good"]] * u.Unit(case["good"]), case["assigned"])
    what = "%s.%s" % (case["cls"], case["par"])
    close(got, want, rtol=1e-6, atol=1e-100, what="spectrum with %s in %s" % (what, case["good"]))
    if case["bad"] == "number":
        bad = v
    elif case["bad"] == "int":
        bad = int(v) + 1
    else:
        unit = u.Unit(case["bad"])
        if unit.is_equivalent(REF[typ]):
            return True
        bad = v * unit
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            out = evaluate(case, bad, case["assigned"])
        except Exception:
            return True
    fail("%s = %r is accepted (%s): %r", what, bad,
         "assigned" if case["assigned"] else "given to the constructor", out.tolist())


class Plain:
    """A user's distribution."""

    def __init__(self, unit):
        self.unit = unit

    def __call__(self, e):
        x = 1e36 * u.Quantity(e).to("TeV").value ** -2.5
        return x if self.unit is None else x * self.unit


@st.composite
def pd_cases(draw):
    return {"cls": draw(st.sampled_from(sorted(PARS))),
            "unit": draw(st.sampled_from(ALIEN + ["number", "1/(TeV s)", "1/(cm2 s TeV)",
                                                  "1/(eV cm3)", "1/TeV2", "1/K", "s/eV"])),
            "plain": draw(st.booleans()), "assigned": draw(st.booleans()),
            "before": draw(st.booleans()), "energy": draw(logf(1.0, 20.0, 3)),
            "lut": draw(st.booleans()),
            "what": draw(st.sampled_from(["flux", "sed", "content", "content"]))}


def check_pd(case):
    """Distributions that are not particles per energy."""
    unit = None if case["unit"] == "number" else u.Unit(case["unit"])
    if unit is not None and unit.is_equivalent(1 / u.eV):
        return False
    cls = rad.CLASSES[case["cls"]]
    kw = {"useLUT": case["lut"]} if case["cls"] == "PionDecay" else {}
    good = rad.dist({"kind": "PowerLaw", "pars": {"amplitude": [1e36, "1/eV"], "e_0": [1.0, "TeV"],
                                                  "alpha": 2.5}})
    e = [case["energy"]] * u.GeV

    def use(m):
        if case["what"] != "content":
            return getattr(m, case["what"])(e)
        return m.We if hasattr(cls, "We") else m.Wp

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if case["assigned"]:
            m = cls(good, **kw)
            if case["before"]:
                use(m)
        try:
            bad = Plain(unit) if case["plain"] or unit is None else rad.naima.models.PowerLaw(
                1e36 * unit, 1 * u.TeV, 2.5)
            if case["assigned"]:
                m.particle_distribution = bad
            else:
                m = cls(bad, **kw)
            out = use(m)
        except Exception:
            return True
    fail("%s of a particle distribution in %s is %r (%s)", case["what"], case["unit"], out,
         case["cls"])


SUBS = [Sub("parameters", cases(), check, quick=640, thorough=8000),
        Sub("distributions", pd_cases(), check_pd, quick=480, thorough=6000)]
