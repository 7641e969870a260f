"""C33: SED conversion."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from naima.utils import sed_conversion

from ..gen import ENERGY_UNITS, chance, logf
from ..harness import Sub
from ..util import close, fail, raises

RULE = (
    "energies, values, units of every supported kind and direction drawn by Hypothesis; "
    "non-trivial: a conversion between forms"
)
ASSUMPTIONS = []
EV = 1.602176634e-12  # erg

# kind: (SED units, differential units, target of SED, target of differential)
KINDS = {
    "flux": (["erg/(s cm2)", "eV/(s m2)", "W/m2", "TeV/(h cm2)"],
             ["1/(s cm2 eV)", "1/(s m2 TeV)", "1/(h cm2 erg)", "1/(s cm2 J)"],
             "erg/(s cm2)", "1/(s cm2 TeV)"),
    "luminosity": (["erg/s", "W", "TeV/h"], ["1/(s eV)", "1/(h TeV)", "1/(s erg)"],
                   "erg/s", "1/(s TeV)"),
    "particles": (["erg", "TeV", "J"], ["1/eV", "1/TeV", "1/erg"], "erg", "1/TeV"),
    "density": (["erg/cm3", "eV/m3", "J/m3"], ["1/(eV cm3)", "1/(TeV m3)", "1/(erg cm3)"],
                "erg/cm3", "1/(TeV cm3)"),
}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    is_sed = draw(st.booleans())
    e = draw(st.lists(logf(1e-6, 1e16), min_size=1, max_size=5))
    return {"kind": kind, "is_sed": is_sed, "sed": draw(st.booleans()),
            "unit": draw(st.sampled_from(KINDS[kind][0 if is_sed else 1])),
            "e": e, "f": [draw(logf(1e-20, 1e20)) for _ in e],
            "eu": draw(st.sampled_from(ENERGY_UNITS)), "scalar": draw(chance(0.15)),
            "eu2": draw(st.sampled_from(ENERGY_UNITS)),
            # whole numbers of energy units, stored as integers
            "int": draw(chance(0.15))}


def convert(e, q, sed, what):
    unit, factor = sed_conversion(e, q.unit, sed)
    if np.shape(factor) != np.shape(e):
        fail("%s: factor of shape %r for energies of shape %r", what, np.shape(factor),
             np.shape(e))
    try:
        return unit, (q * factor).to(unit)
    except u.UnitConversionError:
        fail("%s: %s times %s cannot be converted to %s", what, q.unit,
             getattr(factor, "unit", "1"), unit)


def check(case):
    kind = KINDS[case["kind"]]
    e_ev = np.array(case["e"])
    f = np.array(case["f"])
    if case["scalar"]:
        e_ev, f = e_ev[0], f[0]
    e = (e_ev * u.eV).to(case["eu"])
    if case.get("int"):
        e = u.Quantity(np.clip(np.round(e.value), 1, 10 ** 6), case["eu"], dtype=int)
        e_ev = e.to("eV").value
    q = f * u.Unit(case["unit"])
    before = (e.copy(), q.copy())
    what = "%s to sed=%s" % (case["unit"], case["sed"])
    unit, got = convert(e, q, case["sed"], what)
    target = u.Unit(kind[2 if case["sed"] else 3])
    if unit != target:
        fail("%s: target unit %s, expected %s", what, unit, target)
    # reference: numbers in erg (and cm, s)
    base = u.Unit(kind[2 if case["is_sed"] else 3])
    v = q.to(base).value  # SED in erg..., or differential in 1/TeV...
    erg = e_ev * EV
    sedval = v if case["is_sed"] else v / (1e12 * EV) * erg ** 2
    want = sedval if case["sed"] else sedval / erg ** 2 * (1e12 * EV)
    close(got.value, want, rtol=1e-9, what=what)
    # and back
    unit2, back = convert((e_ev * u.eV).to(case["eu2"]), got, case["is_sed"],
                          what + " and back")
    close(back.to(q.unit).value, f, rtol=1e-9, what=what + " and back")
    # idempotent
    unit3, again = convert(e, got, case["sed"], what + " twice")
    if unit3 != unit:
        fail("%s: converting again changes the unit to %s", what, unit3)
    close(again.value, got.value, rtol=1e-12, what=what + " twice")
    if not (np.all(e == before[0]) and np.all(q == before[1])):
        fail("arguments of sed_conversion modified")
    return case["is_sed"] != case["sed"]


BAD = ["", "cm", "s", "K", "TeV2", "1/(s cm2)", "1/s", "1/cm3", "G", "eV s", "1/(TeV2 s)",
       "1/(TeV2 s cm2)", "TeV cm2", "1/cm2", "kg", "Jy", "erg/(s cm)", "1/(s cm TeV)"]


def check_bad(case):
    e = np.array(case["e"]) * u.TeV
    raises(u.UnitsError, lambda: sed_conversion(e, u.Unit(case["unit"]), case["sed"]),
           "unit %r, sed=%s" % (case["unit"], case["sed"]))


SUBS = [
    Sub("conversion", cases(), check, quick=4000, thorough=30000),
    Sub("other types", st.fixed_dictionaries(
        {"e": st.lists(logf(1e-6, 1e6), min_size=1, max_size=3), "sed": st.booleans(),
         "unit": st.sampled_from(BAD)}), check_bad, quick=160, thorough=1000),
]
