"""C07: inverse Compton on several seed photon fields."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import rad
from ..gen import chance, eu, logf
from ..harness import Sub
from ..util import arr, close, energy_input, fail, qval, raises

RULE = (
    "lists of 1-5 seed photon fields (named, thermal, black body, anisotropic, "
    "monochromatic, tabulated), particle distribution, energies and a sequence of "
    "flux/sed calls by seed name or number, interleaved with calls for the total, "
    "drawn by Hypothesis; non-trivial: two or more seed fields contribute"
)
ASSUMPTIONS = ["radiation constant a = 7.565733e-15 erg cm-3 K-4 (rtol 1e-5)"]


@st.composite
def cases(draw):
    spec = draw(rad.with_energies(classes=["InverseCompton"]))
    spec["kw"]["seeds"] = draw(rad.seed_fields(max_size=5, min_size=2))
    n = len(spec["kw"]["seeds"])
    ops = draw(st.lists(st.tuples(
        st.sampled_from(["flux", "sed"]),
        st.sampled_from(["name", "number", "integer", "total"]),
        st.integers(0, n - 1),
        st.sampled_from(["zero", "default", "3kpc"]),
        st.sampled_from(["array", "dict", "table", "subset"])),
        min_size=1, max_size=8))
    return {"spec": spec, "ops": [list(o) for o in ops], "unit": draw(eu()),
            "perm": draw(st.permutations(list(range(n)))),
            "k": draw(logf(0.01, 100))}


def single(spec, seed, e):
    s = dict(spec, kw=dict(spec["kw"], seeds=[seed]))
    return arr(rad.radiative(s).flux(rad.ev(e), distance=0).to("1/(s eV)").value)


def check(case):
    spec = case["spec"]
    e = np.array(spec["energies"])
    seeds = spec["kw"]["seeds"]
    parts = [single(spec, s, e) for s in seeds]
    total = np.sum(parts, axis=0)
    m = rad.radiative(spec)
    d = {"zero": 0, "default": 1 * u.kpc, "3kpc": 3 * u.kpc}
    for what, how, i, dist, form in case["ops"]:
        want = total if how == "total" else parts[i]
        ee = e
        if form == "subset":
            ee, want = e[:1], want[:1]
            inp = energy_input(ee * 1e-12, case["unit"], "array")
        else:
            inp = energy_input(ee * 1e-12, case["unit"], form)
        kw = {} if dist == "default" else {"distance": d[dist]}
        if how == "name":
            kw["seed"] = seeds[i]["name"]
        elif how == "number":
            kw["seed"] = i
        elif how == "integer":
            kw["seed"] = np.int64(i)
        out = getattr(m, what)(inp, **kw)
        unit = u.Unit("1/(s eV)" if what == "flux" else "erg/s")
        if dist != "zero":
            unit = unit / u.cm ** 2
            want = want / (4 * np.pi * d[dist].to("cm").value ** 2)
        if what == "sed":
            want = want * ee ** 2 * 1.602176634e-12
        if out.unit != unit:
            fail("%s returns units of %s, expected %s", what, out.unit, unit)
        close(qval(out, unit), want, rtol=1e-7, atol=1e-280,
              what="%s of seed %s=%r" % (what, how, seeds[i]["name"]))
    # the order of the seeds does not matter
    s2 = dict(spec, kw=dict(spec["kw"], seeds=[seeds[i] for i in case["perm"]]))
    close(arr(rad.radiative(s2).flux(rad.ev(e), distance=0).to("1/(s eV)").value),
          total, rtol=1e-7, what="flux with the seeds in another order")
    return ["several"] if len(seeds) > 1 and np.sum(
        [np.any(p > 0.01 * np.max(total)) for p in parts]) > 1 else ["trivial"]


NAMED = {
    "CMB": [2.72548, None], "FIR": [30.0, 0.5], "NIR": [3000.0, 1.0],
}


def check_named(case):
    """The meaning of the names, of u=0 and of the string form."""
    spec = case["spec"]
    e = np.array(spec["energies"])
    names = case["names"]
    want = 0
    for n in names:
        T, uu = NAMED[n]
        if uu is None:
            uu = 7.565733e-15 * T ** 4 / 1.602176634e-12
        want = want + single(spec, {"kind": "thermal", "name": "x", "T": [T, "K"],
                                    "u": [uu, "eV/cm3"]}, e)
    pd = rad.dist(spec["pd"])
    kw = {k: rad.mkpar(v) for k, v in spec["kw"].items() if k != "seeds"}
    IC = naima.models.InverseCompton
    forms = [IC(pd, seed_photon_fields=list(names), **kw),
             IC(pd, seed_photon_fields="-".join(names), **kw),
             IC(pd, seed_photon_fields=tuple(names), **kw),
             IC(pd, seed_photon_fields=np.array(names), **kw)]
    if names == ["CMB"]:
        forms.append(IC(pd, **kw))
    for m in forms:
        got = m.flux(rad.ev(e), distance=0).to("1/(s eV)").value
        close(got, want, rtol=2e-5, what="flux with named seeds %r" % names)
    # a black body given without an energy density
    T = case["T"]
    uu = 7.565733e-15 * T ** 4
    close(single(spec, dict({"kind": "blackbody", "name": "x", "T": [T, "K"]}, **case["zero"]), e),
          single(spec, {"kind": "thermal", "name": "x", "T": [T, "K"],
                        "u": [uu / 1.602176634e-12, "erg/cm3"]}, e), rtol=2e-5,
          what="black body of %g K with energy density 0" % T)


@st.composite
def named_cases(draw):
    spec = draw(rad.with_energies(classes=["InverseCompton"]))
    spec["kw"].pop("seeds")
    names = draw(st.one_of(
        st.just(["CMB"]),
        st.lists(st.sampled_from(["CMB", "FIR", "NIR"]), min_size=1, max_size=3,
                 unique=True)))
    return {"spec": spec, "names": names, "T": draw(logf(1, 1e4)),
            "zero": draw(st.sampled_from([{}, {"zero": ""}, {"zero": "eV/cm3"}, {"zero": "J/m3"},
                                          {"zero": "float"}]))}


def check_bad(case):
    spec = case["spec"]
    m = rad.radiative(spec)
    e = rad.ev(spec["energies"])
    n = len(spec["kw"]["seeds"])
    for what in ("flux", "sed"):
        f = getattr(m, what)
        raises(ValueError, lambda: f(e, seed=case["name"]),
               "seed name that is not in the list")
        raises(ValueError, lambda: f(e, seed=n + case["over"]),
               "seed number %d of %d" % (n + case["over"], n))
        raises(ValueError, lambda: f(e, seed=-1 - case["over"]),
               "seed number %d" % (-1 - case["over"]))
    pd = rad.dist(spec["pd"])
    IC = naima.models.InverseCompton
    T, uu, E = 30 * u.K, 1 * u.eV / u.cm ** 3, 1 * u.eV
    bad = {
        "unknown": (TypeError, "UV"),
        "unknown-string": (TypeError, None),
        "short": (TypeError, ["a", T]),
        "long": (TypeError, ["a", T, uu, 1 * u.rad, 3]),
        "negative-T": (ValueError, ["a", -T, uu]),
        "negative-u": (ValueError, ["a", T, -uu]),
        "u-units": (TypeError, ["a", T, 1 * u.eV]),
        "T-units": (TypeError, ["a", 3 * u.cm, uu]),
        "theta-units": (TypeError, ["a", T, uu, 1 * u.cm]),
        "mono-density": (TypeError, ["a", E, 1 / u.cm ** 3]),
        "array-density": (TypeError, ["a", [1, 2] * u.eV, [1, 2] / u.cm ** 3]),
    }
    exc, field = bad[case["field"]]
    raises(TypeError, lambda: IC(pd, seed_photon_fields={"CMB": [T, uu]}), "dict of seed fields")
    name = "A" if case["after"] else "CMB"
    other = [name, T, uu] if case["after"] else name
    raises(ValueError, lambda: IC(pd, seed_photon_fields=[other, "FIR", [name, 2 * T, uu]]),
           "two fields of the same name")
    arg = "CMB-UV" if field is None else [field]
    if case["after"] and field is not None:
        arg = ["CMB", field]
    raises(exc, lambda: IC(pd, seed_photon_fields=arg),
           "seed photon field %s" % case["field"])


SUBS = [
    Sub("decomposition", cases(), check, quick=1200, thorough=10000),
    Sub("named", named_cases(), check_named, quick=160, thorough=1500),
    Sub("rejected", st.fixed_dictionaries({
        "spec": rad.with_energies(classes=["InverseCompton"], max_size=2),
        "name": st.sampled_from(["", "cmb", "XX", "S9"]),
        "over": st.integers(0, 3),
        "after": st.booleans(),
        "field": st.sampled_from([
            "unknown", "unknown-string", "short", "long", "negative-T", "negative-u",
            "u-units", "T-units", "theta-units", "mono-density", "array-density"])}),
        check_bad, quick=80, thorough=600),
]
