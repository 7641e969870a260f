"""C01: spectral model functions equal their documented formulas."""
import math

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from ..gen import chance, eu, linf, logf
from ..harness import Sub
from ..util import arr, close, energy_input, fail, qval

RULE = (
    "model class, parameter values, units of every parameter and of the "
    "energies, input form and a sequence of parameter reassignments are drawn "
    "by Hypothesis; non-trivial: at least one energy differs from the reference "
    "energy (the formula does not reduce to the amplitude)"
)
ASSUMPTIONS = ["reference formulas evaluated in logarithms with math.*, rtol 1e-9 "
               "scaled by the size of the exponents"]

AMP_UNITS = ["1/eV", "1/TeV", "1/(cm2 s TeV)", "1/(cm3 eV)", "erg/(cm2 s)", ""]
FORMS = ["array", "array", "scalar", "dict", "table", "qtable", "list"]
INDEX = linf(-4.0, 6.0)
ETEV = logf(1e-9, 1e4)

PARS = {
    "PowerLaw": ["amplitude", "e_0", "alpha"],
    "ExponentialCutoffPowerLaw": ["amplitude", "e_0", "alpha", "e_cutoff", "beta"],
    "BrokenPowerLaw": ["amplitude", "e_0", "e_break", "alpha_1", "alpha_2"],
    "LogParabola": ["amplitude", "e_0", "alpha", "beta"],
    "ExponentialCutoffBrokenPowerLaw": [
        "amplitude", "e_0", "e_break", "alpha_1", "alpha_2", "e_cutoff", "beta"],
}


def par_strategy(model, p):
    if p == "amplitude":
        return st.tuples(logf(1e-15, 1e40), st.sampled_from(AMP_UNITS))
    if p.startswith("e_"):
        return st.tuples(ETEV, eu())
    if p == "beta" and model == "LogParabola":
        return linf(-0.5, 1.0)
    if p == "beta":
        return linf(0.3, 3.0)
    return INDEX


@st.composite
def cases(draw):
    model = draw(st.sampled_from(sorted(PARS)))
    pars = {p: draw(par_strategy(model, p)) for p in PARS[model]}
    e0 = pars["e_0"][0]
    special = [pars[p][0] for p in pars if p.startswith("e_")]
    near = st.sampled_from(special).flatmap(
        lambda s: st.sampled_from([s, s * 1.001, s * 0.999, s * 1.5, s / 3.0]))
    ens = draw(st.lists(
        st.one_of(logf(1e-9, 1e4), near, logf(1e-3, 1e3).map(lambda x: x * e0)),
        min_size=1, max_size=7))
    npar = draw(st.integers(0, 3))
    changes = []
    for _ in range(npar):
        p = draw(st.sampled_from(PARS[model]))
        changes.append([p, draw(par_strategy(model, p))])
    return {
        "model": model,
        "pars": pars,
        "energies": ens,
        "unit": draw(eu()),
        "form": draw(st.sampled_from(FORMS)),
        "changes": changes,
        "default_beta": draw(chance(0.2)),
    }


def ref(model, p, e):
    """Natural logarithm of f(E)/amplitude and the size of its terms."""
    lx = math.log(e / p["e_0"])
    if model == "PowerLaw":
        t = [-p["alpha"] * lx]
    elif model == "ExponentialCutoffPowerLaw":
        t = [-p["alpha"] * lx, -((e / p["e_cutoff"]) ** p["beta"])]
    elif model == "LogParabola":
        t = [-p["alpha"] * lx, -p["beta"] * lx * lx]
    else:
        if e < p["e_break"]:
            t = [-p["alpha_1"] * lx]
        else:
            t = [(p["alpha_2"] - p["alpha_1"]) * math.log(p["e_break"] / p["e_0"]),
                 -p["alpha_2"] * lx]
        if model.startswith("Exp"):
            t.append(-((e / p["e_cutoff"]) ** p["beta"]))
    return sum(t), 1.0 + sum(abs(x) for x in t)


def to_obj(p, v):
    if p == "amplitude":
        return v[0] * u.Unit(v[1])
    if p.startswith("e_"):
        return (v[0] * u.TeV).to(v[1])
    return v


def check(case):
    name = case["model"]
    pars = dict(case["pars"])
    default_beta = case["default_beta"] and name.startswith("Exp")
    if default_beta:
        pars["beta"] = 1.0
    objs = {p: to_obj(p, v) for p, v in pars.items()}
    kw = dict(objs)
    if default_beta:
        del kw["beta"]
    model = getattr(naima.models, name)(**kw)
    evaluate(name, model, pars, objs, case)
    for p, v in case["changes"]:
        pars[p] = v
        objs[p] = to_obj(p, v)
        setattr(model, p, objs[p])
        evaluate(name, model, pars, objs, case)
    return any(abs(e / pars["e_0"][0] - 1) > 1e-9 for e in case["energies"])


def evaluate(name, model, pars, objs, case):
    inp = energy_input(case["energies"], case["unit"], case["form"])
    ens = case["energies"][:1] if case["form"] == "scalar" else case["energies"]
    out = model(inp)
    unit = objs["amplitude"].unit
    got = qval(out, unit, name)
    shape = () if case["form"] == "scalar" else (len(ens),)
    if np.shape(out) != shape:
        fail("%s: shape of the result %s for an input of shape %s",
             name, np.shape(out), shape)
    plain = {p: (v[0] if isinstance(v, (list, tuple)) else v)
             for p, v in pars.items()}
    for g, e in zip(arr(got), ens):
        le, size = ref(name, plain, e)
        le += math.log(plain["amplitude"])
        # nor may any of the factors lose digits by underflow
        size += abs(math.log(plain["amplitude"]))
        if not -690 < le < 700 or size > 690:  # not a normal float: just no nan
            if not (g >= 0):
                fail("%s(%g TeV) = %r", name, e, g)
            continue
        close(g, math.exp(le), rtol=2e-11 * (20 + size + abs(le)),
              what="%s(%r TeV) with %r" % (name, e, plain))
    # the parameters are as given
    for p, o in objs.items():
        now = getattr(model, p)
        if isinstance(o, u.Quantity):
            if now.unit != o.unit or np.any(now.value != to_obj(p, pars[p]).value):
                fail("%s: parameter %s changed by a call: %r", name, p, now)
        elif now != o:
            fail("%s: parameter %s changed by a call: %r", name, p, now)


def domain_check(case):
    """Energies that are not energies are refused; negative scales too."""
    from ..util import raises

    name = case["model"]
    objs = {p: to_obj(p, v) for p, v in case["pars"].items()}
    cls = getattr(naima.models, name)
    model = cls(**objs)
    bad = case["bad"]
    if bad == "call_unit":
        raises(TypeError, lambda: model([1.0, 2.0] * u.Unit(case["badunit"])),
               "%s called with %s" % (name, case["badunit"]))
    elif bad == "call_plain":
        raises(TypeError, lambda: model(3.0), "%s called with a float" % name)
    else:
        p = case["scale"]
        if p not in objs:
            p = "e_0"
        if bad == "par_unit":
            objs[p] = 1.0 * u.Unit(case["badunit"])
            raises(TypeError, lambda: cls(**objs), "%s(%s=%s)" % (name, p, objs[p]))
        else:
            objs[p] = -objs[p]
            raises(ValueError, lambda: cls(**objs), "%s(%s=%s)" % (name, p, objs[p]))


@st.composite
def bad_cases(draw):
    c = draw(cases())
    return {
        "model": c["model"], "pars": c["pars"],
        "bad": draw(st.sampled_from(["call_unit", "call_plain", "par_unit", "neg"])),
        "badunit": draw(st.sampled_from(["cm", "s", "1/eV", "K", "TeV2", ""])),
        "scale": draw(st.sampled_from(["e_0", "e_break", "e_cutoff"])),
    }


SUBS = [
    Sub("formula", cases(), check, quick=2400, thorough=60000),
    Sub("domain", bad_cases(), domain_check, quick=240, thorough=2000),
]
