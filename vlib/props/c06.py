"""C06: results do not depend on the history (transparent caching)."""
import copy

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from .. import rad
from ..gen import chance, logf
from ..harness import Sub
from ..util import arr, close, fail

TECHNIQUE = ("stateful property-based testing (Hypothesis): generated histories of "
             "changes, evaluations and in-place modifications, compared after every "
             "step with a freshly built model")
RULE = (
    "2 particle distributions shared by 1-3 radiative models, 3 energy arrays and a "
    "history of up to 14 operations drawn by Hypothesis: flux/sed (total or one seed), "
    "parameter changes, replacement of the distribution, set_We/set_Wp, modification "
    "of returned arrays, of the energies and of seed fields; non-trivial: a model is "
    "evaluated at least twice with some change in between"
)
ASSUMPTIONS = [
    "PionDecay documents that useLUT becomes False when no table exists for the "
    "chosen options; the reference model follows the attribute",
]
EN = [
    {"v": [1.0, 20.0, 400.0], "unit": "GeV"},
    {"v": [1.0, 20.0, 400.0], "unit": "TeV"},
    {"v": [20.0, 20.0, 1.0, 5.0], "unit": "GeV"},
    {"v": [1.0], "unit": "GeV"},
    {"v": 1.0, "unit": "GeV"},  # scalar
    {"v": [0.02, 0.5, 7.0], "unit": "keV"},
    {"v": [0.02, 0.5, 7.0], "unit": "MeV"},
]
PD_KINDS = ["PowerLaw", "ExponentialCutoffPowerLaw", "BrokenPowerLaw",
            "ExponentialCutoffBrokenPowerLaw", "LogParabola"]
# few values, some of them almost equal, so that histories revisit states
POOL = {
    "amplitude": [[1e36, "1/eV"], [1e36, "1/TeV"], [1.00000001e36, "1/eV"],
                  [1e48, "1/TeV"], [3e35, "1/eV"]],
    "e_0": [[1.0, "TeV"], [1.0, "GeV"], [1.00000002, "TeV"]],
    "e_cutoff": [[10.0, "TeV"], [10.0, "GeV"], [10.0000003, "TeV"]],
    "e_break": [[1.0, "TeV"], [10.0, "TeV"]],
    "alpha": [2.0, 2.5, 2.00000001], "alpha_1": [2.0, 2.5], "alpha_2": [2.5, 2.0],
    "beta": [1.0, 0.5],
    "B": [[10.0, "uG"], [10.0, "mG"], [10.0000001, "uG"]],
    "Eemin": [[1.0, "GeV"], [1.0, "TeV"], [100.0, "GeV"]],
    "Eemax": [[100.0, "TeV"], [510.0, "TeV"]],
    "nEed": [10, 20, 21],
    "n0": [[1.0, "1/cm3"], [1.0, "1/m3"], [1.00000001, "1/cm3"]],
    "weight_ee": [1.0, 0.0, 1.088], "weight_ep": [1.0, 0.0, 1.263],
    "nh": [[1.0, "1/cm3"], [1.0, "1/m3"], [1.00000001, "1/cm3"]],
    "Epmax": [[1.0, "PeV"], [10.0, "TeV"]], "nEpd": [10, 20],
    "hiEmodel": ["Pythia8", "Geant4", "QGSJET", "SIBYLL"],
    "useLUT": [True, False], "nuclear_enhancement": [True, False],
}
ATTRS = {
    "Synchrotron": ["B", "Eemin", "Eemax", "nEed"],
    "InverseCompton": ["Eemin", "Eemax", "nEed"],
    "Bremsstrahlung": ["n0", "weight_ee", "weight_ep", "Eemin", "Eemax", "nEed"],
    "PionDecay": ["nh", "Epmax", "nEpd", "hiEmodel", "useLUT", "nuclear_enhancement"],
}
SEEDS = [
    {"kind": "thermal", "name": "A", "T": [30.0, "K"], "u": [0.5, "eV/cm3"]},
    {"kind": "aniso", "name": "B", "T": [3000.0, "K"], "u": [1.0, "eV/cm3"],
     "theta": [60.0, "deg"]},
    {"kind": "mono", "name": "C", "E": [1.0, "eV"], "u": [1.0, "eV/cm3"]},
    {"kind": "array", "name": "D",
     "E": [[float(x) for x in np.round(np.logspace(0, 2, 12), 4)], "eV"],
     "n": [[1.0 + 0.01 * k for k in range(12)], "1/(eV cm3)"]},
    {"kind": "named", "name": "CMB"},
]


def pool(p):
    return st.sampled_from(POOL[p])


@st.composite
def pd_strategy(draw):
    kind = draw(st.sampled_from(PD_KINDS))
    return {"kind": kind,
            "pars": {p: draw(pool(p)) for p in rad.DIST_PARS[kind]},
            "wrap": draw(st.sampled_from(["", "", "", "custom", "customp"]))}


@st.composite
def model_strategy(draw, npd):
    cls = draw(st.sampled_from(sorted(ATTRS)))
    kw = {}
    for a in ATTRS[cls]:
        if draw(chance(0.5)):
            kw[a] = draw(pool(a))
    kw.setdefault("nEpd" if cls == "PionDecay" else "nEed", 10)
    if cls == "InverseCompton":
        kw["seeds"] = draw(st.lists(st.sampled_from(SEEDS), min_size=1, max_size=3,
                                    unique_by=lambda s: s["name"]))
    return {"cls": cls, "kw": kw, "pd": draw(st.integers(0, npd - 1))}


@st.composite
def histories(draw):
    pds = [draw(pd_strategy()), draw(pd_strategy())]
    models = draw(st.lists(model_strategy(2), min_size=1, max_size=3))
    ens = draw(st.lists(st.sampled_from(EN), min_size=2, max_size=3))
    ops = []
    ev = st.tuples(
        st.just("eval"), st.integers(0, len(models) - 1),
        st.sampled_from(["flux", "flux", "sed"]), st.integers(0, len(ens) - 1),
        st.sampled_from([0, 1, 1, 1.00000002, 3]), st.sampled_from([None, None, 0, 1, 2]))
    for _ in range(draw(st.integers(2, 14))):
        o = draw(st.sampled_from(["eval", "eval", "probe", "probe", "pd", "model", "swap", "out",
                                  "in", "seed", "content"]))
        if o == "eval":
            ops.append(list(draw(ev)))
        elif o == "probe":  # the same evaluation before and after one change
            e = list(draw(ev))
            ops.append(e)
            m = models[e[1]]
            pd = pds[m["pd"]]
            pars = [["model", e[1], a] for a in ATTRS[m["cls"]]] + [
                ["pd", m["pd"], p] for p in rad.DIST_PARS[pd["kind"]]]
            c = draw(st.sampled_from(pars))
            ops.append(c + [draw(pool(c[2]))])
            ops.append(list(e))
        elif o == "pd":
            k = draw(st.integers(0, 1))
            p = draw(st.sampled_from(rad.DIST_PARS[pds[k]["kind"]]))
            ops.append(["pd", k, p, draw(pool(p))])
        elif o == "model":
            k = draw(st.integers(0, len(models) - 1))
            a = draw(st.sampled_from(ATTRS[models[k]["cls"]]))
            ops.append(["model", k, a, draw(pool(a))])
        elif o == "swap":
            ops.append(["swap", draw(st.integers(0, len(models) - 1)),
                        draw(st.integers(0, 1))])
        elif o == "out":
            ops.append(["out", draw(st.integers(0, 3)),
                        draw(st.sampled_from(["scale", "zero"]))])
        elif o == "in":
            ops.append(["in", draw(st.integers(0, len(ens) - 1)),
                        draw(st.integers(0, 3))])
        elif o == "seed":
            ops.append(["seed", draw(st.integers(0, len(models) - 1)),
                        draw(st.integers(0, 2)), draw(st.integers(0, 11)),
                        draw(st.sampled_from([2.0, 0.5, 1.00000001]))])
        else:
            ops.append(["content", draw(st.integers(0, len(models) - 1)),
                        draw(st.sampled_from([1e47, 1e48]))])
    # end with an evaluation of everything
    return {"pds": pds, "models": models, "energies": ens, "ops": ops,
            "final": draw(st.booleans())}


class Custom:
    """A user's distribution: no param_names, mutable."""

    def __init__(self, f):
        self.f = f

    def __call__(self, e):
        return self.f(e)

    def __setattr__(self, k, v):
        if k == "f":
            object.__setattr__(self, k, v)
        else:
            setattr(self.f, k, v)


class CustomP:
    """A user's distribution with the param_names of naima models."""

    def __init__(self, f):
        self.__dict__["f"] = f
        self.__dict__["param_names"] = list(f.param_names)

    def __call__(self, e):
        return self.f(e)

    def __getattr__(self, k):
        return getattr(self.__dict__["f"], k)

    def __setattr__(self, k, v):
        setattr(self.f, k, v)


def build_pd(spec):
    d = rad.dist({"kind": spec["kind"], "pars": spec["pars"]})
    return {"": lambda x: x, "custom": Custom, "customp": CustomP}[spec["wrap"]](d)


def check(case):
    state = copy.deepcopy(case)
    pds = [build_pd(s) for s in state["pds"]]
    models = []
    # amplitudes changed by set_We/set_Wp, not representable as [value, unit]
    for m in state["models"]:
        models.append(rad.radiative({"cls": m["cls"], "kw": m["kw"]}, pd=pds[m["pd"]]))
    ens = []
    for e in state["energies"]:
        ens.append(u.Quantity(np.array(e["v"], dtype=float), e["unit"]))
    results = []  # (returned object, copy)
    evals = [0] * len(models)
    changed_after_eval = False
    dirty = [False] * len(models)

    def fresh(mi):
        m = state["models"][mi]
        return rad.radiative({"cls": m["cls"], "kw": m["kw"]},
                             pd=build_pd(state["pds"][m["pd"]]))

    def evaluate(mi, what, ei, d, seed):
        nonlocal changed_after_eval
        m = state["models"][mi]
        kw = {"distance": 0 if d == 0 else d * u.kpc}
        if m["cls"] == "InverseCompton" and seed is not None:
            names = [s["name"] for s in m["kw"]["seeds"]]
            seed = seed % len(names)
            kw["seed"] = seed if ei % 2 else names[seed]
        e_before = ens[ei].copy()
        got = getattr(models[mi], what)(ens[ei], **kw)
        if np.any(ens[ei] != e_before):
            fail("%s changed the energies passed", what)
        f = fresh(mi)
        want = getattr(f, what)(e_before, **kw)
        if m["cls"] == "PionDecay":
            # switched off when there is no table (not if the result is a cached one)
            if f.useLUT and not models[mi].useLUT:
                fail("useLUT is %s, %s in a new model", models[mi].useLUT, f.useLUT)
            m["kw"]["useLUT"] = bool(models[mi].useLUT)
        if got.unit != want.unit:
            fail("units %s, %s in a new model", got.unit, want.unit)
        close(got.value, want.value, rtol=1e-10, atol=1e-290,
              what="%s of model %d (%s), against a new model" % (what, mi, m["cls"]))
        for o, c in results:
            if o is got or np.shares_memory(np.asarray(o), np.asarray(got)):
                fail("a returned array shares memory with an earlier result")
        results.append((got, got.copy()))
        evals[mi] += 1
        if evals[mi] > 1 and dirty[mi]:
            changed_after_eval = True
        dirty[mi] = False

    for op in state["ops"]:
        kind = op[0]
        if kind == "eval":
            evaluate(*op[1:])
        elif kind == "pd":
            _, k, p, v = op
            setattr(pds[k], p, rad.mkpar(v))
            state["pds"][k]["pars"][p] = v
            dirty = [True] * len(models)
        elif kind == "model":
            _, k, a, v = op
            setattr(models[k], a, rad.mkpar(v))
            state["models"][k]["kw"][a] = v
            dirty[k] = True
        elif kind == "swap":
            _, k, j = op
            models[k].particle_distribution = pds[j]
            state["models"][k]["pd"] = j
            dirty[k] = True
        elif kind == "out":
            if not results:
                continue
            o, c = results[op[1] % len(results)]
            if op[2] == "scale":
                o *= 3.0
            else:
                o[...] = 0
            c[...] = o
            dirty = [True] * len(models)
        elif kind == "in":
            e = ens[op[1]]
            if e.ndim == 0:
                continue
            e[op[2] % len(e)] *= 1.00000001 if op[2] == 3 else 2.0
            dirty = [True] * len(models)
        elif kind == "seed":
            _, k, j, i, fac = op
            m = state["models"][k]
            if m["cls"] != "InverseCompton":
                continue
            s = m["kw"]["seeds"][j % len(m["kw"]["seeds"])]
            entry = models[k].seed_photon_fields[s["name"]]
            # documented: the fields are stored in this dictionary
            if s["kind"] in ("thermal", "aniso"):
                s["u"] = [s["u"][0] * fac, s["u"][1]]
                entry["u"] = rad.mkseed(s)[2]
            elif s["kind"] == "array":
                n = list(s["n"][0])
                n[i % len(n)] *= fac
                s["n"] = [n, s["n"][1]]
                entry["photon_density"][i % len(n)] = rad.mkseed(s)[2][i % len(n)]
            else:
                continue
            dirty[k] = True
        elif kind == "content":
            _, k, W = op
            m = state["models"][k]
            pdspec = state["pds"][m["pd"]]
            if pdspec["wrap"] == "custom":
                continue
            f = fresh(k)
            name = "Wp" if m["cls"] == "PionDecay" else "We"
            getattr(models[k], "set_" + name)(W * u.erg)
            getattr(f, "set_" + name)(W * u.erg)
            a = f.particle_distribution.amplitude
            b = pds[m["pd"]].amplitude
            close(b.to(a.unit).value, a.value, rtol=1e-10, what="amplitude after set_" + name)
            pdspec["pars"]["amplitude"] = [float(b.value), b.unit.to_string()]
            dirty = [True] * len(models)
        for o, c in results:
            if o.unit != c.unit or not np.array_equal(o.value, c.value):
                fail("an array returned earlier was changed by %r", op)
    for mi in range(len(models)):
        evaluate(mi, "flux", 0, 1, None)
        if case["final"]:
            evaluate(mi, "sed", 1, 0, 0)
    return ["changed"] if changed_after_eval else ["trivial"]


@st.composite
def long_cases(draw):
    n = draw(st.sampled_from([1001, 1100, 2500]))
    return {"n": n, "cls": draw(st.sampled_from(["Synchrotron", "Synchrotron",
                                                 "InverseCompton", "Bremsstrahlung"])),
            "index": draw(st.one_of(st.integers(0, n - 1), st.integers(4, n - 5))),
            "factor": draw(st.sampled_from([2.0, 0.5, 1.001, 30.0])),
            "inplace": draw(st.booleans()), "table": draw(chance(0.3)),
            "sed": draw(st.booleans())}


def check_long(case):
    """Longer arrays than numpy prints in full, one element of which changes."""
    n = case["n"]
    if case["table"]:
        # the long array is that of the particle distribution
        e = np.logspace(-2, 3, n) * u.TeV
        y = 1e36 * (e.value ** -2.5) / u.eV
        pds = [y, y.copy()]
        pds[1][case["index"]] *= case["factor"]
        models = [_model(case["cls"], tab=(e, p)) for p in pds]
        ens = [np.array([1e-3, 1.0, 20.0]) * u.MeV] * 2
        one = models[0]
    else:
        ens = [np.logspace(-2, 2, n) * u.MeV for _ in range(2)]
        ens[1][case["index"]] *= case["factor"]
        models = [_model(case["cls"]) for _ in range(2)]
        one = models[0]
    what = "sed" if case["sed"] else "flux"
    first = getattr(one, what)(ens[0], distance=1 * u.kpc)
    first = first.copy()
    if case["table"]:
        one.particle_distribution = _model(
            case["cls"], tab=(e, pds[1])).particle_distribution
        e2 = ens[1]
    elif case["inplace"]:
        ens[0][case["index"]] *= case["factor"]
        e2 = ens[0]
    else:
        e2 = ens[1].copy()
    second = getattr(one, what)(e2, distance=1 * u.kpc)
    want = getattr(models[1], what)(ens[1], distance=1 * u.kpc)
    close(second.value, want.value, rtol=1e-10, atol=1e-290,
          what="%s after a change of element %d of %d" % (what, case["index"], n))
    return ["differs" if np.any(first != want) else "trivial"]


@st.composite
def nudges(draw):
    cls = draw(st.sampled_from(["Synchrotron", "Synchrotron", "InverseCompton",
                                "Bremsstrahlung", "PionDecay"]))
    own = {"Synchrotron": ["B", "Eemin", "Eemax"],
           "InverseCompton": ["Eemin", "Eemax", "T", "u"],
           "Bremsstrahlung": ["n0", "weight_ee", "weight_ep", "Eemin", "Eemax"],
           "PionDecay": ["nh", "Epmax"]}[cls]
    return {"cls": cls, "e": draw(st.lists(logf(0.5, 50), min_size=1, max_size=3)),
            "what": draw(st.sampled_from(["energy", "distance", "alpha", "e_0", "e_cutoff",
                                          "amplitude"] + own)),
            "alpha": draw(st.floats(1.6, 3.2)), "scale": draw(logf(1e-3, 1e3)),
            "sed": draw(st.booleans()), "scalar": draw(chance(0.2)),
            "nudge": draw(logf(3e-9, 1e-3)), "inplace": draw(st.booleans())}


def check_nudge(case):
    """The same evaluation again after the smallest changes of one of the inputs."""
    cls, what, eps = case["cls"], case["what"], case["nudge"]
    lim = {"PionDecay": ("Epmin", "Epmax")}.get(cls, ("Eemin", "Eemax"))
    k = case["scale"]
    eunit = {"Synchrotron": "eV", "PionDecay": "GeV"}.get(cls, "MeV")
    pars = {"alpha": case["alpha"], "e_0": 1.3 * u.TeV, "e_cutoff": 7.1 * u.TeV,
            "amplitude": 1e36 * k / u.eV, "B": 11.0 * k * u.uG, "n0": 1.7 * k / u.cm**3,
            "nh": 1.7 * k / u.cm**3, lim[0]: 2.3 * u.GeV, lim[1]: 130.0 * u.TeV,
            "weight_ee": 1.1 * k, "weight_ep": 1.2 * k, "T": 33.0 * u.K,
            "u": 0.7 * k * u.eV / u.cm**3, "energy": np.array(case["e"]) * u.Unit(eunit),
            "distance": 1.9 * k * u.kpc}
    if case["scalar"]:
        pars["energy"] = pars["energy"][0]

    def make(p):
        from naima import models
        pd = models.ExponentialCutoffPowerLaw(p["amplitude"], p["e_0"], p["alpha"],
                                              p["e_cutoff"])
        kw = {a: p[a] for a in lim if cls != "PionDecay" or a != "Epmin"}
        kw["nEpd" if cls == "PionDecay" else "nEed"] = 12
        for a in {"Synchrotron": ["B"], "Bremsstrahlung": ["n0", "weight_ee", "weight_ep"],
                  "PionDecay": ["nh"]}.get(cls, []):
            kw[a] = p[a]
        if cls == "InverseCompton":
            kw["seed_photon_fields"] = [["s", p["T"], p["u"]]]
        return getattr(models, cls)(pd, **kw)

    def run(m, p):
        return getattr(m, "sed" if case["sed"] else "flux")(p["energy"],
                                                            distance=p["distance"])

    m = make(pars)
    first = run(m, pars).copy()
    new = dict(pars)
    new[what] = pars[what] * (1 + eps)
    if what in ("alpha", "e_0", "e_cutoff", "amplitude"):
        setattr(m.particle_distribution, what, new[what])
    elif what in ("T", "u"):
        m.seed_photon_fields["s"][what] = new[what]
    elif what == "energy" and case["inplace"] and not case["scalar"]:
        new["energy"] = pars["energy"]
        new["energy"] *= 1 + eps
    elif what not in ("energy", "distance"):
        setattr(m, what, new[what])
    want = run(make(new), new)
    close(run(m, new).value, want.value, rtol=1e-11, atol=1e-290,
          what="%s after multiplying %s by 1 + %.3g" % (cls, what, eps))
    return ["differs" if np.any(np.abs(want - first) > 1e-10 * np.abs(want)) else "trivial"]


def _model(cls, tab=None):
    import naima
    if tab is None:
        pd = naima.models.PowerLaw(1e36 / u.eV, 1 * u.TeV, 2.5)
    else:
        pd = naima.models.TableModel(tab[0], tab[1], amplitude=1.0)
    return getattr(naima.models, cls)(pd, nEed=10)


SUBS = [Sub("long", long_cases(), check_long, quick=60, thorough=600),
        Sub("nudge", nudges(), check_nudge, quick=300, thorough=6000),
        Sub("history", histories(), check, quick=640, thorough=12000)]
