"""C31: arguments are left as they were."""
import os
import shutil
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import astropy.units as u
import numpy as np
from astropy.table import Table
from hypothesis import strategies as st

import naima
from naima.utils import validate_data_table

from .. import chains, figs, mc, rad, tables
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import energy_input, fail

RULE = (
    "arguments (tables, arrays, Quantities, dicts, lists, particle distributions, samplers) in "
    "all their forms shared by sequences of calls, valid and invalid, drawn by Hypothesis, and "
    "compared with a deep copy of their state after every call; non-trivial: at least two calls, "
    "one of them successful"
)
ASSUMPTIONS = [
    "attributes of particle distributions whose name starts with an underscore are internal",
    "set_We and set_Wp change the amplitude of the particle distribution, run_sampler the "
    "sampler it runs"]


# ------------------------------------------------------------------ state of arguments

def freeze(x):
    """Everything observable about an argument."""
    if isinstance(x, u.Quantity):
        a = np.asarray(x.value)
        return ("quantity", type(x).__name__, str(x.unit), a.dtype.str, a.shape, a.tobytes(),
                getattr(getattr(x, "info", None), "name", None) if x.shape else None)
    if isinstance(x, Table):
        cols = []
        for c in x.colnames:
            a = x[c]
            cols.append((c, type(a).__name__, str(getattr(a, "unit", None)),
                         str(a.info.dtype), repr(np.asarray(a).tolist()),
                         str(a.info.format), str(a.info.description)))
        return ("table", type(x).__name__, cols, freeze(dict(x.meta)), list(x.indices))
    if isinstance(x, np.ndarray):
        return ("array", type(x).__name__, x.dtype.str, x.shape, repr(x.tolist()))
    if isinstance(x, dict):
        return (type(x).__name__, [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y) for y in x])
    if type(x).__module__.startswith("naima.models") and hasattr(x, "amplitude"):
        return ("model", id(x), [(k, freeze(v)) for k, v in sorted(vars(x).items())
                                 if not k.startswith("_")])
    if x is None or isinstance(x, (bool, int, float, str, np.generic, bytes)):
        return (type(x).__name__, repr(x))
    return ("object", id(x))


def ids(x):
    """Identity of the elements of containers."""
    if isinstance(x, dict):
        return [(k, id(v), ids(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [(id(v), ids(v)) for v in x]
    return None


class Watch:
    """The shared arguments and their state."""

    def __init__(self):
        self.args, self.state = {}, {}

    def add(self, name, x, how=None):
        how = how or (lambda a: (freeze(a), ids(a)))
        self.args[name] = (x, how)
        self.state[name] = how(x)
        return x

    def __getitem__(self, name):
        return self.args[name][0]

    def accept(self, name):
        x, how = self.args[name]
        self.state[name] = how(x)

    def check(self, what):
        for k, (x, how) in self.args.items():
            now = how(x)
            if now != self.state[k]:
                fail("%s changed its argument %s: %s", what, k, diff(self.state[k], now))


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a[k] != b.get(k):
                return "%s: %s" % (k, diff(a[k], b.get(k)))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return ("%r is now %r" % (a, b))[:400]


def attempt(fn):
    """True if the call succeeded; failing calls count as well."""
    try:
        with warnings.catch_warnings(), mc.quiet():
            warnings.simplefilter("ignore")
            fn()
        return True
    except Exception:  # noqa: BLE001
        return False


# --------------------------------------------------------------------------- models

EFORMS = ["array", "array", "scalar", "dict", "table", "qtable", "list", "column"]
EUNITS = ["eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]
BAD_UNITS = ["m", "s", "", "Hz"]


def energy_arg(e_ev, unit, form):
    if unit in BAD_UNITS:
        return np.array(e_ev) * u.Unit(unit) if form != "list" else list(e_ev)
    if form == "column":
        t = Table()
        t["energy"] = rad.ev(e_ev, unit)
        return t["energy"]
    return energy_input(np.array(e_ev) * 1e-12, unit, form)


@st.composite
def energy_args(draw, lo=1e6, hi=1e15):
    e = draw(st.lists(logf(lo, hi), min_size=2, max_size=6, unique=True))
    unit = draw(st.sampled_from(EUNITS * 4 + BAD_UNITS))
    return [e, unit, draw(st.sampled_from(EFORMS))]


@st.composite
def model_cases(draw):
    case = {"energies": draw(st.lists(energy_args(), min_size=1, max_size=3)),
            "dists": draw(st.lists(rad.dists(), min_size=1, max_size=2)),
            "table": [draw(st.sampled_from(EUNITS)), draw(st.permutations(list(range(5))))],
            "seeds": draw(rad.seed_fields(max_size=3)),
            "classes": draw(st.lists(st.sampled_from(sorted(rad.CLASSES)), min_size=1, max_size=2)),
            "B": draw(logf(1, 1e4)), "nE": draw(st.integers(10, 25))}
    ops = ["dist", "flux", "sed", "flux", "sed", "W", "setW", "table", "ebl", "seed", "tabulated",
           "seedlist", "names"]
    case["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(ops), st.integers(0, 2), st.integers(0, 2),
        st.sampled_from([None, None, 0, 1, "m"])).map(list), min_size=2, max_size=8))
    return case


def seed_state(s):
    return freeze(s), ids(s)


def check_models(case):
    w = Watch()
    for i, e in enumerate(case["energies"]):
        w.add("energies %d" % i, energy_arg(*e))
    for i, d in enumerate(case["dists"]):
        w.add("particle distribution %d" % i, rad.dist(d))
    amps = [w.add("amplitude %d" % i, rad.mkpar(d["pars"]["amplitude"]))
            for i, d in enumerate(case["dists"])]
    w.add("seed photon fields", rad.seeds_arg(case["seeds"]))
    unit, perm = case["table"]
    te = w.add("table energies", (np.logspace(8, 15, 5)[perm] * u.eV).to(unit))
    tv = w.add("table values", (np.logspace(30, 20, 5)[perm]) / u.eV)
    tab = naima.models.TableModel(te, tv, 2.0 * u.Unit(""))
    w.check("TableModel")
    kw = w.add("options", {"nEed": case["nE"], "Eemin": 10 * u.GeV, "Eemax": 500 * u.TeV})
    kwp = w.add("proton options", {"nEpd": case["nE"], "Epmin": 2 * u.GeV, "Epmax": 500 * u.TeV})
    B = w.add("magnetic field", case["B"] * u.uG)
    n = w.add("density", np.float64(3.0) * u.cm ** -3)
    dists = [w["particle distribution %d" % i] for i in range(len(case["dists"]))]
    alldists = dists + [tab]
    dist_w = w.add("distance", 2.0 * u.kpc)
    emin, emax = w.add("Emin", 100 * u.GeV), w.add("Emax", 3e2 * u.TeV)
    We = w.add("We", 1e47 * u.erg)

    def make(cls, pd):
        k = dict(kwp if cls == "PionDecay" else kw)
        if cls == "PionDecayKelner06":
            return rad.CLASSES[cls](pd, nh=n)
        if cls == "Synchrotron":
            return rad.CLASSES[cls](pd, B=B, **k)
        if cls == "InverseCompton":
            return rad.CLASSES[cls](pd, seed_photon_fields=w["seed photon fields"], **k)
        if cls == "Bremsstrahlung":
            return rad.CLASSES[cls](pd, n0=n, **k)
        return rad.CLASSES[cls](pd, nh=n, **k)

    models = {}

    def model(j, k):
        cls = case["classes"][j % len(case["classes"])]
        d = k % len(alldists)
        if (cls, d) not in models:
            models[cls, d] = make(cls, alldists[d])
        return models[cls, d], cls, d

    good = 0
    for op, i, j, dist in case["ops"]:
        e = w["energies %d" % (i % len(case["energies"]))]
        kwd = {}
        if dist is not None:
            kwd["distance"] = {"m": 3 * u.TeV}.get(dist, dist)
            if dist == 1:
                kwd["distance"] = dist_w
        what = [op]
        if op == "dist":
            ok = attempt(lambda: dists[j % len(dists)](e))
        elif op in ("flux", "sed"):
            what.append(case["classes"][j % len(case["classes"])])
            ok = attempt(lambda: getattr(model(j, i)[0], op)(e, **kwd))
        elif op == "W":
            def f():
                m, cls, d = model(j, i)
                if cls.startswith("Pion"):
                    m.compute_Wp(emin, emax)
                else:
                    m.compute_We(emin, emax)
            ok = attempt(f)
        elif op == "setW":
            changed = []

            def f():
                m, cls, d = model(j, i)
                if d < len(dists) and not case["dists"][d]["wrap"]:
                    changed.append(d)
                if cls.startswith("Pion"):
                    m.set_Wp(We, emin, emax)
                else:
                    m.set_We(We, emin, emax)
            ok = attempt(f)
            if ok:
                for d in changed:  # nothing but the amplitude
                    name = "particle distribution %d" % d
                    new = freeze(dists[d])
                    old = w.state[name][0]
                    if [x for x in new[2] if x[0] != "amplitude"] != \
                            [x for x in old[2] if x[0] != "amplitude"]:
                        fail("setW changed more than the amplitude: %s", diff(old, new))
                    w.accept(name)
        elif op == "table":
            ok = attempt(lambda: tab(e))
        elif op == "tabulated":
            ok = attempt(lambda: naima.models.TableModel(te[: 3 + j], tv, amps[0]))
        elif op == "ebl":
            z = w.add("redshift", 0.3 * u.Unit("")) if "redshift" not in w.args else w["redshift"]
            ok = attempt(lambda: naima.models.EblAbsorptionModel(z).transmission(e))
        elif op == "seed":
            def f():
                m = make("InverseCompton", alldists[i % len(alldists)])
                m.flux(e, seed=[None, 0, "nothing"][j], distance=0)
            ok = attempt(f)
        elif op == "seedlist":
            sl = w.add("seeds for flux", ["CMB", "FIR"]) if "seeds for flux" not in w.args else \
                w["seeds for flux"]

            def f():
                m = naima.models.InverseCompton(alldists[i % len(alldists)],
                                                seed_photon_fields=sl, **kw)
                m.flux(e, seed=sl[j % 2], distance=0)
            ok = attempt(f)
        else:
            bad = w.add("malformed seeds", [["a", 30 * u.K], "CMB", ["b", 3 * u.m, 2]]) \
                if "malformed seeds" not in w.args else w["malformed seeds"]
            ok = attempt(lambda: naima.models.InverseCompton(dists[0], seed_photon_fields=bad))
        good += ok
        w.check(" ".join(what))
    return [] if good else False


# --------------------------------------------------------------------------- tables

@st.composite
def table_cases(draw):
    k = draw(mc.kinds())
    n = draw(st.integers(1, 3))
    ds = [draw(tables.datasets(kinds=k, min_size=2, max_size=5, ulerr=True)) for _ in range(n)]
    case = {"ds": [[d, draw(tables.forms(d))] for d in ds], "as": draw(st.sampled_from(
        ["list", "list", "list", "list", "single", "single", "tuple", "dict", "dicts"])),
        "bad": draw(st.sampled_from([None, None, "unit", "nan", "column", "error", "ul", "row"])),
        "spec": draw(mc.parametric(ndim=2, power="power" in k[0], log=False)),
        "model_fails": draw(st.sampled_from([0, 0, 0, 1, 40])),
        "labels": draw(st.sampled_from([2, 2, 1, 0, 3])),
        "order": draw(st.permutations(list(range(6))))}
    ops = ["validate", "validate", "lnprob", "get_sampler", "run_sampler", "plot_data", "build",
           "edges", "conversion", "trapz", "priors", "estimate_B", "fitter"]
    case["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(ops), st.integers(0, 3), st.sampled_from([None, True, False])).map(list),
        min_size=2, max_size=6))
    return case


def spoil(t, how):
    if how == "unit":
        e = t["flux"]
        t["flux"] = np.asarray(e) * u.Unit("kg")
    elif how == "nan":
        q = u.Quantity(t["energy"])
        q[-1] = np.nan
        t["energy"] = q
    elif how == "column":
        t.remove_column("flux")
    elif how == "error":
        for c in ("flux_error", "flux_error_lo"):
            if c in t.colnames:
                t[c] = -1 * np.asarray(t[c]) * u.Unit(t[c].unit)
    elif how == "ul":
        t["ul"] = np.array(["perhaps"] * len(t))
    elif how == "row":
        t["energy_error_lo"] = np.ones(len(t)) * u.m


class Failing:
    def __init__(self, spec, n, blobs=False):
        self.spec, self.n, self.calls = spec, n, 0

    def __call__(self, p, data):
        self.calls += 1
        if self.n and self.calls > self.n:
            raise RuntimeError("the model fails")
        return mc.model_flux(self.spec, p, data)


def check_tables(case):
    w = Watch()
    ts = []
    for i, (d, f) in enumerate(case["ds"]):
        t = tables.table(d, f)
        if i == len(case["ds"]) - 1 and case["bad"]:
            spoil(t, case["bad"])
        ts.append(t)
    kind = case["as"]
    if kind == "single":
        data = ts[0]
    elif kind == "tuple":
        data = tuple(ts)
    elif kind in ("dict", "dicts"):
        ds = [{c: (t[c].quantity if getattr(t[c], "unit", None) is not None and not
                   isinstance(t[c], u.Quantity) else t[c]) for c in t.colnames} for t in ts]
        data = ds[0] if kind == "dict" else ds
    else:
        data = ts
    w.add("data", data)
    for i, t in enumerate(ts):
        w.add("table %d" % i, t)
    spec = case["spec"]
    p0 = w.add("p0", np.array(spec["p0"]))
    p0l = w.add("p0 (list)", list(spec["p0"]))
    labels = w.add("labels", ["norm", "index", "more"][: case["labels"]])
    good = 0
    state = {}
    prior_p = w.add("prior limits", [np.float64(0.0), 3.0])
    energy = w.add("energies", np.logspace(1, 3, 6)[case["order"]] * u.GeV)
    groups = w.add("groups", np.array([0, 1, 0, 1, 1, 0])[case["order"]])
    flux = w.add("fluxes", np.arange(1.0, 7.0) * u.Unit("1/(cm2 s TeV)"))
    err = w.add("errors", 0.1 * flux)
    uls = w.add("upper limits", np.array([False, True, False, False, False, True]))
    y = w.add("y", np.arange(1.0, 13.0).reshape(2, 6) / u.eV)
    x = w.add("x", np.sort(energy))
    try:
        for op, k, sed in case["ops"]:
            if op == "validate":
                def f():
                    state["v"] = w.add("validated table", validate_data_table(data, sed=sed)) \
                        if "validated table" not in w.args else validate_data_table(data, sed=sed)
            elif op == "lnprob":
                def f():
                    d = w["validated table"] if "validated table" in w.args else \
                        validate_data_table(data)
                    m = Failing(spec, 0)(p0, d)
                    if "model flux" not in w.args:
                        w.add("model flux", m)
                    naima.core.lnprobmodel(w["model flux"], d)
            elif op == "get_sampler":
                def f():
                    naima.get_sampler(
                        data_table=data, p0=[p0, p0l][k % 2], model=Failing(
                            spec, case["model_fails"]), nwalkers=4, nburn=k % 2, threads=1,
                        labels=[labels, None][k // 2], data_sed=sed, prefit=k == 3,
                        prior=lambda p: naima.uniform_prior(p[0], *prior_p), guess=k != 1)
            elif op == "run_sampler":
                def f():
                    naima.run_sampler(
                        data_table=data, p0=[p0, p0l][k % 2], model=Failing(
                            spec, case["model_fails"]), nwalkers=4, nburn=1, nrun=2, threads=1,
                        labels=labels, data_sed=sed)
            elif op == "plot_data":
                opts = w.add("ulim_opts", {"capsize": 3}) if "ulim_opts" not in w.args else \
                    w["ulim_opts"]
                eopts = w.add("errorbar_opts", {"ms": 4}) if "errorbar_opts" not in w.args else \
                    w["errorbar_opts"]

                def f():
                    naima.plot_data(data, sed=bool(sed), e_unit=[u.eV, "TeV", None, "m"][k],
                                    ulim_opts=opts, errorbar_opts=eopts)
            elif op == "build":
                kw = w.add("build options", {
                    "ul": uls, "flux_error": err, "energy_width": 0.1 * energy, "cl": 0.95}) \
                    if "build options" not in w.args else w["build options"]

                def f():
                    kk = dict(kw)
                    if k == 1:
                        kk["flux_error"] = energy
                    if k == 2:
                        kk["energy_width"] = flux
                    naima.build_data_table(energy, flux, **kk)
            elif op == "edges":
                def f():
                    naima.generate_energy_edges(energy, groups=groups if k % 2 else None)
            elif op == "conversion":
                def f():
                    naima.sed_conversion(energy, [flux.unit, u.Unit("erg/s"), u.Unit("erg"),
                                                  u.Unit("K")][k], sed)
            elif op == "trapz":
                def f():
                    naima.utils.trapz_loglog([y, y[0].value][k % 2], [x, x.value][k // 2],
                                       intervals=bool(sed))
            elif op == "priors":
                arr = w.add("prior array", np.array([0.5, 2.0])) if "prior array" not in w.args \
                    else w["prior array"]

                def f():
                    naima.uniform_prior(arr[0], *prior_p)
                    naima.normal_prior(arr, *prior_p)
                    naima.log_uniform_prior(arr[1], *prior_p)
            elif op == "estimate_B":
                def f():
                    naima.estimate_B(ts[0], ts[-1], photon_energy_density=w.add(
                        "energy density", 0.3 * u.eV / u.cm ** 3))
            else:
                def f():
                    naima.InteractiveModelFitter(
                        Failing(spec, case["model_fails"]), [p0, p0l][k % 2], data=data,
                        labels=[labels, None][k // 2], sed=bool(sed), auto_update=k != 2,
                        e_range=w.add("e_range", [1 * u.GeV, 10 * u.TeV])
                        if "e_range" not in w.args else w["e_range"])
            good += attempt(f)
            w.check(op)
    finally:
        figs.close_all()
    return ["spoiled"] if case["bad"] and good else ([] if good else False)


# -------------------------------------------------------------------------- samplers

SOPS = ["plot_chain", "plot_corner", "plot_fit", "plot_blob", "plot_data", "find_ML", "save_run",
        "save_results_table", "save_diagnostic_plots", "plot_distribution", "read_run"]


@st.composite
def sampler_cases(draw):
    run = draw(chains.chains(max_dim=3, max_steps=6, max_blobs=2))
    ops = draw(st.lists(st.tuples(st.sampled_from(SOPS), st.integers(0, 3),
                                  st.booleans(), st.booleans()).map(list),
                        min_size=1, max_size=4))
    return {"run": run, "ops": ops}


def check_samplers(case):
    c = case["run"]
    t = tables.table(c["ds"], c["form"])
    w = Watch()
    w.add("data", t)
    s = chains.build(c, t)
    w.add("sampler", s, chains.snapshot)
    conf = w.add("confs", [1, 3, 2])
    e_range = w.add("e_range", np.array([0.1, 10.0]) * u.TeV)
    label = w.add("label list", ["a", "b", "c"])
    bounds = w.add("ranges", {"ms": 3})
    flat = w.add("samples", np.random.RandomState(1).normal(size=30))
    idx = w.add("modelidxs", [0])
    tmp = tempfile.mkdtemp(prefix="c31")
    good = 0
    try:
        for n, (op, k, a, b) in enumerate(case["ops"]):
            fn = os.path.join(tmp, "x%d" % n)
            if op == "plot_chain":
                def f():
                    naima.plot_chain(s, p=[None, 0, 1, 9][k], last_step=a)
            elif op == "plot_corner":
                def f():
                    naima.plot_corner(s, show_ML=a, **({"labels": label} if b else {}))
            elif op == "plot_fit":
                def f():
                    kk = {}
                    if k == 1:
                        kk["n_samples"] = 3
                    elif k == 2:
                        kk.update(e_range=e_range, e_npoints=5, n_samples=3)
                    elif k == 3:
                        kk["confs"] = conf
                    if b:
                        kk.update(e_unit=u.keV)
                    naima.plot_fit(s, modelidx=0, sed=a, last_step=b, threads=1,
                                   errorbar_opts=bounds, **kk)
            elif op == "plot_blob":
                def f():
                    naima.plot_blob(s, blobidx=k, last_step=a, label="x" if b else None)
            elif op == "plot_data":
                def f():
                    naima.plot_data(s if a else s.data, sed=b, e_unit=[u.eV, "TeV", None, "m"][k])
            elif op == "find_ML":
                def f():
                    naima.plot.find_ML(s, [0, 1, None, 7][k])
            elif op == "save_run":
                def f():
                    naima.save_run(fn + [".h5", ".hdf5", ".txt", ".h5"][k], s, clobber=a)
            elif op == "read_run":
                def f():
                    naima.save_run(fn + ".h5", s)
                    r = naima.read_run(fn + ".h5", modelfn=s.modelfn if a else None)
                    w.add("run %d" % n, r, result_state)
                    state = attempt(lambda: naima.plot_corner(r))
                    naima.plot_chain(r, p=0)
                    naima.plot_data(r, sed=b)
                    naima.save_results_table(fn, r)
                    if a:
                        naima.plot_fit(r, n_samples=2, threads=1)
                    return state
            elif op == "save_results_table":
                def f():
                    naima.save_results_table(fn, s, include_blobs=a, last_step=b, convert_log=k < 2,
                                             format=["ascii.ecsv", "ascii.ipac", "ascii",
                                                     "nothing"][k])
            elif op == "save_diagnostic_plots":
                def f():
                    naima.save_diagnostic_plots(
                        fn, s, modelidxs=idx if a else None, sed=[b] if a else [b] * 3,
                        last_step=b, blob_labels=label if k < 2 else None, dpi=20)
            else:
                def f():
                    naima.plot.plot_distribution(flat * [1, u.eV, u.kpc, 1][k], "label")
                    naima.plot.plot_distribution(flat, "label")
            good += attempt(f)
            w.check(op)
            figs.close_all()
    finally:
        figs.close_all()
        shutil.rmtree(tmp)
    return [] if good else False


def result_state(r):
    """Everything observable about a run that was read."""
    blobs = r.get_blobs()
    return {"chain": np.array(r.get_chain()).tolist(), "lnp": np.array(r.get_log_prob()).tolist(),
            "blobs": None if blobs is None else [freeze(b) for b in blobs.reshape(-1)],
            "labels": list(r.labels), "data": tables.snapshot(r.data),
            "run_info": repr(sorted(r.run_info.items())),
            "acc": repr(np.asarray(r.acceptance_fraction).tolist())}


# --------------------------------------------------------------------------- running

@st.composite
def running(draw):
    k = draw(mc.kinds())
    ds = draw(tables.datasets(kinds=k, min_size=2, max_size=5, ulerr=True))
    spec = draw(mc.parametric(ndim=2, power="power" in k[0], log=False))
    # walkers start with a relative spread
    spec["p0"] = [x if abs(x) > 0.02 else 0.3 for x in spec["p0"]]
    return {"ds": ds, "form": draw(tables.forms(ds)), "spec": spec, "nrun": draw(st.integers(1, 4)),
        "pos": draw(st.booleans()), "seed": draw(st.integers(0, 999)),
        "labels": draw(st.sampled_from([2, 1, 0])), "fails": draw(st.sampled_from([0, 0, 0, 30]))}


def check_running(case):
    """Nothing but the sampler changes when it runs."""
    w = Watch()
    t = w.add("data", tables.table(case["ds"], case["form"]))
    p0 = w.add("p0", list(case["spec"]["p0"]))
    labels = w.add("labels", ["norm", "index", "more"][: case["labels"]])
    model = Failing(case["spec"], 0)
    with mc.quiet():
        s, pos = naima.get_sampler(data_table=t, p0=p0, model=model, nwalkers=6, nburn=1,
                                   threads=1, labels=labels)
    w.check("get_sampler")
    w.add("sampler data", s.data)
    w.add("sampler labels", s.labels)
    start = pos if case["pos"] else p0 + 0.01 * np.random.RandomState(case["seed"]).normal(
        size=(6, 2))
    if isinstance(start, np.ndarray):
        w.add("position", start)
    else:
        w.add("position", start, lambda x: [np.array(x.coords).tolist(),
                                            repr(np.array(x.log_prob).tolist())])
    model.calls, model.n = 0, case["fails"]
    ok = attempt(lambda: naima.run_sampler(sampler=s, pos=start, nrun=case["nrun"]))
    w.check("run_sampler")
    return [] if ok else ["failing"]


SUBS = [
    Sub("models", model_cases(), check_models, quick=250, thorough=3000),
    Sub("tables", table_cases(), check_tables, quick=200, thorough=2500),
    Sub("samplers", sampler_cases(), check_samplers, quick=70, thorough=900),
    Sub("running", running(), check_running, quick=40, thorough=500),
]
