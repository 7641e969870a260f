"""Samplers with a given chain: a real emcee sampler, filled through its backend."""
import astropy.units as u
import emcee
import numpy as np
from hypothesis import strategies as st

import naima

from . import mc, tables
from .gen import chance, linf

OTHER = {"erg": u.TeV, "TeV": u.erg, "G": u.T, "kpc": u.pc, "1/eV": 1 / u.TeV}
BLOBS = ["scalar", "array", "float", "pair", "flux", "list"]


@st.composite
def chains(draw, max_dim=4, min_dim=1, blobs=BLOBS, kinds=None, min_steps=1, max_steps=12, ties=True,
           labels=None, data=None, max_blobs=3, unit=None):
    """Everything that makes a sampler."""
    k = draw(mc.kinds() if kinds is None else kinds)
    power = "power" in k[0]
    ndim = draw(st.integers(min_dim, max_dim))
    spec = draw(mc.parametric(ndim=ndim, power=power, log=False))
    spec["log"] = None
    if unit is not None:
        spec["unit"] = draw(unit)
    dk = dict(min_size=2, max_size=6, emin=1e10, emax=1e15, errmin=0.05, ulerr=True)
    dk.update(data or {})
    ds = draw(tables.datasets(kinds=k, **dk))
    for r in ds["rows"]:  # bring the data close to the model
        f = mc.model_sed(spec, spec["p0"], [r["e"]])[0]
        if not f > 1e-6 * spec["scale"]:
            f = 1e-6 * spec["scale"]
        scale = f / (max(abs(r["f"]), *(x for x in (r["lo"], r["hi"], 0.0) if x >= 0)) or 1.0)
        for c in ("f", "lo", "hi"):
            r[c] = float("%.4g" % (r[c] * scale))
        if r["ul"] and not r["f"] > 0:  # upper limits are positive
            r["f"] = r["hi"] if r["hi"] > 0 else abs(r["f"]) or f
    nw = 2 * ndim + 2 * draw(st.integers(0, 3))
    return {"ds": ds, "spec": spec, "form": draw(tables.forms(ds)),
            "sed": draw(st.sampled_from([None, None, True, False])),
            "nwalkers": nw, "nsteps": draw(st.integers(min_steps, max_steps)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "ties": bool(ties and draw(chance(0.3))),
            "lnp": draw(st.sampled_from(["random", "late", "early", "equal", "inf"])),
            "labels": draw(labels or default_labels(ndim))[:ndim],
            "blobs": None if draw(chance(0.15)) or not blobs else
            draw(st.lists(st.fixed_dictionaries({
                "kind": st.sampled_from(blobs), "unit": st.sampled_from(
                    ["erg", "TeV", "G", "kpc", "1/eV", ""]),
                "n": st.integers(1, 4)}), max_size=max_blobs)),
            "ltype": draw(st.sampled_from(["list", "list", "tuple", "array"])),
            "n_burn": draw(st.integers(0, 100))}


def label_type(case):
    """The labels as list, tuple or array of strings."""
    return {"list": list, "tuple": tuple, "array": np.array}[case.get("ltype", "list")](
        case["labels"])


@st.composite
def default_labels(draw, ndim):
    pool = ["norm", "index", "log10(norm)", "log(We)", "cutoff", "log10(cutoff)", "B", "a b",
            "x*log10(y)", "alpha [1]", "z_0", "log10(We (erg))", "log(n (1/cm3) x)"]
    return [pool[i] for i in draw(st.permutations(list(range(len(pool)))))[:ndim]]


def blob_value(b, p, e_ev, flux):
    """What the model returns besides the flux, for parameters p."""
    s = 1.0 + 0.5 * float(p[0]) + 0.1 * float(np.sum(p))
    unit = u.Unit(b["unit"])
    n = b["n"]
    x = np.arange(1, n + 1, dtype=float)
    # units that differ from sample to sample
    other = unit if int(abs(s) * 1e4) % 2 else OTHER.get(b["unit"], unit)
    return {"units": lambda: (s * unit).to(other), "unitsarray": lambda: (s * x * unit).to(other),
            "scalar": lambda: s * unit, "array": lambda: s * x * unit,
            "float": lambda: s, "flux": lambda: 2.0 * flux,
            "pair": lambda: (x * u.TeV, s * x ** -2 * u.Unit("1/eV")),
            "list": lambda: [s * x * u.eV, x * unit],
            "ndarray": lambda: s * x, "string": lambda: "s%g" % s, "none": lambda: None,
            "int": lambda: 3, "tuple1": lambda: (s * x * unit,),
            "mixed tuple": lambda: (s * x * unit, s * x),
            "triple": lambda: (s * x * u.eV, x * unit, s * np.ones(n) * u.G),
            "scalars": lambda: (s * u.eV, 2 * s * unit),
            "ragged": lambda: (x * u.eV, np.ones(n + 1) * s * unit),
            "param": lambda: float(p[0]) * unit, "paramfloat": lambda: float(p[0]),
            "2d": lambda: s * np.outer(np.arange(1, 3), x) * unit}[b["kind"]]()


class Model:
    def __init__(self, spec, blobs):
        self.spec, self.blobs = spec, blobs

    def __call__(self, p, data):
        e = u.Quantity(data["energy"]).to("eV").value
        flux = mc.spectrum(e, mc.model_sed(self.spec, p, e), self.spec["unit"])
        if self.blobs is None:
            return flux
        return tuple([flux] + [self.extra(b, p, e, flux) for b in self.blobs])

    def extra(self, b, p, e, flux):
        if b["kind"] == "samepair":  # the energies of the data in other units
            return ((e * u.eV).to("keV"), 3.0 * flux)
        if b["kind"] == "gridpair":  # other energies, as many as those of the data
            x = np.geomspace(0.7 * np.min(e), 1.5 * np.max(e), len(e))
            return ((x * u.eV).to("GeV"),
                    2.0 * mc.spectrum(x, mc.model_sed(self.spec, p, x), self.spec["unit"]))
        if b["kind"] == "fluxpair":  # other energies, among them those of the data
            s = np.sort(e)
            x = np.unique(np.concatenate([s, np.sqrt(s[1:] * s[:-1]), [s[0] / 2, s[-1] * 2]]))
            return ((x * u.eV).to("GeV"),
                    2.0 * mc.spectrum(x, mc.model_sed(self.spec, p, x), self.spec["unit"]))
        return blob_value(b, p, e, flux)


def arrays(case):
    """(chain, log_prob): plain arrays of the case."""
    rng = np.random.RandomState(case["seed"])
    p0 = np.array(case["spec"]["p0"])
    shape = (case["nsteps"], case["nwalkers"], len(p0))
    x = p0 + 0.2 * rng.standard_normal(shape) * np.maximum(np.abs(p0), 0.3)
    x[..., 0] = np.abs(x[..., 0]) + 0.01
    if case["ties"]:  # walkers that stay
        for i in range(1, shape[0]):
            stay = rng.uniform(size=shape[1]) < 0.6
            x[i][stay] = x[i - 1][stay]
    for i, vals in enumerate(case.get("values") or []):  # given samples
        x[..., i] = np.reshape(vals, shape[:2])
    lnp = -5 * rng.exponential(size=shape[:2])
    if case["lnp"] == "late":
        lnp[-1] += 100
    elif case["lnp"] == "early":
        lnp[0] += 100
    elif case["lnp"] == "equal":
        lnp[:] = np.round(lnp)
    elif case["lnp"] == "inf":
        bad = rng.uniform(size=lnp.shape) < 0.3
        bad[0, 0] = False
        lnp[bad] = -np.inf
    lnp += case.get("offset", 0.0)
    return x, lnp


def build(case, table=None):
    """The sampler of the case."""
    model = Model(case["spec"], case["blobs"])
    t = tables.table(case["ds"], case["form"]) if table is None else table
    with mc.quiet():
        s, _ = naima.get_sampler(data_table=t, p0=list(case["spec"]["p0"]), model=model,
                                 nwalkers=case["nwalkers"], nburn=0, threads=1, guess=False,
                                 labels=label_type(case), data_sed=case["sed"])
    s.run_info["n_burn"] = case["n_burn"]
    s.run_info["n_run"] = case["nsteps"]
    chain, lnp = arrays(case)
    rng = np.random.RandomState(case["seed"] + 1)
    s.backend.reset(case["nwalkers"], chain.shape[2])
    for i in range(case["nsteps"]):
        blobs = None if case.get("noblobs") else blobs_of(model, chain[i], s.data)
        if i == 0:
            s.backend.grow(case["nsteps"], blobs)
        state = emcee.State(chain[i], log_prob=lnp[i], blobs=blobs,
                            random_state=rng.get_state())
        s.backend.save_step(state, rng.uniform(size=case["nwalkers"]) < 0.6)
    return s


def outputs(model, p, data):
    """As stored: the flux and a placeholder if there is nothing else."""
    out = model(p, data)
    if isinstance(out, u.Quantity):
        return [out, np.nan]
    return list(out) if len(out) > 1 else [out[0], np.nan]


def blobs_of(model, pars, data):
    rows = [outputs(model, p, data) for p in pars]
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def snapshot(s):
    """Everything observable about a sampler."""
    def freeze(x):
        if isinstance(x, u.Quantity):
            return ("q", str(x.unit), np.asarray(x.value).tolist())
        if isinstance(x, np.ndarray):
            return ("a", x.tolist())
        if isinstance(x, (tuple, list)):
            return (type(x).__name__, [freeze(y) for y in x])
        return repr(x)

    blobs = s.get_blobs()
    return {"chain": np.array(s.get_chain()).tolist(), "lnp": np.array(s.get_log_prob()).tolist(),
            "blobs": [freeze(b) for b in blobs.reshape(-1)], "labels": list(s.labels),
            "data": tables.snapshot(s.data), "run_info": repr(sorted(s.run_info.items())),
            "acc": repr(np.asarray(s.acceptance_fraction).tolist()),
            "model": s.modelfn}
