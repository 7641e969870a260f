"""C14: energy content of the particle distribution."""
import copy

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import phys, rad, ref
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail, qval, raises

RULE = (
    "one or two radiative models sharing a particle distribution (or an amplitude), "
    "energy limits and a sequence of We/Wp, compute and set calls, drawn by Hypothesis; "
    "non-trivial: the energy content is set at least once"
)
ASSUMPTIONS = ["energy contents are compared with an independent integration over the "
               "same grid (1e-6) and over a fine grid (3 %)"]
EPMIN = (ref.MPG + 0.27966184 + 1e-4) * 1e9


class Custom:
    """A distribution that is not one of naima's."""

    def __init__(self, norm, index):
        self.norm = norm
        self.index = index
        self.calls = 0

    def __call__(self, e):
        return self.norm * (e / (1 * u.TeV)).decompose().value ** -self.index


def limit(lo, hi):
    return st.tuples(logf(lo, hi, 4), st.sampled_from(["eV", "GeV", "TeV", "erg"])).map(list)


@st.composite
def cases(draw):
    shared = draw(st.sampled_from(["dist", "amplitude", "no"]))
    custom = draw(chance(0.2)) and shared != "amplitude"
    kinds = sorted(rad.DIST_PARS)
    pd = draw(rad.dists(kinds=kinds, callables=False))
    models = []
    for _ in range(draw(st.integers(1, 2))):
        cls = draw(st.sampled_from(rad.ALL))
        p = ("Ee", "Ep")[cls == "PionDecay"]
        kw = {"n%sd" % p: draw(st.integers(10, 60))}
        if draw(chance(0.6)):
            kw[p + "min"] = draw(limit(2e9, 1e12))
        if draw(chance(0.6)):
            kw[p + "max"] = draw(limit(5e12, 1e15))
        models.append({"cls": cls, "kw": kw})
    lims = st.one_of(st.none(), limit(2e9, 1e12)), st.one_of(st.none(), limit(5e12, 1e16))
    ops = draw(st.lists(st.tuples(
        st.integers(0, len(models) - 1),
        st.sampled_from(["get", "compute", "set", "set", "split", "reassign"]),
        st.tuples(*lims).map(list),
        st.tuples(logf(1e40, 1e52), st.sampled_from(["erg", "J", "eV", "TeV"])).map(list)),
        min_size=1, max_size=6).map(lambda x: [list(o) for o in x]))
    for o in ops:
        if o[2][0] and draw(chance(0.2)):  # close limits
            o[2][1] = [o[2][0][0] * draw(linf(1.02, 4.0, 3)), o[2][0][1]]
    return {"pd": pd, "shared": shared, "custom": custom, "models": models, "ops": ops,
            "index": draw(linf(1.5, 3.0, 3)), "name": draw(st.booleans()),
            "energies": draw(st.lists(logf(1e8, 1e12), min_size=2, max_size=2))}


def lim(v):
    return None if v is None else v[0] * u.eV if v[1] == "eV" \
        else (v[0] * u.eV).to(v[1])


def content(pd, lo, hi, n, cls):
    if cls == "PionDecay":
        x = np.logspace(np.log10(lo * 1e-9), np.log10(hi * 1e-9),
                        max(10, int(n * np.log10(hi / lo)))) * 1e9
    else:
        x = ref.electron_grid(lo, hi, n) * ref.MEC2_EV
    return ref.loglog_integral(ref.particles(pd, x) * x, x) * ref.EV


def check(case):
    if case["custom"]:
        pd = Custom(1e36 / u.TeV, case["index"])
        attr = "norm"
    else:
        pd = rad.dist(case["pd"])
        attr = "amplitude"
    pds = [pd]
    original = getattr(pd, attr)
    for m in case["models"][1:]:
        if case["shared"] == "dist":
            pds.append(pd)
        elif case["shared"] == "amplitude":
            p2 = rad.dist(case["pd"])
            p2.amplitude = pd.amplitude
            pds.append(p2)
        else:
            pds.append(Custom(1e36 / u.TeV, case["index"]) if case["custom"]
                       else rad.dist(case["pd"]))
    models = []
    for m, d in zip(case["models"], pds):
        kw = {k: lim(v) if isinstance(v, list) else v for k, v in m["kw"].items()}
        models.append(rad.CLASSES[m["cls"]](d, **kw))
    e = case["energies"]
    snapshot = copy.deepcopy(original)
    nset = 0
    for i, op, (lo, hi), val in case["ops"]:
        m, spec, d = models[i], case["models"][i], pds[i]
        cls = spec["cls"]
        p, W = ("Ep", "Wp") if cls == "PionDecay" else ("Ee", "We")
        dlo = {"Bremsstrahlung": 1e8, "PionDecay": EPMIN}.get(cls, 1e9)
        dhi = 1e16 if cls == "PionDecay" else phys.EMAX
        mlo = spec["kw"].get(p + "min", [dlo])[0]
        mhi = spec["kw"].get(p + "max", [dhi])[0]
        n = spec["kw"]["n%sd" % p]
        kw = {}
        if lo is not None:
            kw[p + "min"] = lim(lo)
        if hi is not None:
            kw[p + "max"] = lim(hi)
        rlo, rhi = (lo or [mlo])[0], (hi or [mhi])[0]
        compute, setter = getattr(m, "compute_" + W), getattr(m, "set_" + W)
        amb = phys.ambiguous(rlo, rhi, n)
        if op == "get":
            mine = content(d, mlo, mhi, n, cls)
            if not phys.ambiguous(mlo, mhi, n):
                close(qval(getattr(m, W), "erg", W), mine, rtol=2e-4, what=W)
        elif op == "compute":
            got = qval(compute(**kw), "erg", "compute_" + W)
            if not amb:
                close(got, content(d, rlo, rhi, n, cls), rtol=1e-5 if kw else 2e-4,
                      what="compute_%s(%s)" % (W, kw))
            fine = content(d, rlo, rhi, 400, "Synchrotron")
            if n >= 40:
                close(got, fine, rtol=0.03, what="compute_%s against a fine grid" % W)
        elif op == "split":
            mid = float(np.sqrt(rlo * rhi)) * u.eV
            a = compute(**{p + "min": rlo * u.eV, p + "max": mid})
            b = compute(**{p + "min": mid, p + "max": rhi * u.eV})
            t = compute(**{p + "min": rlo * u.eV, p + "max": rhi * u.eV})
            if n >= 40:
                close(qval(a + b, "erg"), qval(t, "erg"), rtol=0.03,
                      what="%s of adjacent ranges" % W)
        elif op == "reassign":
            setattr(m, p + "min", rlo * u.eV)
            spec = case["models"][i] = {"cls": cls, "kw": dict(
                spec["kw"], **{p + "min": [rlo, "eV"]})}
        else:
            want = (val[0] * u.erg).to(val[1])
            before = {k: copy.deepcopy(v) for k, v in vars(d).items()
                      if not k.startswith("_") and k != "calls"}
            old = qval(compute(**kw), "erg")
            f0 = m.flux(rad.ev(e), distance=0).value
            if case["name"] or attr != "amplitude":
                setter(want, amplitude_name=attr, **kw)
            else:
                setter(want, **kw)
            nset += 1
            # (not closer: the integral over a bin with a slope within 1e-9 of -1
            # loses digits, and rescaling the distribution changes which ones)
            close(qval(compute(**kw), "erg"), val[0], rtol=1e-6,
                  what="%s after set_%s(%s)" % (W, W, kw))
            f1 = m.flux(rad.ev(e), distance=0).value
            big = np.abs(f0) > 1e-100 * min(1.0, old / val[0])
            close(f1[big], f0[big] * (val[0] / old), rtol=1e-6,
                  what="flux after set_" + W)
            after = {k: v for k, v in vars(d).items()
                     if not k.startswith("_") and k != "calls"}
            if set(after) != set(before):
                fail("set_%s changed the attributes of the distribution: %s", W,
                     sorted(set(after) ^ set(before)))
            for k, v in before.items():
                same = np.all(after[k] == v)
                if k != attr and not same:
                    fail("set_%s changed %s of the distribution: %r, was %r", W, k,
                         after[k], v)
            a, b = after[attr], before[attr]
            if type(a) is not type(b) or a.unit != b.unit:
                fail("set_%s changed the type of the amplitude: %r, was %r", W, a, b)
            close(a.value, b.value * (val[0] / old), rtol=1e-9, what="amplitude")
    if not np.array_equal(original.value, snapshot.value) or original.unit != snapshot.unit:
        fail("the amplitude object given by the user was modified: %r, was %r",
             original, snapshot)
    return bool(nset)


def check_bad(case):
    pd = naima.models.PowerLaw(1e36 / u.TeV, 1 * u.TeV, 2.2)
    m = rad.CLASSES[case["cls"]](pd)
    f = m.set_Wp if case["cls"] == "PionDecay" else m.set_We
    bad = {"float": 1e48, "length": 1 * u.kpc, "flux": 1 * u.Unit("erg/s"),
           "inverse": 1 / u.erg}[case["bad"]]
    raises(TypeError, lambda: f(bad), "energy content %r" % bad)
    if pd.amplitude != 1e36 / u.TeV:
        fail("amplitude changed by a rejected energy content")


SUBS = [
    Sub("history", cases(), check, quick=800, thorough=12000),
    Sub("rejected", st.fixed_dictionaries({
        "cls": st.sampled_from(rad.ALL),
        "bad": st.sampled_from(["float", "length", "flux", "inverse"])}), check_bad,
        quick=16, thorough=16),
]
