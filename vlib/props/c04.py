"""C04: linearity, sign and finiteness of the radiative fluxes."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from .. import phys, rad, ref
from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import arr, close, fail, finite, qval

RULE = (
    "radiative class, its parameters, particle distribution, photon energies and "
    "the scale factors are drawn by Hypothesis; non-trivial: at least one flux is "
    "larger than zero"
)
ASSUMPTIONS = [
    "additivity is exact only in the limit of many integration points: it is "
    "required to 3 % with at least 60 points per decade",
    "Bremsstrahlung: finite above 100 eV, not negative above 10 MeV, where its cross "
    "sections are documented to be valid",
    "with the lookup table, spline noise of up to 1e-6 of the peak of the flux may "
    "be negative close to the kinematic limit",
]
RADKW = dict(classes=rad.ALL + ["PionDecayKelner06"])


def flux(spec, energies, pd=None):
    m = rad.radiative(spec, pd=pd)
    return arr(qval(m.flux(rad.ev(energies), distance=0), "1/(s eV)"))


def nonneg(spec, f, what):
    finite(f, what)
    tol = 0.0
    if spec["cls"] == "PionDecay" and spec["kw"].get("useLUT", True):
        e = np.logspace(7.5, 13, 12)
        ref = arr(rad.radiative(spec).flux(rad.ev(e), distance=0).to("1/(s eV)").value)
        tol = 1e-6 * max(np.max(np.abs(ref)), np.max(np.abs(f)))
    if np.any(f < -tol):
        fail("%s is negative: %r (tolerance %g)", what, f.tolist(), tol)


def check_scale(case):
    spec, k = case["spec"], case["k"]
    f1 = flux(spec, spec["energies"])
    nonneg(spec, f1, "flux of %s" % spec["cls"])
    s2 = dict(spec, pd=dict(spec["pd"], pars=dict(spec["pd"]["pars"])))
    a = spec["pd"]["pars"]["amplitude"]
    s2["pd"]["pars"]["amplitude"] = [a[0] * k, a[1]]
    f2 = flux(s2, spec["energies"])
    big = np.abs(f1) > 1e-150
    close(f2[big], k * f1[big], rtol=1e-6, what="flux with %g times the particles" % k)
    s3 = dict(spec, kw=dict(spec["kw"]))
    target = {"Bremsstrahlung": "n0", "PionDecay": "nh", "PionDecayKelner06": "nh"}
    t = target.get(spec["cls"])
    if t:
        v = spec["kw"][t]
        s3["kw"][t] = [v[0] * k, v[1]]
    elif spec["cls"] == "InverseCompton":
        s3["kw"]["seeds"] = []
        for s in spec["kw"]["seeds"]:
            s = dict(s)
            if "u" in s and s["kind"] != "blackbody" and not s.get("bb"):
                s["u"] = [s["u"][0] * k, s["u"][1]]
            elif "n" in s:
                s["n"] = [[x * k for x in s["n"][0]], s["n"][1]]
            else:
                return ["positive"] if np.any(f1 > 0) else False
            s3["kw"]["seeds"].append(s)
    if t or spec["cls"] == "InverseCompton":
        f3 = flux(s3, spec["energies"])
        close(f3[big], k * f1[big], rtol=1e-6, what="flux with %g times the target" % k)
        return ["target"] if np.any(f1 > 0) else False
    return bool(np.any(f1 > 0))


def check_zero(case):
    spec = case["spec"]
    s2 = dict(spec, pd=dict(spec["pd"], pars=dict(spec["pd"]["pars"])))
    s2["pd"]["pars"]["amplitude"] = [0.0, spec["pd"]["pars"]["amplitude"][1]]
    f = flux(s2, spec["energies"])
    if np.any(f != 0):
        fail("flux without particles: %r", f.tolist())


def check_sum(case):
    spec = case["spec"]
    d1, d2 = rad.dist(spec["pd"]), rad.dist(case["pd2"])

    def total(e):
        return d1(e) + d2(e)

    e = spec["energies"]
    f1, f2 = flux(spec, e, pd=d1), flux(spec, e, pd=d2)
    ft = flux(spec, e, pd=total)
    finite(ft, "flux")
    s = f1 + f2
    big = s > 1e-9 * np.max(s)
    if np.max(s) > 0:
        close(ft[big], s[big], rtol=0.03, what="flux of the sum of two populations")
    return bool(np.any(np.minimum(f1, f2)[big] > 0.01 * s[big]))


@st.composite
def sum_cases(draw):
    spec = draw(rad.with_energies(classes=rad.ALL, ned=(60, 100)))
    pd2 = draw(rad.dists())
    # comparable populations
    a = spec["pd"]["pars"]["amplitude"]
    pd2["pars"]["amplitude"] = [a[0] * draw(logf(0.1, 10)), a[1]]
    pd2["pars"]["e_0"] = spec["pd"]["pars"]["e_0"]
    return {"spec": spec, "pd2": pd2}


@st.composite
def special_cases(draw):
    """Photon energies at the limits and points of the integration grids."""
    spec = draw(rad.radiatives(classes=rad.ALL + ["PionDecayKelner06"], callables=False))
    kw, cls = spec["kw"], spec["cls"]
    electrons = cls in ("Synchrotron", "InverseCompton", "Bremsstrahlung")
    if electrons:
        for k in ("Eemin", "Eemax", "nEed"):
            kw.pop(k, None)
        lim = draw(phys.electron_kw(emin=(5.2e5, 1e12)))
        kw.update({k: [v[0], "eV"] if isinstance(v, list) else v for k, v in lim.items()})
    out = []
    for _ in range(draw(st.integers(1, 4))):
        what = draw(st.sampled_from(["decade", "limit", "grid"] +
                                    ["steep"] * 3 * (cls == "InverseCompton")))
        if what == "decade":
            out.append(float("1e%d" % draw(st.integers(
                2 if cls == "Bremsstrahlung" else -3 if electrons else 7, 15 if cls != "PionDecayKelner06" else 13))))
        elif what == "limit":
            v = kw.get(draw(st.sampled_from(["Eemin", "Eemax", "Epmin", "Epmax"])))
            out.append(float((v[0] * u.Unit(v[1])).to("eV").value) if v else 1e8)
        elif what == "steep":
            out.append([draw(st.integers(0, 400)), draw(linf(695, 745))])
        else:
            out.append([draw(st.integers(0, 400))])
    spec["points"] = out
    return {"spec": spec}


def point(spec, grid, x):
    """An energy of the electron grid, or just below it.

    There, the scattering of the photons of the seed field up to that energy is
    suppressed by exp(-x) for one of the electron energies, but not for the next.
    """
    e = grid[x[0] % len(grid)]
    if len(x) == 1:
        return e
    t = 4 * e / ref.MEC2_EV * 1.6863699549e-10 * 2.72548
    for s in spec["kw"]["seeds"]:
        if "T" in s:
            t *= s["T"][0] / 2.72548
            if "theta" in s:
                th = s["theta"][0] * u.Unit(s["theta"][1])
                t *= float(1 - np.cos(th)) / 2
            break
    return e * x[1] * t / (1 + x[1] * t)


def check_special(case):
    spec = case["spec"]
    lo, hi, n = phys.limits(spec["kw"], 1e8 if spec["cls"] == "Bremsstrahlung" else 1e9,
                            phys.EMAX, 300 if spec["cls"] == "Bremsstrahlung" else 100)
    grid = ref.electron_grid(lo, hi, n) * ref.MEC2_EV
    e = [point(spec, grid, x) if isinstance(x, list) else x for x in spec["points"]]
    if spec["cls"] == "PionDecayKelner06":
        e = [min(x, 1e14) for x in e[:2]]
    e = np.array(sorted(set(e)))
    f = flux(spec, e)
    finite(f, "flux at %r eV" % e.tolist())
    if spec["cls"] == "Bremsstrahlung":
        f, e = f[e >= 1e7], e[e >= 1e7]
        if not len(f):
            return False
    nonneg(spec, f, "flux at %r eV" % e.tolist())
    return bool(np.any(f > 0))


SUBS = [
    Sub("special-energies", special_cases(), check_special, quick=400, thorough=6000),
    Sub("proportional", st.fixed_dictionaries({
        # sometimes very few or many particles: there is no absolute scale
        "spec": rad.with_energies(), "k": st.one_of(
            logf(1e-6, 1e6), logf(1e-6, 1e6), logf(1e-40, 1e-10), logf(1e10, 1e40))}),
        check_scale,
        quick=560, thorough=12000),
    Sub("kelner06", st.fixed_dictionaries({
        "spec": rad.with_energies(classes=["PionDecayKelner06"], max_size=2,
                                  callables=False),
        "k": logf(1e-3, 1e3)}), check_scale, quick=24, thorough=400),
    Sub("no-particles", st.fixed_dictionaries({"spec": rad.with_energies()}),
        check_zero, quick=80, thorough=800),
    Sub("additive", sum_cases(), check_sum, quick=240, thorough=4000),
]
