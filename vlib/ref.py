"""Independent reference implementations of the radiative processes.

Everything here is written from the papers, in cgs and plain floats; nothing
is imported from naima except the particle distribution being integrated."""
import math

import astropy.units as u
import numpy as np

# CODATA 2018, cgs
C = 2.99792458e10
ME = 9.1093837015e-28
MP = 1.67262192369e-24
QE = 4.803204712570263e-10
HBAR = 1.054571817e-27
KB = 1.380649e-16
EV = 1.602176634e-12  # erg
ALPHA_F = 7.2973525693e-3
MEC2 = ME * C ** 2  # erg
MEC2_EV = MEC2 / EV
R0 = QE ** 2 / MEC2
SIGT = 8 * math.pi / 3 * R0 ** 2
A_RAD = 7.565733250280007e-15  # erg cm-3 K-4


def loglog_integral(y, x, signed=False):
    """Integral of y(x) for power laws between points, last axis.

    Intervals where y is not positive do not count; with signed, they count
    as 1/x if negative, with the value at their start."""
    y = np.asarray(y, dtype=float)
    x = np.asarray(x, dtype=float)
    with np.errstate(all="ignore"):
        lr = np.diff(np.log(x))
        ly = np.diff(np.log(y), axis=-1)
        s = ly + lr  # (b + 1) ln(x2/x1)
        # int = x1 y1 (exp(s) - 1)/(b+1) = x1 y1 lr expm1(s)/s
        g = np.where(np.abs(s) > 1e-12, np.expm1(s) / np.where(s == 0, 1, s), 1.0)
        t = x[:-1] * y[..., :-1] * lr * g
        if signed:
            a, b = y[..., :-1], y[..., 1:]
            t = np.where(a * b < 0, x[:-1] * a * lr, t)
            neg = (a < 0) & (b < 0)
            ly = np.diff(np.log(np.abs(y)), axis=-1)
            s = ly + lr
            g = np.where(np.abs(s) > 1e-12, np.expm1(s) / np.where(s == 0, 1, s), 1.0)
            t = np.where(neg, x[:-1] * a * lr * g, t)
            t = np.where((a == 0) | (b == 0) | ~np.isfinite(t), 0.0, t)
        else:
            t = np.where((y[..., :-1] > 0) & (y[..., 1:] > 0), t, 0.0)
    return np.sum(t, axis=-1)


def electron_grid(emin_ev, emax_ev, n_per_decade):
    lo, hi = math.log10(emin_ev / MEC2_EV), math.log10(emax_ev / MEC2_EV)
    n = max(10, int(n_per_decade * (hi - lo)))
    return np.logspace(lo, hi, n)


def particles(pd, e_ev, unit="eV"):
    """dN/dE in 1/eV of a naima particle distribution at energies in eV."""
    return pd(u.Quantity(e_ev, unit)).to("1/eV").value


# ------------------------------------------------------------- synchrotron


def sync_emissivity_akp(gam, B, eph_ev):
    """Photons per second and eV of one electron (AKP10 Eq. D7)."""
    eph = eph_ev * EV
    ec = 1.5 * QE * HBAR * B / (ME * C) * gam ** 2
    x = eph / ec
    x13 = np.exp(np.log(x) / 3.0)
    x23, x43 = x13 ** 2, x13 ** 4
    g = (1.808 * x13 / np.sqrt(1 + 3.4 * x23)
         * (1 + 2.21 * x23 + 0.347 * x43) / (1 + 1.353 * x23 + 0.217 * x43)
         * np.exp(-x))
    pw = math.sqrt(3.0) / (2 * math.pi) * QE ** 3 * B / (ME * C ** 2)  # erg/s/Hz*2pi..
    # power per unit photon energy: sqrt(3) e^3 B / (2 pi m c^2 hbar) G
    return pw / HBAR * g / eph * EV


def sync_emissivity_exact(gam, B, eph_ev):
    """Average over pitch angles of the synchrotron function:
    G(x) = x/20 [(8+3x^2) kappa_{1/3}^2 + x kappa_{2/3}(2 kappa_{1/3} - 3x kappa_{2/3})]
    with kappa_n = K_n(x/2) (AKP10 Eq. D5)."""
    from scipy.special import kv

    eph = eph_ev * EV
    ec = 1.5 * QE * HBAR * B / (ME * C) * gam ** 2
    x = eph / ec
    k1, k2 = kv(1 / 3.0, x / 2), kv(2 / 3.0, x / 2)
    g = x / 20 * ((8 + 3 * x ** 2) * k1 ** 2 + x * k2 * (2 * k1 - 3 * x * k2))
    return math.sqrt(3.0) * QE ** 3 * B / (2 * math.pi * ME * C ** 2 * HBAR) * g / eph * EV


def synchrotron(pd, B, eph_ev, emin_ev=1e9, emax_ev=1e9 * MEC2_EV, ned=100,
                emissivity=sync_emissivity_akp):
    """dL/dE in 1/(s eV)."""
    gam = electron_grid(emin_ev, emax_ev, ned)
    n = particles(pd, gam * MEC2_EV) * MEC2_EV
    out = []
    for e in eph_ev:
        out.append(loglog_integral(n * emissivity(gam, B, e), gam))
    return np.array(out)


# ---------------------------------------------------------- inverse Compton


def _g(x, alpha, a, beta, b):
    return 1.0 / (1.0 + a * x ** alpha / (1.0 + b * x ** beta))


def ic_planck_iso(gam, T, eps):
    """Photons per (s mec2) of one electron in a black body; Khangulyan et al.
    2014 Eqs. 14, 20, 24-27.  eps: photon energy in mec2."""
    t = KB * T / MEC2
    z = eps / gam
    out = np.zeros_like(gam)
    ok = (z < 1) & (gam > 1)
    z, g = z[ok], gam[ok]
    x = z / (1 - z) / (4 * g * t)
    p6 = math.pi ** 2 / 6

    def G(x, c):
        return p6 * (1 + c * x) / (1 + p6 * c * x) * np.exp(-x)

    G3 = G(x, 0.319) * _g(x, 0.606, 0.443, 1.481, 0.540)
    G4 = G(x, 6.620) * _g(x, 0.461, 0.726, 1.457, 0.382)
    pref = 2 * R0 ** 2 * ME ** 3 * C ** 4 * t ** 2 / (math.pi * HBAR ** 3) / g ** 2
    # per energy in units of mec2: the formula is in 1/s per unit of mec2
    out[ok] = pref * MEC2 / C ** 2 / ME * (z ** 2 / (2 * (1 - z)) * G3 + G4)
    return out


def ic_planck_ani(gam, T, eps, theta):
    t = KB * T / MEC2
    z = eps / gam
    out = np.zeros_like(gam)
    ok = (z < 1) & (gam > 1)
    z, g = z[ok], gam[ok]
    x = z / (1 - z) / (2 * g * t * (1 - math.cos(theta)))
    p6 = math.pi ** 2 / 6
    G0 = (p6 + x) * np.exp(-x)
    G1 = G0 * _g(x, 0.857, 0.153, 1.840, 0.254)
    G2 = G0 * _g(x, 0.691, 1.330, 1.668, 0.534)
    pref = 2 * R0 ** 2 * ME ** 3 * C ** 4 * t ** 2 / (math.pi * HBAR ** 3) / g ** 2
    out[ok] = pref * MEC2 / C ** 2 / ME * (z ** 2 / (2 * (1 - z)) * G1 + G2)
    return out


def ic_mono(gam, e0, eps, theta=None):
    """Jones/Aharonian&Atoyan rate on photons of energy e0 [mec2] from all directions or
    at an angle, per photon density: photons per (s mec2) per (photon cm-3)."""
    b = 4 * e0 * gam
    w = eps / gam
    out = np.zeros_like(gam)
    with np.errstate(all="ignore"):
        q = w / (b * (1 - w))
        ok = (w < 1) & (q <= 1) & (q >= 1 / (4 * gam ** 2))
        f = (2 * q * np.log(q) + (1 + 2 * q) * (1 - q)
             + 0.5 * (b * q) ** 2 / (1 + b * q) * (1 - q))
        if theta is not None:
            bt = 2 * (1 - math.cos(theta)) * e0 * gam
            r = w / (bt * (1 - w))
            ok = (w < 1) & (r <= 1) & (q >= 1 / (4 * gam ** 2))
            f = 1 + w ** 2 / (2 * (1 - w)) - 2 * r + 2 * r ** 2
    out[ok] = (0.75 * SIGT * C / (e0 * gam ** 2) * f)[ok]
    return out


def inverse_compton(pd, seeds, eph_ev, emin_ev=1e9, emax_ev=1e9 * MEC2_EV, ned=100):
    """seeds: list of ("iso", T, u) ("ani", T, u, theta) ("mono", E_ev, u[, theta])
    ("array", [E_ev], [n per eV cm3][, theta]); u in eV/cm3 (None: black body)."""
    gam = electron_grid(emin_ev, emax_ev, ned)
    n = particles(pd, gam * MEC2_EV) * MEC2_EV
    out = np.zeros(len(eph_ev))
    for i, e in enumerate(eph_ev):
        eps = e / MEC2_EV
        for s in seeds:
            if s[0] in ("iso", "ani"):
                rate = (ic_planck_iso(gam, s[1], eps) if s[0] == "iso"
                        else ic_planck_ani(gam, s[1], eps, s[3]))
                if s[2] is not None:
                    rate = rate * s[2] * EV / (A_RAD * s[1] ** 4)
            elif s[0] == "mono":
                rate = ic_mono(gam, s[1] / MEC2_EV, eps, *s[3:]) * s[2] / s[1]
            else:
                es = np.asarray(s[1], dtype=float)
                y = np.array([ic_mono(gam, x / MEC2_EV, eps, *s[3:]) * nn
                              for x, nn in zip(es, s[2])])
                rate = loglog_integral(y.T, es)
            out[i] += loglog_integral(n * rate, gam)
    return out / MEC2_EV


# ----------------------------------------------------------- bremsstrahlung


def brems_s1(g, k, raw=False):
    """Baring et al. 1999 Eq. A2, cm2 per mec2.

    The approximation is negative within ~0.5 MeV of the kinematic limit g=k;
    zero there unless raw."""
    with np.errstate(all="ignore"):
        r = (4 * R0 ** 2 * ALPHA_F / k * (1 + (1 / 3.0 - k / g) * (1 - k / g))
             * (np.log(2 * g * (g - k) / k) - 0.5))
    if raw:
        return np.where(g * (1 - 1e-12) > k, r, 0.0)
    return np.where((g > k) & (r > 0), r, 0.0)


def brems_s2(g, k):
    """Eq. A3."""
    with np.errstate(all="ignore"):
        if k <= 0.5:
            br = (16 * (1 - k + k ** 2) * np.log(g / k) - 1 / k ** 2 + 3 / k - 4
                  - 4 * k - 8 * k ** 2
                  - (2 * (1 - 2 * k) * math.log(1 - 2 * k) if k < 0.5 else 0.0)
                  * (1 / (4 * k ** 3) - 1 / (2 * k ** 2) + 3 / k - 2 + 4 * k))
        else:
            br = 2 / k * ((4 - 1 / k + 1 / (4 * k ** 2)) * np.log(2 * g)
                          - 2 + 2 / k - 5 / (8 * k ** 2))
    return np.where(g > k, R0 ** 2 * ALPHA_F / (3 * k) * br, 0.0)


def brems_ee(g, k, raw=False):
    g = np.asarray(g, dtype=float)
    A = 1 - 8 / 3.0 * (g - 1) ** 0.2 / (g + 1) * (k / g) ** (1 / 3.0)
    rel = (brems_s1(g, k, raw) + brems_s2(g, k)) * A
    with np.errstate(all="ignore"):
        x = 4 * k / (g ** 2 - 1)
        beta = np.sqrt(1 - 1 / g ** 2)
        B = 1 + 0.5 * (g ** 2 - 1)
        Cc = 10 * x * g * beta * (2 + g * beta) / (1 + x ** 2 * (g ** 2 - 1))
        F = (B * (17 - 3 * x ** 2 / (2 - x) ** 2 - Cc) * np.sqrt(1 - x)
             + (12 * (2 - x) - 7 * x ** 2 / (2 - x) - 3 * x ** 4 / (2 - x) ** 3)
             * np.log((1 + np.sqrt(1 - x)) / np.sqrt(x)))
        nr = 4 * R0 ** 2 * ALPHA_F / (15 * k) * F
    nr = np.where((x < 1) & (g >= 1) & ((nr > 0) | raw), nr, 0.0)
    return np.where(g * MEC2_EV <= 2e6, nr, rel)


def bremsstrahlung(pd, eph_ev, n0=1.0, w_ee=1.0875, w_ep=1.2625, emin_ev=1e8,
                   emax_ev=1e9 * MEC2_EV, ned=300, raw=False):
    gam = electron_grid(emin_ev, emax_ev, ned)
    n = particles(pd, gam * MEC2_EV) * MEC2_EV
    out = []
    for e in eph_ev:
        k = e / MEC2_EV
        r = 0.0
        if w_ee:
            r += w_ee * loglog_integral(n * brems_ee(gam, k, raw), gam, raw)
        if w_ep:
            r += w_ep * loglog_integral(n * brems_s1(gam, k, raw), gam, raw)
        out.append(n0 * C * r / MEC2_EV)
    return np.array(out)


# --------------------------------------------------- pion decay, Kafexhiu+ 14

MPG = MP * C ** 2 / EV * 1e-9  # GeV
MPIG = 0.1349766
TTH = 2 * MPIG + MPIG ** 2 / (2 * MPG)
KATV = {
    # E_trans, Table IV (a1..a5), Table VII (b1..b3), Table V (lambda, alpha, beta, gamma)
    "Geant4": (100.0, (0.728, 0.596, 0.491, 0.2503, 0.117), (9.13, 0.35, 9.7e-3),
               (3.0, 0.5, 4.9, 1.0)),
    "Pythia8": (50.0, (0.652, 0.0016, 0.488, 0.1928, 0.483), (9.06, 0.3795, 0.01105),
                (3.5, 0.5, 4.0, 1.0)),
    "SIBYLL": (100.0, (5.436, 0.254, 0.072, 0.075, 0.166), (10.77, 0.412, 0.01264),
               (3.55, 0.5, 3.6, 1.0)),
    "QGSJET": (100.0, (0.908, 0.0009, 6.089, 0.176, 0.448), (13.16, 0.4419, 0.01439),
               (3.55, 0.5, 4.5, 1.0)),
}


def katv_inel(T):
    """mb, Eq. 1"""
    L = math.log(T / TTH)
    return (30.7 - 0.96 * L + 0.18 * L * L) * (1 - (TTH / T) ** 1.9) ** 3


def katv_pi(T, model):
    """Inclusive pi0 cross section, mb."""
    etr, a, _, _ = KATV[model]
    if T <= TTH:
        return 0.0
    s = 2 * MPG * (T + 2 * MPG)
    if T < 2.0:
        mres, gres = 1.1883, 0.2264
        gm = math.sqrt(mres ** 2 * (mres ** 2 + gres ** 2))
        K = math.sqrt(8.0) * mres * gres * gm / (math.pi * math.sqrt(mres ** 2 + gm))
        fbw = MPG * K / (((math.sqrt(s) - MPG) ** 2 - mres ** 2) ** 2
                         + mres ** 2 * gres ** 2)
        eta = math.sqrt(max(0.0, (s - MPIG ** 2 - 4 * MPG ** 2) ** 2
                            - 16 * MPIG ** 2 * MPG ** 2)) / (2 * MPIG * math.sqrt(s))
        one = 7.66e-3 * eta ** 1.95 * (1 + eta + eta ** 5) * fbw ** 1.86
        two = 0.0 if T < 0.56 else 5.7 / (1 + math.exp(-9.3 * (T - 1.4)))
        return one + two
    if T < 5.0:
        Q = (T - TTH) / MPG
        return katv_inel(T) * (-6e-3 + 0.237 * Q - 0.023 * Q * Q)
    if T < etr:
        a = KATV["Geant4"][1]
    xi = (T - 3.0) / MPG
    n = (a[0] * xi ** a[3] * (1 + math.exp(-a[1] * xi ** a[4]))
         * (1 - math.exp(-a[2] * xi ** 0.25)))
    return katv_inel(T) * n


def katv_kin(T):
    s = 2 * MPG * (T + 2 * MPG)
    ecm = (s - 4 * MPG ** 2 + MPIG ** 2) / (2 * math.sqrt(s))
    pcm = math.sqrt(max(0.0, ecm ** 2 - MPIG ** 2))
    gcm = (T + 2 * MPG) / math.sqrt(s)
    bcm = math.sqrt(1 - gcm ** -2)
    epimax = gcm * (ecm + pcm * bcm)
    gpi = epimax / MPIG
    egmax = MPIG / 2 * gpi * (1 + math.sqrt(max(0.0, 1 - gpi ** -2)))
    return epimax, egmax


def katv_nuclear(T):
    if T < 1.0:
        return 1.9141
    sig = katv_inel(T)
    G = 1 + math.log(max(1.0, sig / katv_inel(1000.0)))
    return 1.37 + 0.39 * 10 * math.pi * G / sig


def katv_dsigma(T, eg, model, nuc):
    """d sigma/d E_gamma, cm2/GeV"""
    if T <= TTH:
        return 0.0
    epimax, egmax = katv_kin(T)
    etr, _, b, F = KATV[model]
    sp = katv_pi(T, model)
    th = T / MPG
    if T < 1.0:
        amax = 5.9 * sp / epimax
    else:
        if T < 5.0:
            b = (9.53, 0.52, 0.054)
        elif T < etr:
            b = KATV["Geant4"][2]
        amax = b[0] * th ** -b[1] * math.exp(b[2] * math.log(th) ** 2) * sp / MPG
    # spectral shape, Table V
    q = (T - 1.0) / MPG
    if T <= 1.0:
        lam, al, be, ga = 1.0, 1.0, 3.29 - 0.2 * th ** -1.5, 0.0
    elif T <= 4.0:
        mu = 1.25 * q ** 1.25 * math.exp(-1.25 * q)
        lam, al, be, ga = 3.0, 1.0, mu + 2.45, mu + 1.45
    elif T <= 20.0:
        mu = 1.25 * q ** 1.25 * math.exp(-1.25 * q)
        lam, al, be, ga = 3.0, 1.0, 1.5 * mu + 4.95, mu + 1.5
    elif T <= etr:
        lam, al, be, ga = 3.0, 0.5, 4.2, 1.0
    else:
        lam, al, be, ga = F
    yg = eg + MPIG ** 2 / (4 * eg)
    ygmax = egmax + MPIG ** 2 / (4 * egmax)
    X = (yg - MPIG) / (ygmax - MPIG)
    if X >= 1 or X < 0:
        return 0.0
    Cx = lam * MPIG / ygmax
    f = (1 - X ** al) ** be / (1 + X / Cx) ** ga
    r = amax * f
    if nuc:
        r *= katv_nuclear(T)
    return r * 1e-27


def proton_grid(epmin_gev, epmax_gev, npd):
    lo, hi = math.log10(epmin_gev), math.log10(epmax_gev)
    return np.logspace(lo, hi, max(10, int(npd * (hi - lo))))


def pion_decay(pd, eph_ev, nh=1.0, model="Pythia8", nuc=True,
               epmin_gev=MPG + 0.27966184 + 1e-4, epmax_gev=1e7, npd=100):
    ep = proton_grid(epmin_gev, epmax_gev, npd)
    j = particles(pd, ep * 1e9) * 1e9
    out = []
    for e in eph_ev:
        ds = np.array([katv_dsigma(x - MPG, e * 1e-9, model, nuc) for x in ep])
        out.append(nh * C * loglog_integral(j * ds, ep) * 1e-9)
    return np.array(out)


# --------------------------------------------------------------- Kelner+ 06


def k06_inel(ep_tev):
    L = np.log(ep_tev)
    s = 34.3 + 1.88 * L + 0.25 * L * L
    with np.errstate(all="ignore"):
        low = np.where(ep_tev > 1.22e-3, (1 - (1.22e-3 / ep_tev) ** 4) ** 2, 0.0)
    return np.where(ep_tev <= 0.1, s * low, s) * 1e-27


def k06_F(x, ep_tev):
    L = np.log(ep_tev)
    B = 1.30 + 0.14 * L + 0.011 * L ** 2
    be = 1 / (1.79 + 0.11 * L + 0.008 * L ** 2)
    k = 1 / (0.801 + 0.049 * L + 0.014 * L ** 2)
    xb = x ** be
    y = k * xb * (1 - xb)
    with np.errstate(all="ignore"):
        f = (B * np.log(x) / x * ((1 - xb) / (1 + y)) ** 4
             * (1 / np.log(x) - 4 * be * xb / (1 - xb)
                - 4 * k * be * xb * (1 - 2 * xb) / (1 + y)))
    return np.where(x < 1, f, 0.0)


def kelner_hi(pd, eg_tev, n=4000):
    """Full calculation (Eq. 72), per eV and second for 1/cm3."""
    # x = exp(-t), t in (0, 40)
    t = np.linspace(1e-7, 30.0, n)
    x = np.exp(-t)
    ep = eg_tev / x
    j = particles(pd, ep * 1e12) * 1e12
    y = k06_inel(ep) * j * k06_F(x, ep)  # dx/x = dt
    y = np.nan_to_num(y)
    from scipy.integrate import simpson

    return C * simpson(y, x=t) * 1e-12


def kelner_lo(pd, eg_tev, n=6000):
    """Delta-functional approximation (Eq. 77-78) with n-tilde = 1."""
    mpi, mp, kpi = 1.349766e-4, MPG * 1e-3, 0.17
    emin = eg_tev + mpi ** 2 / (4 * eg_tev)
    # E_pi = m cosh(s): dE/sqrt(E^2 - m^2) = ds
    s0 = math.acosh(emin / mpi)
    s = np.linspace(s0, s0 + 30.0, n)
    epi = mpi * np.cosh(s)
    ep = mp + epi / kpi
    j = particles(pd, ep * 1e12) * 1e12
    y = C / kpi * k06_inel(ep) * j
    from scipy.integrate import simpson

    return 2 * simpson(np.nan_to_num(y), x=s) * 1e-12
