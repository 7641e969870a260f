"""C15: integration of piecewise power laws."""
import copy
import math

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from naima.utils import trapz_loglog

from ..gen import chance, linf, logf
from ..harness import Sub
from ..util import close, fail

RULE = (
    "points, indices of the power laws between them (any, and exactly or almost -1), zero "
    "values and repeated points, now and then values hundreds of decades apart, shapes, axis, units and factors drawn by Hypothesis; "
    "non-trivial: at least one interval contributes"
)
ASSUMPTIONS = ["relative tolerance 1e-9, or more where an index b is so close to -1 that the "
               "closed form loses digits: 4e-15 / |(b + 1) ln(x2 / x1)|"]
UNITS = ["", "eV", "1/(s cm2 TeV)", "erg/s", "1/GeV", "TeV"]

PLAIN = linf(-4, 4)
INDEX = st.one_of(PLAIN, PLAIN, st.sampled_from([-1.0, -1.0 + 1e-11, -1.0 - 1e-12,
                                            -1 + 1e-9, -1 - 1e-6, -1 + 1e-4, 0.0, -2.0]))


@st.composite
def curve(draw, n, special):
    x = [draw(logf(1e-10, 1e10))]
    ind, zero = [], []
    for _ in range(n - 1):
        x.append(x[-1] * (1.0 if draw(chance(0.08)) else draw(logf(1.001 if special else 1.02, 30))))
        ind.append(draw(INDEX if special else PLAIN))
    for _ in range(n):
        zero.append(draw(chance(0.1)))
    c = {"x": x, "ind": ind, "zero": zero, "y0": draw(logf(1e-30, 1e30))}
    if draw(chance(0.15)):
        # values many decades apart, as close to a cutoff
        ly = [draw(linf(-290, 250))]
        for _ in range(n - 1):
            ly.append(min(max(draw(linf(-290, 250)), ly[-1] - 300), ly[-1] + 300))
        c["logy"] = ly
    return c


@st.composite
def cases(draw):
    n = draw(st.integers(2, 12))
    m = draw(st.integers(1, 3))
    special = draw(chance(0.4))
    c = [draw(curve(n, special))]
    for _ in range(m - 1):
        c.append(dict(draw(curve(n, special)), x=c[0]["x"]))
    return {"curves": c, "layout": draw(st.sampled_from(["rows", "columns", "3d", "1d"])),
            "negaxis": draw(st.booleans()), "yunit": draw(st.sampled_from(UNITS)),
            "xunit": draw(st.sampled_from(UNITS)), "k": draw(logf(1e-5, 1e5)),
            "cut": draw(st.integers(1, n - 1)), "x2d": draw(chance(0.25)),
            "asint": draw(chance(0.1))}


def values(c):
    x = np.array(c["x"])
    if "logy" in c:
        return x, np.where(c["zero"], 0.0, 10.0 ** np.array(c["logy"]))
    y = [c["y0"]]
    for i, b in enumerate(c["ind"]):
        y.append(y[-1] * (x[i + 1] / x[i]) ** b)
    y = np.where(c["zero"], 0.0, y)
    return x, y


def exact(c):
    """Contribution of each interval, and the precision to expect.

    The closed form (x2 y2 - x1 y1) / (b + 1) loses digits close to b = -1.
    """
    x, y = values(c)
    out, rtol = [], 1e-9
    for i, b in enumerate(c["ind"]):
        if c["zero"][i] or c["zero"][i + 1] or x[i] == x[i + 1]:
            out.append(0.0)
            continue
        lr = math.log(x[i + 1] / x[i])
        if "logy" in c:
            b = math.log(y[i + 1] / y[i]) / lr
        s = (b + 1) * lr
        if s > 1:
            out.append(x[i + 1] * y[i + 1] * lr * -math.expm1(-s) / s)
        else:
            g = 1.0 if s == 0 else math.expm1(s) / s
            out.append(x[i] * y[i] * lr * g)
        if abs(b + 1) > 5e-11:
            rtol = max(rtol, 4e-15 / abs(s))
    return np.array(out), rtol


def check(case):
    curves = case["curves"]
    if case["layout"] == "1d":
        curves = curves[:1]
    x = np.array(curves[0]["x"])
    Y = np.array([values(c)[1] for c in curves])
    parts = [exact(c) for c in curves]
    rtol = max(t for _, t in parts)
    P = np.array([p for p, _ in parts])
    ndim, axis = 2, 1
    y, conv = Y, (lambda a: a)
    if case["layout"] == "1d":
        y, ndim, axis = Y[0], 1, 0
        P = P[0]
    elif case["layout"] == "columns":
        y, axis = Y.T, 0
        conv = np.transpose
    elif case["layout"] == "3d":
        y, ndim, axis = Y.T[None, :, :], 3, 1
        conv = (lambda a: a[0].T)
    xx = x
    if case["x2d"] and ndim == 2:
        xx = np.broadcast_to(x if axis == 1 else x[:, None], y.shape).copy()
    ax = axis - ndim if case["negaxis"] else axis
    yu, xu = u.Unit(case["yunit"]), u.Unit(case["xunit"])
    yq = y * yu if case["yunit"] else y
    xq = xx * xu if case["xunit"] else xx
    y_in, x_in = copy.deepcopy(yq), copy.deepcopy(xq)

    def integral(a, b, **kw):
        r = trapz_loglog(a, b, axis=ax, **kw)
        unit = yu * xu
        if case["yunit"] or case["xunit"]:
            if not isinstance(r, u.Quantity) or r.unit != unit:
                fail("integral of %s d(%s) has units %s", yu, xu, getattr(r, "unit", None))
            r = r.value
        return np.asarray(r)

    total = integral(yq, xq)
    want = P.sum(axis=-1)
    flat = total if ndim < 3 else total[0]
    close(flat, want, rtol=rtol, atol=1e-300, what="integral (%s)" % case["layout"])
    iv = integral(yq, xq, intervals=True)
    close(conv(iv) if ndim > 1 else iv, P, rtol=rtol, atol=rtol * np.abs(P).max(),
          what="intervals")
    close(iv.sum(axis=ax), total, rtol=1e-12, atol=1e-300, what="sum of the intervals")
    k = case["k"]
    close(integral(yq * k, xq), total * k, rtol=max(2 * rtol, 1e-8), atol=1e-300, what="integral of k y")
    close(integral(-yq, xq), -total, rtol=1e-12, atol=1e-300, what="integral of -y")
    rev = tuple(slice(None, None, -1) if i == axis else slice(None) for i in range(ndim))
    xr = xq[rev] if xx.ndim == ndim else xq[::-1]
    close(integral(yq[rev], xr), -total, rtol=max(2 * rtol, 1e-8), atol=1e-300,
          what="integral in the other direction")
    close(integral(yq, xq * k), total * k, rtol=max(2 * rtol, 1e-8), atol=1e-300,
          what="integral over k x")
    cut = case["cut"]
    a = tuple(slice(0, cut + 1) if i == axis else slice(None) for i in range(ndim))
    b = tuple(slice(cut, None) if i == axis else slice(None) for i in range(ndim))
    s = total * 0
    for sl in (a, b):
        if y[sl].shape[axis] > 1:
            s = s + integral(yq[sl], xq[sl] if xx.ndim == ndim else
                             xq[sl[axis]])
    close(s, total, rtol=1e-12, atol=1e-300, what="sum of two adjacent ranges")
    if not (np.array_equal(y_in, yq) and np.array_equal(x_in, xq)):
        fail("trapz_loglog modified its arguments")
    if ax in (-1,) or ndim == 1:
        close(np.asarray(u.Quantity(trapz_loglog(yq, xq)).value), total, rtol=1e-12,
              atol=1e-300, what="integral along the default axis")
    return ["hard" if rtol > 1e-9 else "easy"] + ([] if np.any(want > 0) else ["trivial"])


SUBS = [Sub("power-laws", cases(), check, quick=2400, thorough=40000)]
