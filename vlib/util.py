import math

import astropy.units as u
import numpy as np

from .harness import Violation


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def arr(x):
    return np.atleast_1d(np.asarray(x, dtype=float)).ravel()


def close(got, want, rtol=1e-9, atol=0.0, what="value"):
    """Elementwise comparison with a stated tolerance; NaN never agrees."""
    g, w = arr(got), arr(want)
    if g.shape != w.shape:
        fail("%s: shape %s, expected %s", what, g.shape, w.shape)
    with np.errstate(all="ignore"):
        ok = np.abs(g - w) <= atol + rtol * np.abs(w)
        ok |= (g == w)
    if not np.all(ok):
        i = int(np.flatnonzero(~ok)[0])
        fail("%s: got %r, expected %r (index %d, rtol %g atol %g)",
             what, float(g[i]), float(w[i]), i, rtol, atol)


def qval(q, unit, what="value"):
    """Value of q in `unit`; a Quantity of another dimension is a violation."""
    unit = u.Unit(unit)
    if not isinstance(q, u.Quantity):
        if unit == u.dimensionless_unscaled:
            return np.asarray(q, dtype=float)
        fail("%s: expected a Quantity in %s, got %r", what, unit, type(q).__name__)
    try:
        return q.to(unit).value
    except u.UnitConversionError:
        fail("%s: expected units of %s, got %s", what, unit, q.unit)


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        fail("%s: expected %s, got %s: %s", what, exc, type(e).__name__, e)
    fail("%s: expected %s, nothing was raised", what, exc)


def energy_input(values_tev, unit, form):
    """The energies (in TeV) as one of the accepted inputs."""
    from astropy.table import QTable, Table

    q = (np.asarray(values_tev, dtype=float) * u.TeV).to(unit)
    if form == "scalar":
        return q.ravel()[0]
    if form == "dict":
        return {"energy": q, "other": 1}
    if form == "table":
        t = Table()
        t["energy"] = q
        return t
    if form == "qtable":
        t = QTable()
        t["energy"] = q
        return t
    if form == "list":
        return [x for x in q]
    return q


def finite(x, what="value"):
    if not np.all(np.isfinite(arr(x))):
        fail("%s is not finite: %r", what, np.asarray(x).tolist())


def isclose(a, b, rtol):
    return math.isclose(a, b, rel_tol=rtol, abs_tol=0.0)
