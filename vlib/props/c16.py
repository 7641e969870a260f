"""C16: validation of a data table is canonical."""
import numpy as np
from hypothesis import strategies as st

from naima.utils import validate_data_table

from .. import tables
from ..gen import chance
from ..harness import Sub
from ..util import close, fail

RULE = (
    "measurements (energies, fluxes, errors, bins, upper limits, confidence level) and two "
    "of their representations as tables drawn by Hypothesis; non-trivial: at least two rows"
)
ASSUMPTIONS = []


@st.composite
def cases(draw):
    ds = draw(tables.datasets(ulerr=True, near=True))
    return {"ds": ds, "forms": [draw(tables.forms(ds)), draw(tables.forms(ds))],
            "sed": draw(st.sampled_from([None, True, False])),
            "aslist": draw(chance(0.3))}


def check(case):
    ds = case["ds"]
    rows = tables.expected(ds)
    power = "power" in ds["kind"]
    own = tables.SED[ds["kind"]]
    for form in case["forms"]:
        t = tables.table(ds, form)
        before = tables.snapshot(t)
        arg = [t] if case["aslist"] else t
        v = validate_data_table(arg, sed=case["sed"]) if case["sed"] is not None \
            else validate_data_table(arg)
        sed = own if case["sed"] is None else case["sed"]
        tables.check_validated(v, rows, sed, power, "validated table")
        if tables.snapshot(t) != before:
            fail("the input table was modified: %r, was %r", tables.snapshot(t), before)
        vs = tables.snapshot(v)
        w = validate_data_table(v)
        tables.check_validated(w, rows, sed, power, "table validated twice")
        for other in (True, False):
            w = validate_data_table(v, sed=other)
            tables.check_validated(w, rows, other, power,
                                   "validated table converted to sed=%s" % other)
        if tables.snapshot(v) != vs:
            fail("a validated table was modified by validating it again")
    labels = ["ul"] if any(r["ul"] for r in rows) else []
    labels.append("bins-" + ds["bins"])
    return labels + (["trivial"] if len(rows) < 2 else [])


SUBS = [Sub("representations", cases(), check, quick=400, thorough=6000)]
