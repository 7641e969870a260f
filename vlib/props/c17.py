"""C17: several tables are merged without mixing their measurements."""
import numpy as np
from hypothesis import strategies as st

from naima.utils import validate_data_table

from .. import tables
from ..gen import chance
from ..harness import Sub
from ..util import fail, raises

RULE = (
    "two to four data sets of flux (or of luminosity), some at the same energies, each in "
    "any representation, and the form requested, drawn by Hypothesis; non-trivial: the "
    "tables differ in form, bins, confidence level or upper limits"
)
ASSUMPTIONS = []
FLUX = ("flux", "differential flux")
POWER = ("power", "differential power")


@st.composite
def cases(draw):
    kinds = draw(st.sampled_from([FLUX, FLUX, POWER]))
    sets = [draw(tables.datasets(kinds=kinds, max_size=5, ulerr=True))
            for _ in range(draw(st.integers(2, 4)))]
    if draw(chance(0.3)):  # common energies
        pool = sorted({r["e"] for r in sets[0]["rows"]})
        rows = sets[1]["rows"]
        for r, e in zip(rows, pool):
            if e not in [x["e"] for x in rows]:
                r["e"] = e
    order = draw(st.permutations(list(range(len(sets)))))
    return {"sets": sets, "forms": [draw(tables.forms(d)) for d in sets],
            "sed": draw(st.sampled_from([None, True, False])), "order": order,
            "container": draw(st.sampled_from(["list", "tuple"]))}


def check(case):
    sets, forms = case["sets"], case["forms"]
    tabs = [tables.table(d, f) for d, f in zip(sets, forms)]
    before = [tables.snapshot(t) for t in tabs]
    power = "power" in sets[0]["kind"]
    for order in (list(range(len(sets))), case["order"]):
        arg = [tabs[i] for i in order]
        if case["container"] == "tuple":
            arg = tuple(arg)
        v = validate_data_table(arg, sed=case["sed"])
        sed = tables.SED[sets[order[0]]["kind"]] if case["sed"] is None else case["sed"]
        rows = []
        for g, i in enumerate(order):
            rows += tables.expected(sets[i], group=g)
        tables.check_validated(v, rows, sed, power, "tables merged in order %r" % order)
        if "group" not in v.colnames:
            fail("no column group in the merged table")
        w = validate_data_table(v)
        tables.check_validated(w, rows, sed, power, "merged table validated again")
    for t, b in zip(tabs, before):
        if tables.snapshot(t) != b:
            fail("an input table was modified")
    kinds = {(d["kind"], d["bins"], d["cl"]) for d in sets}
    return ["mixed form"] if len({d["kind"] for d in sets}) > 1 else len(kinds) > 1


@st.composite
def mixed_cases(draw):
    sets = [draw(tables.datasets(kinds=FLUX, max_size=3)),
            draw(tables.datasets(kinds=POWER, max_size=3))]
    if draw(chance(0.3)):
        sets.append(draw(tables.datasets(max_size=3)))
    return {"sets": sets, "forms": [draw(tables.forms(d)) for d in sets],
            "order": draw(st.permutations(list(range(len(sets))))),
            "sed": draw(st.sampled_from([None, True, False]))}


def check_mixed(case):
    tabs = [tables.table(d, f) for d, f in zip(case["sets"], case["forms"])]
    raises(TypeError, lambda: validate_data_table([tabs[i] for i in case["order"]],
                                                  sed=case["sed"]),
           "tables of flux and luminosity together")


SUBS = [
    Sub("merge", cases(), check, quick=320, thorough=5000),
    Sub("mixed", mixed_cases(), check_mixed, quick=80, thorough=800),
]
