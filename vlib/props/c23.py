"""C23: save_run and read_run."""
import hashlib
import os
import tempfile

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

import naima

from .. import chains, tables
from ..gen import chance
from ..harness import Sub
from ..util import fail, raises

RULE = (
    "samplers with arbitrary chains, log-probabilities, labels, run information, data and "
    "blobs, and file names and options, drawn by Hypothesis; non-trivial: blobs besides the "
    "flux, or more than one step"
)
ASSUMPTIONS = [
    "blobs have the same structure and shape at every step and walker",
    "a Quantity blob of shape (1, n) may be read as a list of one Quantity"]
KINDS = ["scalar", "units", "unitsarray", "array", "float", "pair", "flux", "list", "ndarray", "string", "none", "int",
         "tuple1", "mixed tuple", "triple", "scalars", "ragged", "2d"]
SKIPPED = ["ndarray", "string", "none", "int", "ragged"]


@st.composite
def cases(draw):
    c = draw(chains.chains(blobs=KINDS, max_steps=6, max_blobs=4, data={"min_size": 1},
                           max_dim=draw(st.sampled_from([4, 4, 4, 13]))))
    n = c["spec"]["ndim"]
    if draw(chance(0.2)):
        c["labels"] = ["log10(α / %d)" % i for i in range(n)]
    # each table its own group
    return {"run": c, "suffix": draw(st.sampled_from(["h5", "hdf5"])),
            "compression": draw(st.sampled_from([None, True, False, "gzip"])),
            "info": draw(st.dictionaries(st.sampled_from(["a", "b", "note", "list"]), st.one_of(
                st.integers(-5, 5), st.floats(-1e6, 1e6), st.text("abc ", max_size=5),
                st.lists(st.floats(-1e3, 1e3), min_size=1, max_size=4), st.booleans()),
                max_size=3)),
            "other": draw(chains.chains(blobs=["scalar", "pair"], max_steps=3)),
            "foreign": draw(st.sampled_from([0, 1, 100, 5000])),
            "bad": draw(st.sampled_from(["run", "run.dat", "run.h5.txt", "run.hdf", "run.H5",
                                         "run_h5", "run.h55", "h5", ".h5"])),
            "path": draw(st.booleans())}


def same_blob(got, want, kind, where):
    if kind in SKIPPED:
        if got is not None:
            fail("%s: %r in place of a blob that cannot be saved", where, got)
        return
    if isinstance(want, (tuple, list)):
        if not isinstance(got, list) or len(got) != len(want):
            fail("%s: %r, saved %r", where, got, want)
        for g, w in zip(got, want):
            same_q(g, w, where)
        return
    if kind.startswith("units") and isinstance(got, u.Quantity):
        # samples in several units are stored in one of them
        want2 = want.to(got.unit)
        if np.shape(got) == np.shape(want2) and np.allclose(got.value, want2.value, rtol=1e-12,
                                                            atol=0):
            return
    same_q(got, want, where)


def same_q(g, w, where):
    if not isinstance(g, u.Quantity):
        fail("%s: %r, saved %r", where, g, w)
    w = u.Quantity(w)
    if g.unit != w.unit or g.shape != w.shape or \
            not np.array_equal(g.value, w.value, equal_nan=True):
        fail("%s: %r, saved %r", where, g, w)


def save(path, s, case, **kw):
    if case["compression"] is not None:
        kw["compression"] = case["compression"]
    naima.save_run(path, s, **kw)


def compare(r, s, c, what):
    chain, lnp = chains.arrays(c)
    for name, got, want in (("chain", r.get_chain(), chain), ("log_prob", r.get_log_prob(), lnp),
                            ("flat chain", r.get_chain(flat=True), s.get_chain(flat=True)),
                            ("flat log_prob", r.get_log_prob(flat=True),
                             s.get_log_prob(flat=True))):
        if np.shape(got) != np.shape(want) or not np.array_equal(got, want):
            fail("%s: %s differs: shape %r, saved %r", what, name, np.shape(got), np.shape(want))
    if list(r.labels) != list(s.labels):
        fail("%s: labels %r, saved %r", what, list(r.labels), list(s.labels))
    for k, v in s.run_info.items():
        if k not in r.run_info:
            fail("%s: no %r in run_info", what, k)
        g = r.run_info[k]
        if not (np.shape(g) == np.shape(v) and np.all(np.asarray(g) == np.asarray(v))):
            fail("%s: run_info[%r] = %r, saved %r", what, k, g, v)
    acc = np.mean(s.acceptance_fraction)
    if abs(np.mean(r.acceptance_fraction) - acc) > 1e-12:
        fail("%s: acceptance fraction %r, saved %r", what, r.acceptance_fraction, acc)
    a, b = tables.snapshot(r.data), tables.snapshot(s.data)
    a.pop("type"), b.pop("type")
    am, bm = a.pop("meta"), b.pop("meta")
    if a != b:
        fail("%s: data %r, saved %r", what, a, b)
    # blobs
    want = s.get_blobs()
    got = r.get_blobs()
    flat = r.get_blobs(flat=True)
    kinds = ["flux"] + (["float"] if c["blobs"] is None or not c["blobs"]
                        else [x["kind"] for x in c["blobs"]])
    saved = [i for i, k in enumerate(kinds) if k not in SKIPPED]
    nsteps, nw = lnp.shape
    for i in range(nsteps):
        for k in range(nw):
            for where, g in (("blobs", got[i][k]), ("flat blobs", flat[i * nw + k])):
                if len(g) <= saved[-1] or len(g) > len(kinds):
                    fail("%s: %d %s, saved %r", what, len(g), where, kinds)
                for j in range(len(g)):
                    same_blob(g[j], want[i][k][j], kinds[j], "%s: step %d walker %d, %s[%d]"
                              % (what, i, k, where, j))


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def check(case):
    c = case["run"]
    s = chains.build(c)
    s.run_info.update(case["info"])
    before = chains.snapshot(s)
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        path = os.path.join(d, "run." + case["suffix"])
        if case["path"]:
            from pathlib import Path
            path = Path(path)
        save(path, s, case)
        if chains.snapshot(s) != before:
            fail("saving modified the sampler")

        def modelfn(p, data):
            return None

        r = naima.read_run(path, modelfn=modelfn)
        compare(r, s, c, "run read from file")
        if r.modelfn is not modelfn:
            fail("the model function given is not kept")
        # again: not overwritten, or only if requested
        d0 = digest(path)
        o = chains.build(case["other"])
        save(path, o, case)
        if digest(path) != d0:
            fail("an existing file was modified without clobber")
        compare(naima.read_run(path), s, c, "run read again")
        # a run read from file can be saved again
        path2 = os.path.join(d, "again.h5")
        save(path2, r, case)
        kinds = ["flux"] + [x["kind"] for x in c["blobs"] or []]
        if not set(kinds) & set(SKIPPED):
            compare(naima.read_run(path2), s, c, "run saved and read twice")
        save(path, o, case, clobber=True)
        compare(naima.read_run(path), o, case["other"], "run saved with clobber")
        # files of other origin are kept as well
        for suffix in (".h5", ".hdf5"):
            foreign = os.path.join(d, "foreign" + suffix)
            with open(foreign, "wb") as f:
                f.write(b"x" * case["foreign"])
            d0 = digest(foreign)
            save(foreign, s, case)
            if digest(foreign) != d0:
                fail("an existing file of %d bytes was overwritten", case["foreign"])
        save(foreign, s, case, clobber=True)
        compare(naima.read_run(foreign), s, c, "run saved in place of a foreign file")
        # other suffixes
        bad = os.path.join(d, "sub", case["bad"])
        os.mkdir(os.path.dirname(bad))
        raises(ValueError, lambda: save(bad, s, case), "file name %r" % case["bad"])
        if os.listdir(os.path.dirname(bad)):
            fail("file written for the wrong file name %r: %r", case["bad"],
                 os.listdir(os.path.dirname(bad)))
    labels = sorted(set(kinds))
    return labels + ([] if len(kinds) > 1 or c["nsteps"] > 1 else ["trivial"])


SUBS = [Sub("round trip", cases(), check, quick=480, thorough=6000)]
