"""Runner of the property checks.

A property module (vlib/props/<id>.py) defines

    RULE  = "what makes a case non-trivial"
    SUBS  = [Sub(name, strategy, check, quick=N, thorough=M, ...), ...]

`strategy` is a Hypothesis strategy producing plain (JSON) data: the *case*.
`check(case)` rebuilds the real objects from the case, runs naima and compares
against the oracle, raising Violation (or any other exception) if the property
is broken.  It returns None/True for a non-trivial case, False for a trivial
one, or a list of labels (non-trivial unless it contains "trivial").

Every random choice comes from Hypothesis; the seed of each shard is derived
from VERIF_SEED, so a run is a pure function of the code and VERIF_SEED."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(AssertionError):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=None,
                 examples=(), shrink_s=40.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.examples = list(examples)
        self.shrink_s = shrink_s


def _dumps(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if hasattr(o, "tolist"):
        return o.tolist()
    raise TypeError("case is not plain data: %r" % (o,))


def _prepare(case):
    """State that a case starts from: cases must not depend on earlier ones."""
    import numpy as np

    np.random.seed(int(hashlib.sha256(_dumps(case).encode()).hexdigest()[:8], 16))
    np.seterr(all="ignore")


def run_case(sub, case):
    case = json.loads(_dumps(case))  # what a replay file would give
    _prepare(case)
    return sub.check(case)


class _Job:
    """One shard of a sub-check, run in its own process."""

    def __init__(self, prop, sub, shard, n, seed, out, deadline):
        self.prop, self.sub, self.shard, self.n = prop, sub, shard, n
        self.seed, self.out, self.deadline = seed, out, deadline

    def run(self):
        res = {"sub": self.sub.name, "shard": self.shard, "status": "ok"}
        self.stats = {"evaluations": 0, "nontrivial": set(), "labels": {},
                      "samples": [], "skipped": 0}
        self.fail = None
        t0 = time.time()
        try:
            self._explore()
        except BaseException as e:  # noqa: BLE001
            if self.fail is None:
                res["status"] = "error"
                res["message"] = "".join(traceback.format_exception(e))
        if self.fail is not None:
            res["status"] = "violation"
            res.update(self.fail)
        st = self.stats
        res["evaluations"] = st["evaluations"]
        res["nontrivial"] = sorted(st["nontrivial"])
        res["labels"] = st["labels"]
        res["samples"] = st["samples"]
        res["skipped"] = st["skipped"]
        res["wall_s"] = round(time.time() - t0, 2)
        with open(self.out + ".tmp", "w") as f:
            f.write(json.dumps(res, default=_default))
        os.rename(self.out + ".tmp", self.out)

    def _one(self, case):
        st = self.stats
        if self.fail is None and time.time() > self.deadline:
            st["skipped"] += 1  # out of time: inconclusive, never a violation
            return
        if self.fail is not None and time.time() > self.fail_t + self.sub.shrink_s:
            return  # shrunk enough; the smallest failure found is kept
        key = hashlib.sha256(_dumps(case).encode()).hexdigest()[:16]
        if self.fail is not None and case == self.fail["case"]:
            # final replay of the shrunk case
            raise Violation(self.fail["message"])
        try:
            out = run_case(self.sub, case)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # noqa: BLE001
            if type(e).__module__.startswith("hypothesis"):
                raise
            if self.fail is None:
                self.fail_t = time.time()
            self.fail = {
                "case": json.loads(_dumps(case)),
                "message": "%s: %s" % (type(e).__name__, str(e)[:2000]),
                "traceback": "".join(traceback.format_exception(e))[-6000:],
            }
            raise
        if self.fail is not None:
            return
        st["evaluations"] += 1
        labels = []
        if out is False:
            labels = ["trivial"]
        elif isinstance(out, (list, tuple)):
            labels = list(out)
        for lab in set(labels):
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
        if "trivial" not in labels:
            st["nontrivial"].add(key)
            if len(st["samples"]) < 2 and (len(st["nontrivial"]) in (2, 5)):
                st["samples"].append(json.loads(_dumps(case)))

    def _explore(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        if self.shard == 0:
            for case in self.sub.examples:
                self._one(case)
        if self.sub.strategy is None:
            return

        @hypothesis.seed(self.seed)
        @settings(max_examples=self.n, deadline=None, database=None,
                  suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False, print_blob=False)
        @given(case=self.sub.strategy)
        def test(case):
            self._one(case)

        test()


def _seed(*parts):
    return int(hashlib.sha256(":".join(map(str, parts)).encode()).hexdigest()[:12], 16)


def load_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="only this sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="development")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    scratch = tempfile.mkdtemp(prefix="naima-verif-")
    cwd = os.path.join(scratch, "cwd")
    os.mkdir(cwd)
    os.chdir(cwd)
    parent = os.getpid()
    try:
        return _main(args, scratch, seed, t0)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if os.getpid() == parent:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)


def _silence():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    import astropy

    astropy.log.setLevel("CRITICAL")
    logging.getLogger("sherpa").setLevel("CRITICAL")
    logging.getLogger("matplotlib").setLevel("CRITICAL")
    from astropy.utils import iers

    iers.conf.auto_download = False


def _main(args, scratch, seed, t0):
    from vlib import bootstrap

    bootstrap.setup(scratch)
    modname = "vlib.props.%s" % args.prop.lower()
    try:
        import naima  # noqa: F401

        naima_path = os.path.dirname(os.path.abspath(naima.__file__))
        naima_error = None
    except Exception:
        naima_error = traceback.format_exc()
    if naima_error:
        print(naima_error)
        print("the naima of the tree under test cannot be imported")
        return 2
    if not naima_path.startswith(os.path.abspath(bootstrap.REPO) + "/"):
        print("naima imported from", naima_path)
        return 2
    _silence()
    mod = importlib.import_module(modname)
    subs = {s.name: s for s in mod.SUBS}

    if args.replay:
        with open(os.path.join(HERE, args.replay)) as f:
            rep = json.load(f)
        try:
            run_case(subs[rep["sub"]], rep["case"])
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
            return 1
        print("replay passed")
        return 0

    budget = 420.0 if args.tier == "quick" else 6 * 3600.0
    deadline = t0 + budget
    jobs = []
    for s in mod.SUBS:
        if args.sub and s.name != args.sub:
            continue
        total = s.quick if args.tier == "quick" else s.thorough
        total = max(1, int(total * args.scale))
        shards = s.shards or min(NPROC, max(1, total // 8))
        if args.tier == "thorough":
            shards = max(shards, NPROC)
        shards = min(shards, total)
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            out = os.path.join(scratch, "job-%s-%d.json" % (s.name, k))
            jobs.append(_Job(args.prop, s, k, n,
                             _seed(seed, args.prop, s.name, k), out, deadline))
    results, errors = _run_jobs(jobs, scratch, hard=t0 + budget + 240.0)

    viol = [r for r in results if r["status"] == "violation"]
    errors += [r for r in results if r["status"] == "error"]
    _write_evidence(args, mod, seed, t0, results, viol)

    for f in load_findings():
        if f.get("property") == args.prop and f.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (args.prop, f["what"]))
    nev = sum(r["evaluations"] for r in results)
    if viol:
        # deterministic choice: order of the jobs, not of their completion
        r = viol[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        name = "%s-%s-%s.json" % (
            args.prop, r["sub"],
            hashlib.sha256(_dumps(r["case"]).encode()).hexdigest()[:10])
        path = os.path.join("replays", name)
        with open(os.path.join(HERE, path), "w") as f:
            json.dump({"property": args.prop, "sub": r["sub"], "case": r["case"],
                       "message": r["message"]}, f, indent=1)
        print(r["traceback"])
        print("case:", _dumps(r["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR in %s/%s: %s" % (e["sub"], e["shard"], e.get("message")))
        return 2
    print("%s: held on %d cases (%.1f s)" % (args.prop, nev, time.time() - t0))
    if args.v:
        tot = {}
        for r in results:
            d = tot.setdefault(r["sub"], [0, set(), 0.0, {}, 0])
            d[0] += r["evaluations"]
            d[1] |= set(r["nontrivial"])
            d[2] = max(d[2], r["wall_s"])
            d[4] += r["skipped"]
            for k, v in r["labels"].items():
                d[3][k] = d[3].get(k, 0) + v
        for k, d in tot.items():
            print("  %-28s n=%d distinct_nontrivial=%d max_shard_wall=%.1f skipped=%d %s"
                  % (k, d[0], len(d[1]), d[2], d[4], d[3]))
    return 0


def _run_jobs(jobs, scratch, hard):
    # the expensive sub-checks first would be better balanced, but the order
    # only matters for the wall time
    pending = list(jobs)
    live = {}
    results, errors = {}, []
    stop = False
    while pending or live:
        while pending and len(live) < NPROC and not stop:
            job = pending.pop(0)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    d = job.out + ".cwd"
                    os.mkdir(d)
                    os.chdir(d)
                    # naima and emcee print a lot
                    log = os.open(job.out + ".log", os.O_WRONLY | os.O_CREAT)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    job.run()
                    sys.stdout.flush()
                    code = 0
                finally:
                    os._exit(code)
            live[pid] = job
        if stop and not live:
            break
        pid, status = _wait(live, hard)
        if pid is None:  # out of time altogether
            for p in list(live):
                _kill(p)
                os.waitpid(p, 0)
                j = live.pop(p)
                errors.append({"sub": j.sub.name, "shard": j.shard,
                               "message": "killed: out of time"})
            break
        job = live.pop(pid)
        _kill(pid)  # whatever the job left running
        if os.path.exists(job.out):
            with open(job.out) as f:
                results[id(job)] = json.load(f)
            if results[id(job)]["status"] == "violation":
                stop = True
                pending = []
                # the others may finish, but need not
                t_stop = time.time() + 5.0
                while live and time.time() < t_stop:
                    p, s = _wait(live, t_stop)
                    if p is None:
                        break
                    j = live.pop(p)
                    if os.path.exists(j.out):
                        with open(j.out) as f:
                            results[id(j)] = json.load(f)
                for p in list(live):
                    _kill(p)
                    os.waitpid(p, 0)
                    live.pop(p)
        else:
            msg = "status %d without a result" % status
            try:
                with open(job.out + ".log", errors="replace") as f:
                    msg += "\n" + f.read()[-3000:]
            except OSError:
                pass
            errors.append({"sub": job.sub.name, "shard": job.shard, "message": msg})
    return [results[id(j)] for j in jobs if id(j) in results], errors


def _wait(live, hard):
    while True:
        for p in list(live):
            q, status = os.waitpid(p, os.WNOHANG)
            if q:
                return q, status
        if time.time() > hard:
            return None, None
        time.sleep(0.02)


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _write_evidence(args, mod, seed, t0, results, viol):
    per, labels, samples, distinct, nev, skipped = {}, {}, [], 0, 0, 0
    for r in results:
        d = per.setdefault(r["sub"], {"evaluations": 0, "nt": set(), "labels": {}})
        d["evaluations"] += r["evaluations"]
        d["nt"] |= set(r["nontrivial"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        skipped += r["skipped"]
        if r["samples"] and len([s for s in samples if s["sub"] == r["sub"]]) < 2:
            samples.append({"sub": r["sub"], "case": r["samples"][0]})
    for d in per.values():
        d["distinct_nontrivial"] = len(d.pop("nt"))
        distinct += d["distinct_nontrivial"]
        nev += d["evaluations"]
    ev = {
        "property": args.prop,
        "tier": args.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": nev,
            "distinct_nontrivial": distinct,
            "rule": mod.RULE,
            "samples": samples,
            "by_subcheck": per,
            "cases_skipped_out_of_time": skipped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % args.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    os.replace(tmp, os.path.join(HERE, "evidence", args.prop + ".json"))
