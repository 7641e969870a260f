"""Sensitivity of the checks: textual mutants of naima, each in a scratch copy.

usage: mutants.py [PROP ...]      mutants of tools/mutants.txt aimed at these properties

tools/mutants.txt has blocks  "# <props> <file under src/naima>", old text, "=>", new text,
separated by lines "----".  A mutant is reported as caught when a check of one of its
properties exits 1.  Not used by any check."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def blocks():
    txt = open(os.path.join(HERE, "tools", "mutants.txt")).read()
    for i, b in enumerate(txt.split("----\n")):
        if not b.strip():
            continue
        head, body = b.split("\n", 1)
        props, fn = head[1:].split()[:2]
        old, new = body.split("=>\n")
        yield i, props.split(","), fn, old.rstrip("\n"), new.rstrip("\n")


def main():
    want = set(sys.argv[1:])
    n = missed = 0
    for i, props, fn, old, new in blocks():
        sel = [p for p in props if not want or p in want]
        if not sel:
            continue
        src = open(os.path.join(REPO, "src/naima", fn)).read()
        if src.count(old) != 1:
            print("mutant %d (%s): text occurs %d times: %r" % (i, fn, src.count(old), old[:60]))
            continue
        d = tempfile.mkdtemp(prefix="mutant")
        try:
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
            with open(os.path.join(d, "src/naima", fn), "w") as f:
                f.write(src.replace(old, new))
            res = {}
            for p in sel:
                r = subprocess.run([sys.executable, "run.py", p], cwd=HERE, capture_output=True,
                                   text=True, env=dict(os.environ, VERIF_REPO=d))
                res[p] = r.returncode
            n += 1
            ok = 1 in res.values()
            missed += not ok
            print("%s %s: %s -> %s  %s" % ("caught" if ok else "MISSED", fn,
                                         " ".join(old.split())[:60], " ".join(new.split())[:60],
                                         res), flush=True)
        finally:
            shutil.rmtree(d)
    print("%d mutants, %d missed" % (n, missed))


main()
