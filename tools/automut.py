"""Sensitivity of the checks: random syntactic mutants of naima, each in a scratch copy.

usage: automut.py FILE[:FUNC,FUNC] PROPS N [SEED]   e.g. automut.py utils.py:trapz_loglog C15 20

Prints the mutants that no check of PROPS (comma separated, in order) caught.  Survivors are to
be judged by hand (equivalent, outside of the properties, or a gap).  Not used by any check."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Div}


def sites(tree, funcs):
    """(path of the node, kind) of everything that can be mutated."""
    out = []

    def visit(node, inside, docs):
        name = getattr(node, "name", None) if isinstance(
            node, (ast.FunctionDef, ast.ClassDef)) else None
        inside = inside or (name in funcs) or not funcs
        if inside:
            if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
                out.append((node, "cmp"))
                if isinstance(node.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    out.append((node, "cmpneg"))
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not (
                    isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                out.append((node, "bin"))
            elif isinstance(node, ast.BoolOp):
                out.append((node, "bool"))
                out.append((node, "boolfirst"))
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
                out.append((node, "unary"))
            elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
                out.append((node, "const"))
            elif isinstance(node, ast.If):
                out.extend([(node, "iftrue"), (node, "iffalse")])
            elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)):
                if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                    out.append((node, "delete"))
            elif isinstance(node, ast.Call) and len(node.args) >= 2:
                out.append((node, "swap"))
            elif isinstance(node, ast.keyword) and node.arg:
                out.append((node, "dropkw"))
        for c in ast.iter_child_nodes(node):
            visit(c, inside, docs)

    visit(tree, False, None)
    return out


def mutate(src, k, funcs):
    """Source of mutant k, and its description."""
    tree = ast.parse(src)
    node, kind = sites(tree, funcs)[k]
    before = ast.unparse(node)
    line = getattr(node, "lineno", 0)
    if kind == "cmp":
        node.ops[0] = CMP[type(node.ops[0])]()
    elif kind == "cmpneg":
        node.ops[0] = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt,
                       ast.GtE: ast.LtE}[type(node.ops[0])]()
    elif kind == "bin":
        node.op = BIN[type(node.op)]()
    elif kind == "bool":
        node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
    elif kind == "boolfirst":
        node.values = node.values[1:] if len(node.values) > 2 else [node.values[1], node.values[1]]
    elif kind == "unary":
        node.op = ast.UAdd() if isinstance(node.op, ast.USub) else ast.Not()
        if isinstance(node.op, ast.Not):
            node.operand = ast.UnaryOp(ast.Not(), node.operand)
    elif kind == "const":
        v = node.value
        if isinstance(v, bool):
            node.value = not v
        elif isinstance(v, int):
            node.value = v + 1
        else:
            node.value = v * 1.07 if v else 0.1
    elif kind == "iftrue":
        node.test = ast.Constant(True)
    elif kind == "iffalse":
        node.test = ast.Constant(False)
    elif kind == "swap":
        node.args[0], node.args[1] = node.args[1], node.args[0]
    elif kind in ("delete", "dropkw"):
        class D(ast.NodeTransformer):
            def visit(self, n):
                if n is node:
                    return ast.Pass() if kind == "delete" else None
                return self.generic_visit(n)
        D().visit(tree)
    after = "" if kind in ("delete", "dropkw") else ast.unparse(node).split("\n")[0]
    return ast.unparse(ast.fix_missing_locations(tree)), "%d %s: %s => %s" % (
        line, kind, before.split("\n")[0][:70], after[:70])


def main():
    target, props, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    fn, _, f = target.partition(":")
    funcs = [x for x in f.split(",") if x]
    src = open(os.path.join(REPO, "src/naima", fn)).read()
    total = len(sites(ast.parse(src), funcs))
    ks = random.Random(seed).sample(range(total), min(n, total))
    print("# %s: %d of %d sites" % (target, len(ks), total), flush=True)
    surv = 0
    for k in ks:
        new, what = mutate(src, k, funcs)
        d = tempfile.mkdtemp(prefix="automut")
        try:
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
            with open(os.path.join(d, "src/naima", fn), "w") as g:
                g.write(new)
            r = subprocess.run(["/opt/venv/bin/python", "-c", "import naima"], cwd=d,
                               env=dict(os.environ, PYTHONPATH=os.path.join(d, "src")),
                               capture_output=True)
            if r.returncode:
                continue
            res = []
            for p in props:
                try:
                    r = subprocess.run([sys.executable, "run.py", p], cwd=HERE,
                                       capture_output=True, text=True, timeout=400,
                                       env=dict(os.environ, VERIF_REPO=d))
                    res.append(r.returncode)
                except subprocess.TimeoutExpired:
                    res.append("timeout")
                if res[-1] == 1:
                    break
            if 1 not in res:
                surv += 1
                print("SURVIVED %s %s %s" % (fn, what, res), flush=True)
        finally:
            shutil.rmtree(d)
    print("# %d survived" % surv, flush=True)



if __name__ == "__main__":
    main()
