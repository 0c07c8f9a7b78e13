"""Mutation sweep: how sensitive are the checks to small changes of the library?  (maintenance tool, not a check)

``mutate.py LOG [--files PATTERN ...] [--every K] [--offset O] [--workers N]`` makes single-token mutants of the library in a
scratch copy (one per worker), runs the checks responsible for the mutated module (single process, no shrinking, first
failure ends it) and appends one line per mutant to LOG: ``killed <property>`` or ``SURVIVED``.
"""
import argparse
import ast
import fnmatch
import json
import os
import shutil
import subprocess
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
LAT = ["C02", "C01", "C03", "C04", "C05", "C26"]
CHECKS = {
    "gftool/__init__.py": ["C10", "C17", "C08", "C05", "C26", "C27"], "gftool/_util.py": ["C14", "C02", "C09", "C26"],
    "gftool/basis/__init__.py": ["C25", "C23", "C26"], "gftool/basis/pole.py": ["C08", "C09", "C12", "C25", "C26", "C27", "C10", "C16"],
    "gftool/beb.py": ["C19", "C26", "C27"], "gftool/cpa.py": ["C18", "C26", "C27"], "gftool/density.py": ["C10", "C26", "C27"],
    "gftool/fourier.py": ["C13", "C11", "C12", "C26", "C27"], "gftool/hermpade.py": ["C23", "C13", "C26", "C27"],
    "gftool/linalg.py": ["C15", "C09", "C26"], "gftool/linearprediction.py": ["C24", "C13", "C26", "C27"],
    "gftool/matrix.py": ["C14", "C26", "C27"], "gftool/pade.py": ["C20", "C21", "C26", "C27"],
    "gftool/polepade.py": ["C22", "C26", "C27"], "gftool/siam.py": ["C16", "C26"], "gftool/statistics.py": ["C06", "C07", "C26"],
}
SWAP_BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//",
            ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%",
       ast.BitAnd: "&", ast.BitOr: "|", ast.MatMult: "@"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
SWAP_CMP = {"<": ["<=", ">"], "<=": ["<", ">"], ">": [">=", "<"], ">=": [">", "<"], "==": ["!="], "!=": ["=="]}


def offsets(src):
    out, pos = [0], 0
    for line in src.splitlines(keepends=True):
        pos += len(line.encode())
        out.append(pos)
    return out


def mutants(path):
    src = open(path).read()
    raw = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    found = []

    def start(node):
        return off[node.lineno - 1] + node.col_offset

    def end(node):
        return off[node.end_lineno - 1] + node.end_col_offset

    def add(a, b, new, node, kind):
        found.append((a, b, new, node.lineno, kind))

    def between(left, right, old, new, node, kind):
        a, b = end(left), start(right)
        seg = raw[a:b].decode()
        i = seg.find(old)
        if i >= 0:
            add(a + len(seg[:i].encode()), a + len(seg[:i].encode()) + len(old), new, node, kind)

    class Visit(ast.NodeVisitor):
        def visit_FunctionDef(self, node):
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant):
                body = body[1:]
            for dflt in [*node.args.defaults, *[d for d in node.args.kw_defaults if d]]:
                self.visit(dflt)
            for stmt in body:
                self.visit(stmt)

        def visit_ClassDef(self, node):
            for stmt in node.body:
                if isinstance(stmt, ast.Expr):
                    continue
                self.visit(stmt)

        def visit_AnnAssign(self, node):
            if node.value:
                self.visit(node.value)

        def visit_Raise(self, node):
            pass

        def visit_Expr(self, node):
            if isinstance(node.value, ast.Constant):
                return
            txt = ast.unparse(node)
            if "LOGGER" in txt or "warn" in txt:
                return
            self.generic_visit(node)

        def visit_JoinedStr(self, node):
            pass

        def visit_BinOp(self, node):
            op = type(node.op)
            if op in SWAP_BIN and not isinstance(node.left, ast.JoinedStr):
                between(node.left, node.right, BIN[op], SWAP_BIN[op], node, "binop")
            self.generic_visit(node)

        def visit_AugAssign(self, node):
            op = type(node.op)
            if op in SWAP_BIN:
                between(node.target, node.value, BIN[op] + "=", SWAP_BIN[op] + "=", node, "augop")
            add(start(node), end(node), "pass", node, "drop-aug")
            self.generic_visit(node)

        def visit_Assign(self, node):
            if isinstance(node.targets[0], ast.Subscript):
                add(start(node), end(node), "pass", node, "drop-item-assign")
            self.generic_visit(node)

        def visit_Compare(self, node):
            if len(node.ops) == 1 and type(node.ops[0]) in CMP:
                old = CMP[type(node.ops[0])]
                for new in SWAP_CMP[old]:
                    between(node.left, node.comparators[0], old, new, node, "cmp")
            elif len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
                add(start(node), end(node), "not (" + ast.unparse(node) + ")", node, "not-is")
            self.generic_visit(node)

        def visit_BoolOp(self, node):
            old, new = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
            between(node.values[0], node.values[1], old, new, node, "bool")
            self.generic_visit(node)

        def visit_UnaryOp(self, node):
            if isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
                add(start(node), end(node), "(" + raw[start(node.operand):end(node.operand)].decode() + ")", node, "unary")
            if isinstance(node.operand, ast.Constant) and isinstance(node.op, ast.USub):
                val = node.operand.value
                if isinstance(val, int):
                    add(start(node), end(node), f"-{val + 1}", node, "const")
                return
            self.generic_visit(node)

        def visit_Constant(self, node):
            val = node.value
            if isinstance(val, bool):
                add(start(node), end(node), str(not val), node, "bool-const")
            elif isinstance(val, int):
                add(start(node), end(node), str(val + 1), node, "const")
            elif isinstance(val, float):
                add(start(node), end(node), repr(val*1.001 if val else 0.001), node, "const")
            elif isinstance(val, complex):
                add(start(node), end(node), f"(-{val!r})", node, "const")

        def visit_If(self, node):
            add(start(node.test), end(node.test), "not (" + raw[start(node.test):end(node.test)].decode() + ")", node, "if-not")
            self.generic_visit(node)

        def visit_Call(self, node):
            fun = node.func
            name = fun.attr if isinstance(fun, ast.Attribute) else getattr(fun, "id", "")
            if name in ("conj", "conjugate", "abs", "sqrt", "copy", "swapaxes") and isinstance(fun, ast.Attribute):
                if node.args and isinstance(fun.value, ast.Name):
                    arg = raw[start(node.args[0]):end(node.args[0])].decode()
                    add(start(node), end(node), f"({arg})", node, "drop-call")
                elif not node.args:
                    add(start(node), end(node), raw[start(fun.value):end(fun.value)].decode(), node, "drop-call")
            if name == "abs" and isinstance(fun, ast.Name):
                add(start(node), end(node), "(" + raw[start(node.args[0]):end(node.args[0])].decode() + ")", node, "drop-abs")
            for kw in node.keywords:
                if kw.arg and kw.arg not in ("dtype", "stacklevel", "msg", "category"):
                    whole = raw[start(node):end(node)].decode()
                    piece = ", " + raw[start(kw):end(kw)].decode()
                    if whole.count(piece) == 1:
                        add(start(node), end(node), whole.replace(piece, ""), node, "drop-kw")
            self.generic_visit(node)

        def visit_Attribute(self, node):
            if node.attr in ("real", "imag") and isinstance(node.ctx, ast.Load):
                new = {"real": "imag", "imag": "real"}[node.attr]
                add(end(node) - 4, end(node), new, node, "re-im")
            self.generic_visit(node)

    for stmt in tree.body:
        if isinstance(stmt, (ast.FunctionDef, ast.ClassDef, ast.Assign, ast.AnnAssign)):
            if isinstance(stmt, ast.Assign) and "coefficients" in ast.unparse(stmt.targets[0]):
                for val in stmt.value.values:
                    Visit().visit(val)
                continue
            if isinstance(stmt, ast.Assign) and "__all__" in ast.unparse(stmt.targets[0]):
                continue
            Visit().visit(stmt)
    uniq, seen = [], set()
    for a, b, new, line, kind in found:
        if (a, b, new) in seen or raw[a:b].decode() == new:
            continue
        seen.add((a, b, new))
        txt = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(txt)
        except SyntaxError:
            continue
        uniq.append((txt, line, kind, raw[a:b].decode()[:60], new[:60]))
    return uniq


def main():
    par = argparse.ArgumentParser()
    par.add_argument("log")
    par.add_argument("--files", nargs="*", default=["*"])
    par.add_argument("--every", type=int, default=1)
    par.add_argument("--offset", type=int, default=0)
    par.add_argument("--workers", type=int, default=8)
    par.add_argument("--scale", type=float, default=0.5)
    par.add_argument("--list", action="store_true")
    par.add_argument("--skip-done", action="store_true")
    args = par.parse_args()
    files = subprocess.run(["git", "ls-files", "gftool"], cwd=REPO, capture_output=True, text=True).stdout.split()
    files = [f for f in files if f.endswith(".py") and "/tests/" not in f and "_precision" not in f
             and any(fnmatch.fnmatch(f, p) for p in args.files)]
    done = set()
    if args.skip_done and os.path.exists(args.log):
        done = {tuple(json.loads(ln)["key"]) for ln in open(args.log)}
    jobs = []
    for fname in files:
        muts = mutants(os.path.join(REPO, fname))
        if args.list:
            print(fname, len(muts))
        for num, mut in enumerate(muts):
            if num % args.every == args.offset and (fname, num) not in done:
                jobs.append((fname, num, mut))
    print(len(jobs), "mutants")
    if args.list:
        return
    tmp = tempfile.mkdtemp(prefix="mutate_")
    verif = os.path.join(tmp, "verif")
    shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    local, lock, count = threading.local(), threading.Lock(), [0]

    def work(job):
        fname, num, (txt, line, kind, old, new) = job
        if not hasattr(local, "dir"):
            local.dir = tempfile.mkdtemp(dir=tmp)
            shutil.copytree(os.path.join(REPO, "gftool"), os.path.join(local.dir, "gftool"))
        path = os.path.join(local.dir, fname)
        orig = open(os.path.join(REPO, fname)).read()
        open(path, "w").write(txt)
        status = "SURVIVED"
        try:
            env = dict(os.environ, VERIF_REPO=local.dir, VERIF_HUNT="1")
            for prop in CHECKS.get(fname, LAT):
                try:
                    res = subprocess.run(["/opt/venv/bin/python", "-B", "run.py", prop, "--no-evidence", "--scale", str(args.scale)],
                                         cwd=verif, env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    status = f"timeout {prop}"
                    break
                if res.returncode == 1:
                    facets = [ln.split(":")[0][4:] for ln in res.stdout.splitlines() if ln.startswith("--- ")]
                    status = f"killed {prop} {' '.join(facets)}"
                    break
                if res.returncode != 0:
                    status = f"error {prop} " + res.stderr[-150:]
                    if "vlib/core.py" in res.stderr and "load_gftool" in res.stderr:
                        status = "killed import"
                    break
        finally:
            open(path, "w").write(orig)
        with lock:
            count[0] += 1
            with open(args.log, "a") as fh:
                fh.write(json.dumps({"key": [fname, num], "line": line, "kind": kind, "old": old, "new": new, "status": status}) + "\n")

    try:
        with ThreadPoolExecutor(max_workers=args.workers) as pool:
            list(pool.map(work, jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
