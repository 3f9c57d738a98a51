"""Mutation campaign: small syntactic changes to one source file, each run against the checks of that file.

usage: tools/mutate.py FILE[,FILE...] CHECK[,CHECK...] [WORKERS [FIRST-LAST]]

Works on copies of /repo and /verif under /tmp/mut; prints the changes that no check notices.
"""

from __future__ import annotations

import ast
import difflib
import multiprocessing
import os
import shutil
import subprocess
import sys

BASE = "/tmp/mut"
COMPARE = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "In": "not in", "NotIn": "in", "Is": "is not", "IsNot": "is"}
BINARY = {"Add": ["-"], "Sub": ["+"], "Mult": ["//"], "FloorDiv": ["*"], "Mod": ["//"], "BitAnd": ["|"], "BitOr": ["&"], "LShift": [">>"], "RShift": ["<<"], "BitXor": ["|"]}


def mutants(source: str):
    tree = ast.parse(source)
    lines = source.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = source.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    out = []

    def put(node, text, what):
        a, b = span(node)
        out.append((node.lineno, what, (raw[:a] + text.encode() + raw[b:]).decode()))

    def get(node):
        a, b = span(node)
        return raw[a:b].decode()

    skip = set()

    def visit(node, quiet=False):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in ("__repr__",):
                return
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
                visit(d)
            for s in node.body:
                visit(s)
            return
        if isinstance(node, ast.AnnAssign):
            if node.value:
                visit(node.value)
            return
        if isinstance(node, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.If) and "TYPE_CHECKING" in get(node.test):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = type(node.ops[0]).__name__
            if op in COMPARE:
                put(node, f"({get(node.left)} {COMPARE[op]} {get(node.comparators[0])})", f"{op}")
        elif isinstance(node, ast.BinOp):
            for new in BINARY.get(type(node.op).__name__, []):
                put(node, f"(({get(node.left)}) {new} ({get(node.right)}))", type(node.op).__name__)
        elif isinstance(node, ast.AugAssign):
            for new in BINARY.get(type(node.op).__name__, []):
                put(node, f"{get(node.target)} {new}= {get(node.value)}", type(node.op).__name__ + "=")
            put(node, "pass", "delete")
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            put(node, str(node.value + 1), f"{node.value}+1")
            if node.value:
                put(node, str(node.value - 1), f"{node.value}-1")
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            put(node, str(not node.value), "bool")
        elif isinstance(node, ast.BoolOp):
            word = " or " if isinstance(node.op, ast.And) else " and "
            put(node, "(" + word.join(f"({get(v)})" for v in node.values) + ")", "boolop")
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                w = " and " if isinstance(node.op, ast.And) else " or "
                put(node, "(" + w.join(f"({get(v)})" for v in rest) + ")", f"drop term {i}")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, f"({get(node.operand)})", "not")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            put(node, f"({get(node.operand)})", "neg")
        elif isinstance(node, ast.Continue):
            put(node, "break", "continue")
        elif isinstance(node, ast.Break):
            put(node, "continue", "break")
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(node.test, (ast.Compare, ast.UnaryOp)):
                put(node.test, f"(not ({get(node.test)}))", "negate")
        elif isinstance(node, ast.Assign):
            if isinstance(node.targets[0], (ast.Name, ast.Attribute, ast.Subscript)):
                put(node, "pass", "delete")
        elif isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            if not isinstance(node.value, (ast.Yield, ast.YieldFrom)):
                put(node, "pass", "delete")
        elif isinstance(node, ast.Call):
            name = getattr(node.func, "id", getattr(node.func, "attr", ""))
            if name in ("min", "max") and len(node.args) == 2:
                put(node.func, "max" if name == "min" else "min", name)
            elif name in ("sorted", "reversed") and node.args:
                put(node, f"list({get(node.args[0])})", name)
            elif name in ("rstrip", "strip", "lstrip", "lower", "upper") and isinstance(node.func, ast.Attribute):
                put(node, get(node.func.value), name)
            elif name in ("isinstance",):
                pass
        for child in ast.iter_child_nodes(node):
            visit(child)

    for stmt in tree.body:
        visit(stmt)
    del skip
    return out


def setup(k):
    base = f"{BASE}/w{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    shutil.copytree("/repo", f"{base}/repo", ignore=shutil.ignore_patterns(".git", "_data"))
    shutil.copytree("/verif", f"{base}/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    core = f"{base}/verif/vlib/core.py"
    text = open(core).read()
    text = text.replace('REPO = Path("/repo")', f'REPO = Path("{base}/repo")')
    text = text.replace("MAX_VIOLATIONS_PER_WORKER = 3", "MAX_VIOLATIONS_PER_WORKER = 1").replace("CASE_CPU_SECONDS = 40", "CASE_CPU_SECONDS = 15")
    open(core, "w").write(text)
    os.makedirs(f"{base}/verif/evidence", exist_ok=True)


def work(args):
    k, jobs, checks = args
    setup(k)
    base = f"{BASE}/w{k}"
    env = dict(os.environ, PYTHONHASHSEED="0", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1")
    out = []
    for path, line, what, text in jobs:
        target = f"{base}/repo/dissect/volume/{path}"
        orig = open(f"/repo/dissect/volume/{path}").read()
        try:
            compile(text, path, "exec")
        except SyntaxError:
            continue
        open(target, "w").write(text)
        verdict = "SURVIVED"
        for c in checks:
            try:
                r = subprocess.run(
                    ["/opt/venv/bin/python", "-B", "-m", "vlib", c, "--jobs", "1", "--tier", "quick"],
                    cwd=f"{base}/verif", env=env, capture_output=True, timeout=900,
                )
                if r.returncode == 1 and b"VIOLATION" in r.stdout:
                    verdict = c
                    break
                if r.returncode != 0:
                    verdict = f"{c} rc={r.returncode}"
                    break
            except subprocess.TimeoutExpired:
                verdict = f"{c} timeout"
                break
        open(target, "w").write(orig)
        new = [d[2:].strip() for d in difflib.ndiff(orig.split("\n"), text.split("\n")) if d.startswith("+ ")][:1]
        print(f"{verdict:10} {path}:{line} {what}: {new[0] if new else ''}", flush=True)
        out.append(verdict)
    shutil.rmtree(base, ignore_errors=True)
    return out


def main():
    files, checks = sys.argv[1].split(","), sys.argv[2].split(",")
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    jobs = []
    for path in files:
        source = open(f"/repo/dissect/volume/{path}").read()
        jobs += [(path, *m) for m in mutants(source)]
    if len(sys.argv) > 4:
        a, b = map(int, sys.argv[4].split("-"))
        jobs = [j for j in jobs if a <= j[1] <= b]
    print(len(jobs), "mutants", flush=True)
    tag = os.getpid() * 100
    with multiprocessing.Pool(workers) as pool:
        results = pool.map(work, [(tag + k, jobs[k::workers], checks) for k in range(workers)], chunksize=1)
    flat = [v for r in results for v in r]
    print(f"{len(flat)} run, {sum(v == 'SURVIVED' for v in flat)} survived")


if __name__ == "__main__":
    main()
