"""Mutation sweep (development aid): which small changes of the anchored code does a check not notice?

usage: mutate.py OUT.jsonl WORKTREE N CHECK:file[:from-to] ...     (files relative to the repo)
Mutants are syntactic; survivors are run against the stable tests afterwards by mutate.py tests OUT.jsonl WORKTREE.
"""
import ast
import json
import os
import random
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def sub(n, new, what):
        a, z = pos(n)
        out.append((a, z, new, n.lineno, what))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            doc.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Call) and ("logger" in ast.unparse(n.func) or ast.unparse(n.func) in ("print",)):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.unparse(n.value.func):
            skip.add(n)
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.AnnAssign,)):
            for m in ast.walk(n.annotation):
                pass
    cmpm = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    binm = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&"}
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in cmpm.get(type(n.ops[0]), []):
                sub(n, f"({ast.unparse(n.left)} {o} {ast.unparse(n.comparators[0])})", f"cmp {o}")
        elif isinstance(n, ast.BinOp) and type(n.op) in binm:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            sub(n, f"({ast.unparse(n.left)} {binm[type(n.op)]} {ast.unparse(n.right)})", f"bin {binm[type(n.op)]}")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            sub(n, "(" + j.join(f"({ast.unparse(v)})" for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                jj = " and " if isinstance(n.op, ast.And) else " or "
                sub(n, "(" + jj.join(f"({ast.unparse(v)})" for v in rest) + ")", f"drop operand {k}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, f"({ast.unparse(n.operand)})", "drop not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            sub(n, f"({ast.unparse(n.operand)})", "drop minus")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) :
            sub(n, repr(n.value + 1), "const+1")
            if type(n.value) is int and n.value > 0:
                sub(n, repr(n.value - 1), "const-1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            sub(n, repr(not n.value), "bool")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno:
            if isinstance(n, ast.AugAssign):
                sub(n, "pass", "drop augassign")
            elif isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                sub(n, "pass", "drop assign")
            elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                sub(n, "pass", "drop reassign")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            sub(n, "pass", "drop call")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            f = n.func.id
            if f in ("min", "max"):
                sub(n.func, "max" if f == "min" else "min", "minmax")
            elif f in ("int", "round", "float", "abs", "str", "list", "sorted", "bool") and len(n.args) == 1:
                sub(n, f"({ast.unparse(n.args[0])})", f"drop {f}")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "copy", "deepcopy", "astimezone", "strip", "resolve", "absolute") :
            if n.func.attr in ("copy", "deepcopy") and n.args:
                sub(n, f"({ast.unparse(n.args[0])})", "drop copy")
            elif not n.args:
                sub(n, f"({ast.unparse(n.func.value)})", f"drop .{n.func.attr}")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n.test, ast.Compare):
                sub(n.test, f"(not ({ast.unparse(n.test)}))", "negate")
            if isinstance(n, ast.If):
                sub(n.test, "False", "never")
        elif isinstance(n, ast.Continue):
            sub(n, "pass", "drop continue")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) is False:
            pass
    res, seen = [], set()
    for a, z, new, line, what in out:
        m = b[:a] + new.encode() + b[z:]
        if m in seen or m == b:
            continue
        seen.add(m)
        try:
            ast.parse(m.decode())
        except (SyntaxError, ValueError):
            continue
        res.append({"line": line, "what": what, "old": b[a:z].decode()[:120], "new": new[:120], "src": m.decode()})
    return res


def sweep(out, wt, n, specs):
    done = set()
    if os.path.exists(out):
        done = {(r["check"], r["file"], r["line"], r["what"], r["old"]) for r in map(json.loads, open(out))}
    jobs = []
    for sp in specs:
        c, f, *rng = sp.split(":")
        src = open(f"{wt}/{f}").read()
        ms = mutants(src)
        if rng:
            lo, hi = map(int, rng[0].split("-"))
            ms = [m for m in ms if lo <= m["line"] <= hi]
        random.Random(f"{c}{f}").shuffle(ms)
        jobs.append([(c, f, src, m) for m in ms[:n]])
    todo = [j for k in range(max(map(len, jobs))) for jl in jobs for j in jl[k:k + 1]]
    for c, f, src, m in todo:
        if (c, f, m["line"], m["what"], m["old"]) in done:
            continue
        t0 = time.time()
        try:
            open(f"{wt}/{f}", "w").write(m["src"])
            e = dict(os.environ, VF_REPO=wt, VF_EVID="/tmp/evid_mut", VF_NOMODEL="1")
            try:
                r = subprocess.run(["bash", f"{ROOT}/run.sh", c], env=e, capture_output=True, text=True, timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        finally:
            open(f"{wt}/{f}", "w").write(src)
        with open(out, "a") as fo:
            fo.write(json.dumps({"check": c, "file": f, "rc": rc, "s": round(time.time() - t0), **{k: m[k] for k in ("line", "what", "old", "new", "src")}}) + "\n")


def tests(out, wt):
    """Run the stable tests against surviving mutants (marks 'tests')."""
    rs = [json.loads(x) for x in open(out)]
    for r in rs:
        if r["rc"] != 0 or "tests" in r:
            continue
        src = open(f"{wt}/{r['file']}").read()
        try:
            open(f"{wt}/{r['file']}", "w").write(r["src"])
            e = dict(os.environ, PYTHONPATH=f"{wt}/shepherd_core:{wt}/shepherd_data", PYTHONDONTWRITEBYTECODE="1")
            ok = True
            for d in ("shepherd_core", "shepherd_data"):
                q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=f"{wt}/{d}", env=e, capture_output=True, text=True, timeout=600)
                ok = ok and " failed" not in q.stdout.splitlines()[-1] and " error" not in q.stdout.splitlines()[-1]
                if not ok:
                    break
            r["tests"] = ok
        except subprocess.TimeoutExpired:
            r["tests"] = False
        finally:
            open(f"{wt}/{r['file']}", "w").write(src)
        with open(out, "w") as f:
            for x in rs:
                f.write(json.dumps(x) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "tests":
        tests(sys.argv[2], sys.argv[3])
    else:
        sweep(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4:])
