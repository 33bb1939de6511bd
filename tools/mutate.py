#!/opt/venv/bin/python
"""Mutation campaign (development aid): mutate.py LOG WORKTREE 'P15,P10' file.py [file.py ...]
Small changes are made one by one to the files in a scratch copy and the quick checks of the listed properties run until
one reports a violation. LOG gets one line per change: killed by which check, or SURVIVED."""
import ast
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
BINS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}


def mutants(src):
    """list of (line, description, new source)"""
    lines = src.split("\n")
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        res = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(res.decode())
        except SyntaxError:
            return
        out.append((n.lineno, what, res.decode()))

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ("get_params", "parameter_combinations", "__repr__"):
                for m in ast.walk(n):
                    skip.add(id(m))
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.add(id(n.body[0])), skip.add(id(n.body[0].value))
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ("__all__", "categories") for t in n.targets):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.unparse(n.value.func):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            put(n, f"{text(n.left)} {CMP[o]} {text(n.comparators[0])}", f"{text(n)} -> {CMP[o]}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o = type(n.op)
            put(n, f"({text(n.left)} {BIN[o]} {text(n.right)})", f"{text(n)} -> {BIN[o]}")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join(f"({text(v)})" for v in n.values) + ")", f"{text(n)} ->{w}")
            for v in n.values:
                put(n, "(" + text(v) + ")", f"{text(n)} -> only {text(v)}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            put(n, f"({text(n.operand)})", f"{text(n)} -> dropped {type(n.op).__name__}")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), f"L{n.col_offset} {n.value} -> {not n.value}")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), f"L{n.col_offset} {n.value} -> {n.value + 1}")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "sort", "abs", "sqrt", "astype"):
            arg = text(n.args[0]) if n.args and n.func.attr != "astype" else text(n.func.value)
            put(n, arg, f"{text(n)} -> {arg}")
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            put(n, "pass", f"{text(n)[:60]} -> pass")
        elif isinstance(n, ast.If) and not n.orelse and len(text(n)) < 400:
            put(n.test, "False", f"if {text(n.test)} -> False")
        elif isinstance(n, ast.keyword) and n.arg in ("axis", "replace", "p", "random_state", "size", "metric_tensor", "n_jobs"):
            if n.arg in ("replace", "p", "axis"):
                put(n.value, "None" if n.arg != "replace" else "True", f"{n.arg}={text(n.value)} -> None/True")
    # statement level: assignments overwritten again later (X = f(X)) dropped
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Subscript)) and id(n) not in skip:
            base = n.targets[0]
            while isinstance(base, ast.Subscript):
                base = base.value
            if isinstance(base, (ast.Name, ast.Attribute)) and ast.unparse(base) in ast.unparse(n.value) or isinstance(n.targets[0], ast.Subscript):
                put(n, "pass", f"{text(n)[:60]} -> pass")
    return out


def main():
    log, work, props, files = sys.argv[1], sys.argv[2], sys.argv[3].split(","), sys.argv[4:]
    if not os.path.isdir(work):
        subprocess.run(["cp", "-a", "/repo", work], check=True)
    git = ["git", "-C", work]
    subprocess.run(git + ["checkout", "-q", "--", "."], check=True)
    subprocess.run(git + ["fetch", "-q", "/repo", "HEAD"], check=True)
    subprocess.run(git + ["reset", "-q", "--hard", "FETCH_HEAD"], check=True)
    done = set()
    if os.path.exists(log):
        done = {tuple(ln.split("\t")[:2]) for ln in open(log, encoding="utf-8")}
    for fname in files:
        path = os.path.join(work, fname)
        with open(path, newline="", encoding="utf-8") as fh:
            orig = fh.read()
        for i, (line, what, new) in enumerate(mutants(orig)):
            if (fname, str(i)) in done:
                continue
            with open(path, "w", newline="", encoding="utf-8") as fh:
                fh.write(new)
            state = "SURVIVED"
            for p in props:
                env = dict(os.environ, VERIF_REPO=work, VERIF_STOP="1", VERIF_EVID="/tmp/mut_evid")
                try:
                    res = subprocess.run(["/opt/venv/bin/python", os.path.join(VERIF, "run_check.py"), p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, check=False, timeout=900)
                    if res.returncode == 1:
                        state = p
                        break
                    if "skipped=0" not in res.stdout or res.returncode != 0:
                        state = "SURVIVED(skips)"
                except subprocess.TimeoutExpired:
                    state = p + "(timeout)"
                    break
            with open(path, "w", newline="", encoding="utf-8") as fh:
                fh.write(orig)
            with open(log, "a", encoding="utf-8") as fh:
                fh.write(f"{fname}\t{i}\t{line}\t{state}\t{' '.join(what.split())[:160]}\n")


if __name__ == "__main__":
    main()
