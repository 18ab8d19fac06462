#!/usr/bin/env python3
"""Mutation campaign (development only): mutate.py OUT.log FILE:FIRST-LAST [...] [--seed N] [--max N] [--jobs N]

Single syntactic mutations of the code under test, in scratch copies; runs the checks whose drivers execute the mutated
line (from per-check line coverage in /tmp/w/cov/by), first with a short driver limit, then in full; reports survivors."""
import ast, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf
COV = "/tmp/w/cov/by"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/abcvoting"


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutations(src, tree, lo, hi):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(node):
        return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        s, e = pos(node)
        return b[s:e].decode()

    out = []

    def add(node, new, what):
        s, e = pos(node)
        old = b[s:e].decode()
        if old != new:
            out.append((node.lineno, s, e, new, f"{what}: {' '.join(old.split())[:70]} -> {' '.join(new.split())[:70]}"))

    SW = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"],
          ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*"}
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(node, clean=False) is not None:
            skip.add(id(node.body[0]))
        if isinstance(node, ast.JoinedStr):
            for x in ast.walk(node):
                skip.add(id(x))
        if isinstance(node, ast.FunctionDef):
            for x in [*node.args.defaults, *node.args.kw_defaults]:
                if x is not None:
                    skip.add(id(x))
        if isinstance(node, ast.Raise):
            for x in ast.walk(node):
                if x is not node:
                    skip.add(id(x))
    for node in ast.walk(tree):
        if not hasattr(node, "lineno") or not lo <= node.lineno <= hi or id(node) in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            l, r = text(node.left), text(node.comparators[0])
            for o in SW.get(type(node.ops[0]), []):
                add(node, f"({l} {o} {r})", "cmp")
        elif isinstance(node, ast.BoolOp):
            op = " or " if isinstance(node.op, ast.And) else " and "
            add(node, "(" + op.join(f"({text(v)})" for v in node.values) + ")", "bool")
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                o = " and " if isinstance(node.op, ast.And) else " or "
                add(node, "(" + o.join(f"({text(v)})" for v in rest) + ")", "dropcond")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, f"({text(node.operand)})", "not")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            add(node, f"({text(node.left)} {BIN[type(node.op)]} {text(node.right)})", "arith")
            add(node, f"({text(node.left)})", "left")
            if isinstance(node.op, (ast.Add, ast.Mult)):
                add(node, f"({text(node.right)})", "right")
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            add(node, str(not node.value), "const")
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            add(node, f"({text(node)} + 1)", "const")
            add(node, f"({text(node)} - 1)", "const")
        elif isinstance(node, (ast.If, ast.IfExp)):
            add(node.test, "True", "if")
            add(node.test, "False", "if")
        elif isinstance(node, ast.Assign) or isinstance(node, ast.AugAssign) or (isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant)):
            add(node, "pass", "drop")
            if isinstance(node, ast.AugAssign):
                sign = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(node.op))
                if sign:
                    add(node, f"{text(node.target)} {sign} {text(node.value)}", "aug")
        elif isinstance(node, ast.Break):
            add(node, "pass", "break")
        elif isinstance(node, ast.Continue):
            add(node, "pass", "continue")
        elif isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, ast.Name):
            pass
        elif isinstance(node, ast.Call):
            f = text(node.func)
            if f in ("min", "max"):
                s, e = pos(node)
                add(node, ("max" if f == "min" else "min") + text(node)[3:], "minmax")
            if f in ("sorted", "list", "set", "int", "float", "frac", "Fraction") and len(node.args) == 1 and not node.keywords:
                add(node, f"({text(node.args[0])})", "uncall")
    return b, out


def order(fn, line):
    res = []
    for i in range(1, 34):
        c = f"C{i:02d}"
        try:
            ls = open(f"{COV}/{c}.lines").read().split("\n")
        except FileNotFoundError:
            continue
        if f"{fn} {line}" in ls:
            res.append((len(ls), c))
    return [c for _, c in sorted(res)]


def run(check, repo, limit):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_LIMIT=str(limit))
    try:
        p = subprocess.run(["./check", check, "quick"], cwd=VERIF_COPY, env=env, capture_output=True, text=True, timeout=400)
        return p.returncode
    except subprocess.TimeoutExpired:
        return 9


def one(job):
    fn, b, m = job
    line, s, e, new, what = m
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/w/mg")
    try:
        os.makedirs(f"{d}/abcvoting")
        for f in os.listdir(SRC):
            if f.endswith(".py"):
                shutil.copy(f"{SRC}/{f}", f"{d}/abcvoting/{f}")
        nb = b[:s] + new.encode() + b[e:]
        try:
            compile(nb, fn, "exec")
        except SyntaxError:
            return None
        with open(f"{d}/abcvoting/{fn}", "wb") as f:
            f.write(nb)
        checks = order(fn, line)
        checks = checks[:MAXC]
        if not checks:
            return (fn, line, what, "UNCOVERED", [])
        for limit in (3, 45):
            for c in checks:
                rc = run(c, d, limit)
                if rc != 0:
                    return (fn, line, what, f"killed {c} rc{rc} lim{limit}", checks)
        return (fn, line, what, "SURVIVED", checks)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = {a.split("=")[0]: a.split("=")[1] for a in sys.argv[1:] if a.startswith("--")}
    MAXC = int(opt.get("--checks", 4))
    rng = random.Random(int(opt.get("--seed", 1)))
    VERIF_COPY = tempfile.mkdtemp(prefix="vcopy-", dir="/tmp/w/mg")
    subprocess.run(f"cp -a {VERIF}/. {VERIF_COPY}/ && rm -rf {VERIF_COPY}/.git", shell=True)
    jobs = []
    for a in args[1:]:
        fn, _, r = a.partition(":")
        lo, hi = (int(x) for x in r.split("-")) if r else (1, 10**6)
        src = open(f"{SRC}/{fn}").read()
        b, ms = mutations(src, ast.parse(src), lo, hi)
        jobs += [(fn, b, m) for m in ms]
    total = len(jobs)
    rng.shuffle(jobs)
    jobs = jobs[:int(opt.get("--max", 10**9))]
    print(total, "mutations,", len(jobs), "tried", flush=True)
    n = k = 0
    with open(args[0], "a") as out, cf.ThreadPoolExecutor(int(opt.get("--jobs", 2))) as ex:
        for r in ex.map(one, jobs):
            if r is None:
                continue
            n += 1
            k += r[3].startswith("killed")
            out.write("|".join(str(x) for x in r) + "\n")
            out.flush()
    print(n, "valid,", k, "killed")
    shutil.rmtree(VERIF_COPY, ignore_errors=True)
