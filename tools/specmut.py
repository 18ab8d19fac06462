#!/usr/bin/env python3
"""Specification mutation (development only): specmut.py OUT.log [MODULE ...] [--seed=N] [--max=N per module] [--jobs=N]

Single token mutations of a specification module, in a copy of /verif; runs the checks that use the module on the
unchanged code. A mutant is detected when the code no longer conforms or a bounded model fails; mutants that merely
weaken a verdict cannot be detected this way and are reviewed by hand."""
import os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
USES = {"Thiele": "C03 C04 C01 C05 C25", "Phragmen": "C06 C07 C08 C12", "OtherRules": "C09 C10 C14 C11 C13", "Elections": "C05 C21 C03", "Axioms": "C21 C22 C23 C24",
        "Machines": "C03 C04 C06 C08 C09 C11 C12 C13 C14", "Explain": "C31", "Generators": "C32", "Validation": "C19", "Scores": "C25", "Helpers": "C27", "Preflib": "C29",
        "TextDef": "C15 C27", "Relations": "C15 C16 C17 C18 C33 C24", "ProfileMachine": "C26 C20", "FileMachine": "C28", "OutputMachine": "C30", "SessionMachine": "C20", "Judge": "C01 C15 C16 C24", "Apportionment": "C34", "Across": "C35 C36"}
SWAPS = [(r"\\A", r"\\E"), (r"\\E", r"\\A"), (r"<=", "<"), (r">=", ">"), (r"(?<![<>=/~|\-])<(?![<=>])", "<="), (r"(?<![<>=|\-])>(?![>=])", ">="), (r"(?<![<>=/~])=(?![=>])", "#"), (r"#", "="),
         (r"\\cup", r"\\cap"), (r"\\cap", r"\\cup"), (r" \+ ", " - "), (r" - ", " + "), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
         (r"\\subseteq", "="), (r"\\in\b", r"\\notin"), (r"\bRLt\b", "RLe"), (r"\bRLe\b", "RLt"), (r"\bRAdd\b", "RSub"), (r"\bRSub\b", "RAdd"), (r"\bRMul\b", "RDiv"), (r"\bRDiv\b", "RMul"),
         (r"\bMax\b", "Min"), (r"\bMin\b", "Max"), (r"/\\", r"\\/"), (r"\\/", r"/\\")]


def mutants(src):
    out, depth = [], 0
    for no, line in enumerate(src.split("\n")):
        if no == 0 or line.startswith("====") or line.startswith("----") or line.startswith("EXTENDS") or line.startswith("LOCAL INSTANCE"):
            continue
        code = re.sub(r"\(\*.*?\*\)", lambda m: " " * len(m.group()), line)
        if "(*" in code or "*)" in code:
            continue
        code = re.sub(r'"[^"]*"', lambda m: "\x00" * len(m.group()), code)
        code = re.sub(r"\\\*.*", lambda m: " " * len(m.group()), code)
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                if a.startswith("/") and not code[:m.start()].strip():
                    continue                                       # a bullet of a list
                new = line[:m.start()] + re.sub(r"\\\\", r"\\", b) + line[m.end():]
                out.append((no, new, f"{m.group().strip()} -> {b.strip()} @{m.start()}: {line.strip()[:110]}"))
    return out


def one(job):
    mod, no, new, what = job
    d = tempfile.mkdtemp(prefix="smut-", dir="/tmp/w/mg")
    try:
        subprocess.run(f"cp -a {COPY}/. {d}/", shell=True)
        p = f"{d}/spec/{mod}.tla"
        ls = open(p).read().split("\n")
        ls[no] = new
        open(p, "w").write("\n".join(ls))
        s = subprocess.run(["tla-sany", p], capture_output=True, text=True, cwd=f"{d}/spec")
        if s.returncode or "*** Errors" in s.stdout + s.stderr or "Fatal" in s.stdout + s.stderr:
            return None
        for limit in ("2", "30"):
            for c in USES[mod].split():
                try:
                    r = subprocess.run(["./check", c, "quick"], cwd=d, env=dict(os.environ, VERIF_LIMIT=limit), capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    return (mod, no + 1, what, f"killed {c} timeout")
                if r.returncode:
                    return (mod, no + 1, what, f"killed {c} rc{r.returncode} lim{limit}")
        return (mod, no + 1, what, "SURVIVED")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = {a.split("=")[0]: a.split("=")[1] for a in sys.argv[1:] if a.startswith("--")}
    rng = random.Random(int(opt.get("--seed", 1)))
    COPY = tempfile.mkdtemp(prefix="scopy-", dir="/tmp/w/mg")
    subprocess.run(f"cp -a {VERIF}/. {COPY}/ && rm -rf {COPY}/.git {COPY}/seeded {COPY}/replays", shell=True)
    jobs = []
    for mod in args[1:] or USES:
        ms = mutants(open(f"{COPY}/spec/{mod}.tla").read())
        rng.shuffle(ms)
        jobs += [(mod, *m) for m in ms[:int(opt.get("--max", 20))]]
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with open(args[0], "a") as out, cf.ThreadPoolExecutor(int(opt.get("--jobs", 1))) as ex:
        for r in ex.map(one, jobs):
            if r:
                out.write("|".join(map(str, r)) + "\n")
                out.flush()
    shutil.rmtree(COPY, ignore_errors=True)
