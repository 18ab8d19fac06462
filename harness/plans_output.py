"""Plan for C30: replays histories of messages, verbosity changes, analyses and computations."""
import contextlib
import io
import logging
import random

import sut

class Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=1)
        self.got = []

    def emit(self, record):
        self.got.append({"level": record.levelno, "text": clean(record.getMessage())})


def clean(t):
    return t.replace("\n", "~").replace('"', "'").replace("\\", "/").replace("|", "/")


RULES = ["av", "seqpav", "revseqpav", "seqphragmen", "equal-shares", "equal-shares-with-av-completion", "phragmen-enestroem", "consensus-rule", "greedy-monroe",
         "minimaxav", "pav", "maximin-support", "eph", "trivial", "monroe", "equal-shares-with-increment-completion", "lexcc", "seqcc", "revseqcc"]
PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "priceability", "core", "fjr"]


def election(rng, m):
    n = rng.randint(1, 5)
    p = sut.Profile(m)
    for _ in range(n):
        p.add_voter([c for c in range(m) if rng.random() < 0.5])
    return p


def job(o):
    """the computation or check number o["no"]"""
    rng = random.Random(f"{o['op']}/{o['no']}")
    m = rng.randint(2, 5)
    p = election(rng, m)
    k = rng.randint(1, m)
    if o["op"] == "compute":
        rule = rng.choice(RULES)
        res = rng.random() < 0.5 or rule in sut.RESOLUTE_ONLY
        alg = sut.abcrules.Rule(rule).algorithms
        alg = rng.choice([a for a in alg if a not in ("mip-gurobi", "mip-cbc", "ortools-cp")])
        return lambda: sut.abcrules.compute(rule, p, k, algorithm=alg, resolute=res)
    W = rng.sample(range(m), k)
    prop = rng.choice(PROPS)
    return lambda: sut.properties.check(prop, p, W)


class Boom(Exception):
    pass


def analysis(o, c):
    rng = random.Random(f"an/{o['no']}")
    m = rng.randint(2, 4)
    p = election(rng, m)
    W = rng.sample(range(m), rng.randint(1, m))
    kind = o["kind"]
    if kind == "invalid":
        c["expectfail"] = True
        sut.properties.full_analysis(p, W + [m + 3])
        return
    if kind in ("error", "nested"):
        name = rng.choice(["check_FJR", "check_core", "check_JR", "check_PJR", "check_priceability"])
        orig = getattr(sut.properties, name)

        def broken(*a, **kw):
            if kind == "error":
                c["expectfail"] = True
                raise Boom("interrupted")
            sut.properties.check("ejr", p, W)
            return orig(*a, **kw)
        setattr(sut.properties, name, broken)
        try:
            r = sut.properties.full_analysis(p, W)
        finally:
            setattr(sut.properties, name, orig)
    else:
        r = sut.properties.full_analysis(p, W)
    c["values"] = [[k, str(v)] for k, v in r.items()]


def replay(no, hist):
    out = sut.output
    own = no % 4 == 3                       # an Output object of its own for messages only
    if own:
        out = sut.outmod.Output()
        hist = [o for o in hist if o["op"] not in ("analysis", "compute", "check")]
    logger = logging.Logger("verif", level=1)
    cap = Capture()
    logger.addHandler(cap)
    saved = out.verbosity, out.logger
    out.set_verbosity()
    out.logger = None
    calls = []
    try:
        for o in hist:
            c = {"do": o, "alg": o["op"], "cls": "", "out": "", "log": [], "values": [], "expectfail": False}
            cap.got.clear()
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                try:
                    if o["op"] == "verbosity":
                        out.set_verbosity(o["verb"])
                    elif o["op"] == "default":
                        out.set_verbosity()
                    elif o["op"] == "attach":
                        out.logger = logger
                    elif o["op"] == "detach":
                        out.logger = None
                    elif o["op"] == "message":
                        getattr(out, o["level"])(o["text"].replace("~", "\n"), wrap=o["wrap"], indent=o["indent"])
                    elif o["op"] == "analysis":
                        analysis(o, c)
                    else:
                        job(o)()
                except Exception as e:
                    c["cls"] = type(e).__name__
            c["out"] = clean(buf.getvalue())
            c["log"] = list(cap.got)
            c["obs"] = {"verb": int(out.verbosity)}
            calls.append(c)
    finally:
        out.verbosity, out.logger = saved
    return [{"id": f"o{no}", "kind": "output", "calls": calls}]


def C30(ctx):
    q = sut.Profile(2)
    q.add_voters([[0], [1]])
    with contextlib.redirect_stdout(io.StringIO()):          # the solver prints its licence once per process
        sut.properties.full_analysis(q, [0])
        sut.abcrules.compute("maximin-support", q, 1, algorithm="gurobi" if "gurobi" in sut.abcrules.Rule("maximin-support").algorithms else "fastest")
    for no, hist in enumerate(ctx.histories("OutputGen")):
        if ctx.mine(no):
            yield lambda no=no, hist=hist: replay(no, hist)
