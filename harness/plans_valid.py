"""Plan for C19: valid and invalid calls through every entry point."""
import functools
from fractions import Fraction as F

import elections as el
import sut

AR = sut.abcrules
RULES = ["av", "sav", "trivial", "pav", "slav", "geom2", "geom3/2", "geom1.5", "geom10", "lexcc", "lexminimaxav", "cc", "seqpav", "seqslav", "seqcc",
         "seqgeom2", "seqgeom3/2", "revseqpav", "revseqslav", "revseqcc", "revseqgeom2", "revseqgeom1.5", "seqphragmen", "eph",
         "minimaxphragmen", "leximaxphragmen", "monroe", "minimaxav", "rsd", "equal-shares", "rule-x",
         "equal-shares-with-seqphragmen-completion", "equal-shares-with-av-completion", "equal-shares-without-completion",
         "rule-x-without-phragmen-phase", "equal-shares-without-phragmen-phase", "phragmen-enestroem", "consensus-rule",
         "equal-shares-with-increment-completion", "maximin-support", "greedy-monroe"]
UNKNOWN = ["PAV", "", "seqxyz", "revseq", "seq", "monroe2", "equal-shares2", "seqmonroe", "unknown", "minimax", "revseqlexcc", "geomabc"]
UNKNOWN_DIRECT = [f"{a}:{b}" for a in ("thiele", "seqthiele", "revseqthiele") for b in ("xyz", "", "geomabc", "lexcc", "seqpav", "PAV", "geom", "equal-shares")] \
    + [f"completion:{b}" for b in ("xyz", "AV", "phragmen", "none", "seqPhragmen")]
P = functools.partial


def direct(name):
    """the published function for a rule, where there is one"""
    if ":" in name:
        family, x = name.split(":")
        if family == "completion":
            return P(AR.compute_equal_shares, completion=x)
        return P({"thiele": AR.compute_thiele_method, "seqthiele": AR.compute_seq_thiele_method, "revseqthiele": AR.compute_revseq_thiele_method}[family], x)
    plain = {"av": AR.compute_av, "sav": AR.compute_sav, "trivial": AR.compute_trivial_rule, "pav": AR.compute_pav,
             "slav": AR.compute_slav, "cc": AR.compute_cc, "lexcc": AR.compute_lexcc, "lexminimaxav": AR.compute_lexminimaxav,
             "seqpav": AR.compute_seqpav, "seqslav": AR.compute_seqslav, "seqcc": AR.compute_seqcc, "revseqpav": AR.compute_revseqpav,
             "seqphragmen": AR.compute_seqphragmen, "eph": AR.compute_eph, "minimaxphragmen": AR.compute_minimaxphragmen,
             "leximaxphragmen": AR.compute_leximaxphragmen, "monroe": AR.compute_monroe, "minimaxav": AR.compute_minimaxav,
             "rsd": AR.compute_rsd, "phragmen-enestroem": AR.compute_phragmen_enestroem, "consensus-rule": AR.compute_consensus_rule,
             "maximin-support": AR.compute_maximin_support, "greedy-monroe": AR.compute_greedy_monroe, "equal-shares": AR.compute_equal_shares,
             "rule-x": AR.compute_rule_x, "rule-x-without-phragmen-phase": P(AR.compute_rule_x, skip_phragmen_phase=True),
             "equal-shares-without-phragmen-phase": P(AR.compute_rule_x, skip_phragmen_phase=True),
             "equal-shares-with-av-completion": P(AR.compute_equal_shares, completion="av"),
             "equal-shares-without-completion": P(AR.compute_equal_shares, completion=None),
             "equal-shares-with-seqphragmen-completion": P(AR.compute_equal_shares, completion="seqphragmen"),
             "equal-shares-with-increment-completion": P(AR.compute_equal_shares, completion="increment")}
    if name in plain:
        return plain[name]
    if name.startswith("revseq"):
        return P(AR.compute_revseq_thiele_method, name[6:])
    if name.startswith("seq"):
        return P(AR.compute_seq_thiele_method, name[3:])
    return P(AR.compute_thiele_method, name)


RES = {"True": True, "False": False, "None": None, "no": "no", "2": 2}
MAX = {"none": None, "0": 0, "-1": -1, "str": "3", "float": 2.5, "list": [3], "1": 1, "2": 2, "100": 100}
ALGS = ["standard", "gurobi", "mip-cbc", "ortools-cp", "brute-force", "branch-and-bound", "float-fractions", "gmpy2-fractions",
        "standard-fractions", "Gurobi", "", "none", "fastest2", "brute-force "]


def invoke(prof, c):
    kw = {}
    if c["alg"] != "default":
        kw["algorithm"] = None if c["alg"] == "none" else c["alg"]
    if c["res"] != "default":
        kw["resolute"] = RES[c["res"]]
    if c["max"] != "default":
        kw["max_num_of_committees"] = MAX[c["max"]]
    out = dict(c, cls="", out=[])
    try:
        if c["entry"] == "compute":
            r = AR.compute(c["name"], prof, c["k"], **kw)
        elif c["entry"] == "Rule":
            r = AR.Rule(c["name"]).compute(prof, c["k"], **kw)
        else:
            r = direct(c["name"])(prof, c["k"], **kw)
        out["out"] = sut.committees(r)
    except Exception as x:
        out["cls"] = sut.errclass(x)
        out["msg"] = sut.errtext(x).replace("|", "/")
    return out


def valid_algs(name):
    return [a for a in AR.Rule(name).algorithms if a != "mip-gurobi"]


def some_call(rng, e, name):
    """a valid call with zero to two changes that may or may not make it invalid"""
    c = {"name": name, "entry": rng.choice(["compute", "Rule", "direct"]), "k": rng.randint(1, min(e.m, 3)), "alg": "default", "res": "default",
         "max": "default"}
    r = rng.random()
    if r < 0.4:
        c["alg"] = rng.choice(["fastest"] + valid_algs(name))
    elif r < 0.55:
        c["alg"] = rng.choice(ALGS)
    r = rng.random()
    if r < 0.5:
        c["res"] = rng.choice(["True", "False"])
    elif r < 0.6:
        c["res"] = rng.choice(["None", "no", "2"])
    r = rng.random()
    if r < 0.2:
        c["max"] = rng.choice(["0", "-1", "str", "float", "list"])
    elif r < 0.6:
        c["max"] = rng.choice(["none", "1", "2", "100"])
    if rng.random() < 0.12:
        c["k"] = rng.choice([0, -1, e.m + 1, e.m + 5, e.m])
    return c


def grid(e, name):
    """every single fault and every plain valid combination through every entry point"""
    base = {"name": name, "entry": "compute", "k": min(2, e.m), "alg": "default", "res": "default", "max": "default"}
    for entry in ("compute", "Rule", "direct"):
        b = dict(base, entry=entry)
        yield b
        for res in ("True", "False", "None", "no", "2"):
            yield dict(b, res=res)
            for mx in MAX:
                yield dict(b, res=res, max=mx)
        for mx in MAX:
            yield dict(b, max=mx)
        for alg in ALGS + ["fastest"] + valid_algs(name):
            yield dict(b, alg=alg)
        for k in (0, -1, e.m + 1, e.m):
            yield dict(b, k=k)


PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "priceability", "stable-priceability", "core"]
FCT = {"pareto": "check_pareto_optimality", "jr": "check_JR", "pjr": "check_PJR", "ejr": "check_EJR", "ejr+": "check_EJR_plus",
       "fjr": "check_FJR", "priceability": "check_priceability", "stable-priceability": "check_stable_priceability", "core": "check_core"}


def ask(prof, c, q):
    kw = {}
    if c["alg"] != "default":
        kw["algorithm"] = c["alg"]
    if c["quota"]:
        kw["quota"] = q
    out = dict(c, cls="")
    try:
        if c["entry"] == "check":
            sut.properties.check(c["prop"], prof, c["W"], **kw)
        else:
            getattr(sut.properties, FCT[c["prop"]])(prof, c["W"], **kw)
    except Exception as x:
        out["cls"] = sut.errclass(x)
        out["msg"] = sut.errtext(x).replace("|", "/")
    return out


def C19(ctx):
    def thunk(rid, e, calls, empty=False):
        prof = sut.Profile(e.m) if empty else sut.profile(e)
        return [{"id": rid, "kind": "validate", "m": e.m, "n": len(prof), "unit": e.unit, "intw": all(x.denominator == 1 for x in e.w),
                 "A": [] if empty else e.A, "w": [] if empty else e.rec()["w"], "calls": [invoke(prof, c) for c in calls]}]

    def props(rid, e, calls, q):
        prof = sut.profile(e)
        return [{"id": rid, "kind": "propvalid", **e.rec(), "q": el.rat(q), "calls": [ask(prof, c, q) for c in calls]}]

    idx = 0
    rng = ctx.rng()
    fixed = el.El(4, [[0, 1], [1, 2], [3], [0, 1]], [1] * 4, 2)
    for name in RULES:
        idx += 1
        if ctx.mine(idx):
            yield lambda name=name, idx=idx: thunk(f"g{idx}", fixed, list(grid(fixed, name)))
    gens = {w: el.stream(rng, (w,), mmax=5, nmax=5) for w in ("unit", "int", "frac")}
    for _ in range(500 * ctx.scale):
        e = next(gens[rng.choice(["unit", "unit", "int", "frac"])])
        pool = [r for r in RULES if not (r == "leximaxphragmen" and sum(e.w) * F(1) > 5 or r == "leximaxphragmen" and not e.unit)]
        pool = pool + ["monroe", "greedy-monroe", "lexminimaxav", "rsd", "cc"]
        calls = [some_call(rng, e, rng.choice(pool)) for _ in range(6)]
        if rng.random() < 0.3:
            calls.append({"name": rng.choice(UNKNOWN), "entry": rng.choice(["compute", "Rule"]), "k": 1, "alg": "default", "res": "default",
                          "max": "default"})
            if calls[-1]["name"].startswith("geom"):
                calls[-1]["entry"] = "compute"
        if rng.random() < 0.3:
            calls.append({"name": rng.choice(UNKNOWN_DIRECT), "entry": "direct", "k": rng.randint(1, min(2, e.m)), "alg": "default", "res": "default",
                          "max": "default"})
        empty = rng.random() < 0.08
        idx += 1
        if ctx.mine(idx):
            yield lambda e=e, calls=calls, empty=empty, idx=idx: thunk(f"r{idx}", e, calls, empty)
    gen = el.stream(rng, ("unit", "int", "frac"), mmax=5, nmax=5)
    for _ in range(150 * ctx.scale):
        e = next(gen)
        calls = []
        for _ in range(6):
            W = rng.sample(range(e.m), rng.randint(1, e.m))
            r = rng.random()
            if r < 0.12:
                W[rng.randrange(len(W))] = rng.choice([e.m, e.m + 1, 99])
            elif r < 0.17:
                W[rng.randrange(len(W))] = -1
            prop = rng.choice(PROPS)
            c = {"prop": prop, "entry": rng.choice(["check", "direct"]), "W": W, "alg": "default", "quota": rng.random() < 0.3}
            if prop in ("jr", "ejr+"):
                pass
            elif rng.random() < 0.5:
                c["alg"] = rng.choice(["fastest", "gurobi", "brute-force", "Gurobi", "standard", "", "ortools-cp"])
            if prop in ("pareto", "priceability", "stable-priceability") and c["quota"]:
                c["entry"] = "check"
            if rng.random() < 0.08:
                c["prop"], c["entry"] = rng.choice(["JR", "ejrplus", "", "laminar", "EJR+"]), "check"
            calls.append(c)
        idx += 1
        if ctx.mine(idx):
            q = rng.choice([F(1), F(3, 2), F(2), F(5, 3)])
            yield lambda e=e, calls=calls, q=q, idx=idx: props(f"p{idx}", e, calls, q)
