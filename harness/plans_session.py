"""Plan for C20: replays sessions generated by module SessionGen in forked processes."""
import json
import os
import signal
from fractions import Fraction as F

import plans_profile as pp
import sut
from elections import rat

SOLVERS_EXCLUDED = {"mip-gurobi", "mip-cbc"}
PURE = {"compute", "score", "property", "analysis", "wrapper", "info"}
MODS = [sut.abcrules, sut.properties, sut.scores, sut.misc, sut.preferences, sut.outmod, sut.fileio, sut.generate]


def settings():
    """the simple public module-level settings"""
    out = []
    for mod in MODS:
        for n in sorted(vars(mod)):
            v = vars(mod)[n]
            if n.isupper() and isinstance(v, (bool, int, float, str, F)):
                out.append(f"{mod.__name__}.{n}={v}")
    out.append("rules=" + ",".join(map(str, sut.abcrules.MAIN_RULE_IDS)))
    return "; ".join(out).replace('"', "'").replace("\\", "/").replace("\n", "~")


def container(o):
    return {"list": list, "tuple": tuple, "set": set, "CandidateSet": lambda W: sut.CandidateSet(W)}[o["cont"] or "list"](o["W"])


def show(v):
    if isinstance(v, (bool, str)) or v is None:
        return str(v)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, (set, frozenset, sut.CandidateSet)):
        return "{" + ", ".join(map(str, sorted(v))) + "}"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {show(x)}" for k, x in sorted(v.items())) + "}"
    if hasattr(v, "numerator"):
        return rat(F(int(v.numerator), int(v.denominator)))
    return repr(v)


def algorithm(o):
    if o["alg"] >= 18:
        return "fastest"
    algs = [a for a in sut.abcrules.Rule(o["rule"]).available_algorithms if a not in SOLVERS_EXCLUDED]
    return algs[o["alg"] % len(algs)] if algs else "fastest"


WRAPPER = {"equal-shares": "compute_equal_shares", "equal-shares-with-av-completion": "compute_equal_shares_with_av_completion",
           "equal-shares-with-increment-completion": "compute_equal_shares_with_increment_completion", "phragmen-enestroem": "compute_phragmen_enestroem",
           "consensus-rule": "compute_consensus_rule", "maximin-support": "compute_maximin_support", "trivial": "compute_trivial_rule",
           "greedy-monroe": "compute_greedy_monroe"}


def perform(o, p):
    """run one pure operation; returns (value, arguments before, arguments after)"""
    op = o["op"]
    if op in ("compute", "wrapper"):
        kw = {"resolute": o["res"] or o["rule"] in sut.RESOLUTE_ONLY}
        if o["max"] and not kw["resolute"]:
            kw["max_num_of_committees"] = o["max"]
        kw["algorithm"] = algorithm(o)
        if op == "compute":
            return sut.abcrules.compute(o["rule"], p, o["k"], **kw), "", ""
        fct = getattr(sut.abcrules, WRAPPER.get(o["rule"], "compute_" + o["rule"].replace("-", "_")), None)
        if fct is None:
            fct = sut.abcrules.Rule(o["rule"]).compute
        return fct(p, o["k"], **kw), "", ""
    if op == "info":
        f = {"str": lambda: str(p), "compact": p.str_compact, "party": p.is_party_list, "total": p.total_weight,
             "approved": lambda: sorted(p.approved_candidates())}[o["fn"]]
        return f(), "", ""
    W = container(o)
    before = show(W) if not isinstance(W, list) else str(W)
    if op == "property":
        alg = ["fastest", "fastest", "brute-force", "gurobi"][o["alg"] % 4]
        if o["prop"] in ("jr", "ejr+") or (o["prop"] in ("priceability", "stable-priceability") and alg == "brute-force"):
            alg = "fastest"
        kw = {} if alg == "fastest" else {"algorithm": alg}
        v = sut.properties.check(o["prop"], p, W, **kw)
    elif op == "analysis":
        v = sut.properties.full_analysis(p, W)
    else:
        sc, fn = sut.scores, o["fn"]
        if fn in ("pav", "cc", "av", "slav", "geom2"):
            v = sc.thiele_score(fn, p, W)
        elif fn == "monroescore":
            v = sc.monroescore(p, W)
        elif fn == "minimaxav":
            v = sc.minimaxav_score(p, W)
        elif fn.startswith("marginal"):
            v = sc.marginal_thiele_scores_add(sc.get_marginal_scorefct(fn[9:], len(W)), p, W)
        elif fn == "num_voters_with_upper_bounded_hamming_distance":
            v = sc.num_voters_with_upper_bounded_hamming_distance(2, p, W)
        else:
            v = sc.thiele_score("pav", p, W)
    after = show(W) if not isinstance(W, list) else str(W)
    return v, before, after


def limited(o):
    """operations whose result is determined by the documentation (parallel solvers may return any winner)"""
    if o["op"] in ("compute", "wrapper"):
        return algorithm(o) != "ortools-cp" and not (algorithm(o) == "fastest" and o["rule"] == "cc") or (not o["res"] and not o["max"])
    return True


def in_child(f):
    """result of f in a forked process, None if that process was killed"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 60)
            try:
                data = json.dumps({"v": f()}).encode()
            except Exception as e:
                data = json.dumps({"e": f"{type(e).__name__}: {e}"}).encode()
            with os.fdopen(w, "wb") as g:
                g.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as g:
        data = g.read()
    os.waitpid(pid, 0)
    d = json.loads(data) if data else {"v": None}
    if "e" in d:
        raise RuntimeError(d["e"])
    return d["v"]


def text(v):
    return show(v).replace('"', "'").replace("\\", "/").replace("\n", "~").replace("|", "/")


def build(view):
    p = sut.Profile(view["m"], cand_names=list(view["names"]))
    for v in view["V"]:
        p.add_voter(sut.Voter(v["a"], weight=sut.pyweight(F(v["w"]))))
    return p


def slim(p):
    return pp.ABSENT if p is None else {"ex": True, "m": len(p.candidates), "names": list(p.cand_names), "V": [pp.entry(v) for v in p]}


def session(hist):
    P, V, calls, kept = {}, {}, [], []

    def observe():
        return {"P": [slim(P.get(1)), slim(P.get(2))], "verb": int(sut.output.verbosity), "settings": settings()}
    for o in hist:
        c = {"do": o, "cls": "", "alg": o["op"], "b": observe(), "result": "", "fresh": "", "argsbefore": "", "argsafter": "", "det": False, "returned": ""}
        try:
            if o["op"] in PURE:
                v, c["argsbefore"], c["argsafter"] = perform(o, P[o["p"]])
                c["result"] = text(v)
                kept.append((c, v))
            elif o["op"] == "verbosity":
                sut.output.set_verbosity(o["verb"])
            else:
                pp.apply(P, V, o)
        except Exception as x:
            c["cls"] = sut.errclass(x)
            if o["op"] in PURE:
                c["result"] = c["returned"] = "raised " + c["cls"]
        c["o"] = observe()
        calls.append(c)
    for c, v in kept:
        c["returned"] = text(v)
    return calls


def fresh(o, view):
    try:
        return text(perform(o, build(view))[0])
    except Exception as x:
        return "raised " + sut.errclass(x)


def C20(ctx):
    def thunk(no, hist):
        calls = in_child(lambda: session(hist))
        if calls is None:
            return []
        for c in calls:
            if c["do"]["op"] in PURE:
                r = in_child(lambda c=c: fresh(c["do"], c["b"]["P"][c["do"]["p"] - 1]))
                c["det"] = r is not None and limited(c["do"])
                c["fresh"] = r or ""
        return [{"id": f"s{no}", "kind": "session", "calls": calls}]
    for no, hist in enumerate(ctx.histories("SessionGen")):
        if ctx.mine(no):
            yield lambda no=no, hist=hist: thunk(no, hist)
