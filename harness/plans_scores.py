"""Plan for C25: the published score functions."""
import itertools
from fractions import Fraction as F

import elections as el
import sut
from elections import rat

SC = sut.scores
SFS = {"pav": ("pav", "0/1"), "slav": ("slav", "0/1"), "cc": ("cc", "0/1"), "av": ("av", "0/1"), "geom2": ("geom", "2/1"), "geom3/2": ("geom", "3/2"),
       "geom1.5": ("geom", "3/2"), "geom10": ("geom", "10/1"), "atleast1": ("atleast", "1/1"), "atleast2": ("atleast", "2/1"),
       "atleast3": ("atleast", "3/1")}
UNKNOWN = ["", "xyz", "PAV", "sav", "pav2", "lexcc", "geo2", "at_least1", "monroe"]
LISTS = {"add", "remove"}


def evaluate(c, prof, W):
    n, fn, x = c["name"], c["fn"], c["x"]
    if fn == "thiele_score":
        return SC.thiele_score(n, prof, W)
    if fn == "marginal":
        return SC.get_marginal_scorefct(n, max(1, len(W)))(x)
    if fn == "cumulative":
        return SC.cumulative_score(SC.get_marginal_scorefct(n), x)
    if fn == "add":
        return SC.marginal_thiele_scores_add(SC.get_marginal_scorefct(n, len(W)), prof, W)
    if fn == "remove":
        return SC.marginal_thiele_scores_remove(SC.get_marginal_scorefct(n, len(W)), prof, W)
    if fn == "monroe":
        return SC.monroescore(prof, W)
    if fn == "monroe-flow":
        return SC.monroescore_flowbased(prof, W)
    if fn == "monroe-matching":
        return SC.monroescore_matching(prof, W)
    if fn == "minimaxav":
        return SC.minimaxav_score(prof, W)
    if fn == "bounded":
        return SC.num_voters_with_upper_bounded_hamming_distance(x, prof, W)
    if fn == "hamming":
        return sut.misc.hamming(prof[0].approved, W)
    raise AssertionError(fn)


def number(v):
    return rat(F(int(v.numerator), int(v.denominator)) if hasattr(v, "numerator") else F(v))


def score_call(fn, prof, W, name="", x=0):
    sf, p = SFS.get(name, ("unknown" if fn in ("thiele_score", "marginal", "cumulative", "add", "remove") else "", "0/1"))
    c = {"fn": fn, "name": name, "sf": sf, "p": p, "x": x, "cls": "", "val": [], "alg": fn}
    try:
        v = evaluate(c, prof, W)
        c["val"] = [number(y) for y in v] if fn in LISTS else [number(v)]
    except Exception as e:
        c["cls"], c["msg"] = sut.errclass(e), sut.errtext(e).replace("|", "/")
    return c


def C25(ctx):
    shapes = [list, tuple, set, sut.CandidateSet]

    def thunk(rid, e, W, names, shape, asfrac, bad):
        prof = sut.profile(e, asfrac=asfrac)
        V = shapes[shape](W)
        calls = []
        for n in names:
            calls.append(score_call("thiele_score", prof, V, n))
            calls.append(score_call("add", prof, V, n))
            if shape >= 2:
                calls.append(score_call("remove", prof, V, n))
            calls.append(score_call("marginal", prof, V, n, len(W)))
            calls.append(score_call("cumulative", prof, V, n, len(W)))
        if bad:
            calls.append(score_call(("thiele_score", "marginal")[bad % 2], prof, V, UNKNOWN[bad % len(UNKNOWN)]))
        if e.unit and W:
            calls += [score_call(f, prof, V) for f in ("monroe", "monroe-flow", "monroe-matching")]
        calls += [score_call("minimaxav", prof, V), score_call("hamming", prof, V)]
        calls += [score_call("bounded", prof, V, x=x) for x in range(0, e.m + 1, 1 if e.m < 6 else 3)]
        return [{"id": rid, "kind": "scores", **e.with_(k=max(1, len(W))).rec(), "W": sorted(W), "calls": calls}]
    rng = ctx.rng()
    idx = 0
    for m, n in ((2, 2), (3, 2), (2, 3)):
        for e in el.exhaustive(m, n):
            if e.k != 1:
                continue
            for r in range(m + 1):
                for W in itertools.combinations(range(m), r):
                    idx += 1
                    if ctx.mine(idx) and (ctx.thorough or idx % 3 == 0):
                        yield lambda e=e, W=W, idx=idx: thunk(f"e{idx}", e, list(W), ["pav", "geom3/2"], idx % 4, False, 0)
    gens = [el.stream(rng, ("unit", "int", "frac", "unit", "tiny", "big", "avg1", "oneoff"), mmax=9),
            el.stream(rng, ("unit",), mmax=8, families=["types", "dense", "party"]),
            el.stream(rng, ("unit", "int"), mmin=9, families=["manycand"])]
    for g, cnt in zip(gens, (900, 300, 120)):
        for e in itertools.islice(g, cnt * ctx.scale):
            W = rng.sample(range(e.m), rng.choice([0, 1, rng.randint(0, min(e.m, 7)), rng.randint(1, min(e.m, 7)), min(e.m, 7)]))
            names = rng.sample(list(SFS), 2)
            shape, bad = rng.randrange(4), rng.choice([0, 0, 0, rng.randint(1, 40)])
            idx += 1
            if ctx.mine(idx):
                yield lambda e=e, W=W, names=names, shape=shape, bad=bad, idx=idx: thunk(f"{idx}", e, W, names, shape, idx % 6 == 5, bad)
