"""Plans for C15-C18 and C33: results related to other results of the same code."""
import itertools
import math
from fractions import Fraction as F

import elections as el
import sut

ALLW = ("unit", "int", "frac", "unit", "tiny", "samefrac", "big", "avg1", "oneoff")
INT = ("int", "int3", "big", "int3")
FEW = ("heavy", "heavy", "big", "oneoff")
INDEX_TIES = {"seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom3/2", "seqgeom1.1", "revseqpav", "revseqslav", "revseqcc", "revseqgeom2",
              "seqphragmen", "maximin-support", "equal-shares", "equal-shares-without-completion",
              "phragmen-enestroem", "consensus-rule", "greedy-monroe", "av", "sav"}
ALL = [r for r in sut.RULES if r not in ("geom5", "geom1.1", "seqgeom1.1")]


def bounded(rule, e):
    """is the election small enough for this rule's slowest algorithm?"""
    n, m, k = len(e.A), e.m, e.k
    if rule == "leximaxphragmen":
        return m <= 5 and k <= 3 and copies(e) <= 5
    if rule in ("minimaxphragmen", "monroe", "maximin-support"):
        return m <= 7 and n <= 9 and math.comb(m, k) <= 40
    if rule.startswith("revseq") and m > 15:     # many unapproved candidates: too many universes
        return False
    if rule in ("equal-shares-with-increment-completion",):
        return m <= 7 and n <= 12
    if rule in ("eph", "trivial", "av", "sav"):
        return math.comb(m, k) <= 800
    return (m <= 8 or m > 8 and k <= 4) and (n <= 24 or m <= 6) and math.comb(m, k) <= (90 if m <= 8 else 300)


def copies(e):
    d = math.lcm(*(x.denominator for x in e.w))
    ints = [int(x * d) for x in e.w]
    g = math.gcd(*ints)
    return sum(ints) // g


def algs_for(rule, e, cbc=True, asfrac=False):
    a = sut.algorithms(rule)
    if rule == "cc" and (asfrac or any(x.denominator != 1 for x in e.w)):
        a = [x for x in a if x != "ortools-cp"]
    if not cbc or math.comb(e.m, e.k) > 15 or len(e.A) > 8 or rule in ("minimaxphragmen",):
        a = [x for x in a if x != "mip-cbc"]
    return a


def elect(ctx, rules, wmodes, count, **kw):
    """stream of (index, election, rule) over the rules in turn"""
    rng = ctx.rng()
    if kw.get("mmin", 1) > 5 or "crowd" in kw.get("families", ()):
        rules = [r for r in rules if r not in ("leximaxphragmen", "minimaxphragmen", "monroe", "maximin-support",
                                               "equal-shares-with-increment-completion")]
    gens = {"w": el.stream(rng, wmodes, **kw), "u": el.stream(rng, ("unit",), **kw)}
    small = el.stream(rng, ("unit", "int3", "unit"), **{**kw, "mmin": 1, "mmax": 5, "nmax": 4, "kmax": 3})
    idx = 0
    while idx < count * ctx.scale:
        rule = rules[idx % len(rules)]
        for _ in range(200):
            e = next(small if rule == "leximaxphragmen" else gens["u" if rule in sut.UNIT_ONLY else "w"])
            if bounded(rule, e):
                break
        else:
            idx += 1
            continue
        yield idx, e, rule, rng
        idx += 1


# --------------------------------------------------------------------------- C15
def rawcall(rule, prof, k, alg, res, mx=None):
    c = {"alg": alg, "res": bool(res), "max": mx or 0, "err": "", "out": [], "types": True}
    try:
        kw = {"algorithm": alg, "resolute": res}
        if mx is not None:
            kw["max_num_of_committees"] = mx
        r = sut.abcrules.compute(rule, prof, k, **kw)
        c["types"] = isinstance(r, list) and all(isinstance(x, (set, frozenset)) for x in r) and all(
            hasattr(y, "__index__") for x in r for y in x)
        c["out"] = sut.committees(r)
    except Exception as e:
        c["err"] = sut.errtext(e)
    return c


def C15(ctx):
    def thunk(rid, e, rule, asfrac, mx):
        rec = {"id": rid, "kind": "valid", **e.rec(), "name": rule, "calls": [],
               "exact": rule != "equal-shares-without-completion"}
        prof = sut.profile(e, asfrac=asfrac)
        for alg in algs_for(rule, e, asfrac=asfrac):
            if rule not in sut.RESOLUTE_ONLY:
                rec["calls"].append(rawcall(rule, prof, e.k, alg, False))
                for x in mx:
                    rec["calls"].append(rawcall(rule, prof, e.k, alg, False, x))
            rec["calls"].append(rawcall(rule, prof, e.k, alg, True))
        return [rec]
    gens = [elect(ctx, ALL, ALLW, 1800, mmax=8),
            elect(ctx, ALL, ALLW, 500, mmin=9, families=["manycand"], kmax=4),
            elect(ctx, ALL, ALLW, 500, mmax=6, families=["cyclic", "sparse", "party"]),
            elect(ctx, ALL, FEW, 200, families=["few"], kmax=2),
            elect(ctx, ALL, ALLW, 120, families=["crowd", "midlarge", "wide"], kmax=3)]
    for g, gen in enumerate(gens):
        for idx, e, rule, rng in gen:
            mx = rng.sample([1, 2, 3, 4, 7, 50], 2)
            if ctx.mine(idx):
                yield lambda e=e, rule=rule, idx=idx, mx=mx, g=g: thunk(f"{g}.{idx}", e, rule, idx % 7 == 6, mx)


# --------------------------------------------------------------------------- C16
def C16(ctx):
    def thunk(rid, e, rule, asfrac):
        rec = {"id": rid, "kind": "agree", **e.rec(), "name": rule, "calls": [], "lowest": rule in INDEX_TIES}
        prof = sut.profile(e, asfrac=asfrac)
        for alg in algs_for(rule, e, asfrac=asfrac) + ["fastest"]:
            for res in (False, True):
                if res or rule not in sut.RESOLUTE_ONLY:
                    rec["calls"].append(sut.call(rule, prof, e.k, alg, res))
        return [rec]
    rules = [r for r in ALL if len(sut.algorithms(r)) > 1 and r != "rsd"]
    gens = [elect(ctx, rules, ALLW, 1500, mmax=8), elect(ctx, rules, ALLW, 400, mmax=6, families=["cyclic", "blocks", "party", "types"]),
            elect(ctx, rules, ALLW, 250, mmin=9, families=["manycand"], kmax=3),
            elect(ctx, rules, FEW, 500, families=["few"], kmax=2), elect(ctx, ["cc", "maximin-support", "minimaxav", "minimaxphragmen", "pav"], ("heavy", "big"), 120, families=["few"], kmax=2),
            elect(ctx, rules, ALLW, 120, families=["crowd", "midlarge", "wide"], kmax=3)]
    for g, gen in enumerate(gens):
        for idx, e, rule, rng in gen:
            if ctx.mine(idx):
                yield lambda e=e, rule=rule, idx=idx, g=g: thunk(f"{g}.{idx}", e, rule, idx % 7 == 6)


# --------------------------------------------------------------------------- C17 / C18
SAVTIE = [[0, 1, 2], [0, 3, 4], [0, 1, 2, 3], [1, 2, 3]]      # exact tie that float sums break (known finding)


def side(e, prof, rule, algs):
    calls = [sut.call(rule, prof, e.k, alg, rule in sut.RESOLUTE_ONLY) for alg in algs]
    return {**e.rec(), "calls": calls}


def asel(prof, k):
    """the election a profile object holds"""
    return el.El(len(prof.candidates), [sorted(int(c) for c in v.approved) for v in prof], [F(v.weight) for v in prof], k)


def C17(ctx):
    def thunk(rid, e, rule, rel, f):
        algs = algs_for(rule, e, cbc=False)
        prof = sut.profile(e)
        f_used = F(1)
        if rel == "copies":
            q = sut.profile(e)
            q.convert_to_unit_weights()
        elif rel == "merged":
            q = sut.profile(e)
            q.convert_to_weighted()
        else:
            f_used = f
            x = e.with_(w=[f * w for w in e.w])
            if rule == "cc" and any(w.denominator != 1 for w in x.w):
                algs = [a for a in algs if a != "ortools-cp"]
            q = sut.profile(x)
        b = asel(q, e.k)
        return [{"id": rid, "kind": "pair", "rel": rel, "name": rule, "f": el.rat(f_used), "p": [],
                 "a": side(e, prof, rule, algs), "b": side(b, q, rule, algs), "calls": algs}]

    def refuse(rid, e, rule):
        rec = {"id": rid, "kind": "refuse", **e.rec(), "name": rule, "allowed": ["ValueError"], "calls": []}
        prof = sut.profile(e)
        algs = sut.algorithms(rule)
        if rule == "cc":
            algs, rec["allowed"] = ["ortools-cp"], ["TypeError", "ValueError"]
        for alg in algs:
            c = {"alg": alg, "cls": ""}
            try:
                sut.abcrules.compute(rule, prof, e.k, algorithm=alg, resolute=True)
            except Exception as x:
                c["cls"] = sut.errclass(x)
            rec["calls"].append(c)
        return [rec]

    tie = el.El(5, SAVTIE, [1] * 4, 2)
    if ctx.mine(0):
        yield lambda: thunk("k0", tie, "sav", "scaled", F(3, 7))
    rules = [r for r in ALL if r not in sut.UNIT_ONLY]
    for g, (gen, rels) in enumerate([(elect(ctx, rules, INT, 1500, mmax=7), ("copies", "merged", "scaled")),
                                     (elect(ctx, rules, ALLW, 500, mmax=7), ("merged", "scaled")),
                                     (elect(ctx, rules, FEW, 200, families=["few"], kmax=2), ("merged", "scaled")),
                                     (elect(ctx, rules, INT, 60, families=["crowd", "wide"], kmax=3), ("copies", "merged")),
                                     (elect(ctx, rules, ALLW, 90, families=["crowd", "midlarge", "wide"], kmax=3), ("merged", "scaled"))]):
        for idx, e, rule, rng in gen:
            rel = rng.choice(rels)
            if rel == "copies" and sum(e.w) * e.k > 500:       # the solver licence limits the size of models
                rel = "merged"
            f = rng.choice([F(2), F(1, 2), F(1, 3), F(3, 7), F(10), F(1, 10), F(5, 3)])
            if rule == "leximaxphragmen" and copies(e) > 5:
                continue
            if ctx.mine(idx):
                yield lambda e=e, rule=rule, idx=idx, rel=rel, f=f, g=g: thunk(f"{g}.{idx}", e, rule, rel, f)
    rng = ctx.rng()
    for idx, e in enumerate(itertools.islice(el.stream(rng, ("int", "frac", "tiny"), mmax=5, nmax=6), 60)):
        if e.unit:
            continue
        rule = rng.choice(["monroe", "greedy-monroe", "lexminimaxav", "rsd"])
        if ctx.mine(idx):
            yield lambda e=e, rule=rule, idx=idx: refuse(f"r{idx}", e, rule)


NAMES = ["Zoe", "Adam", "0", "b", "B", "x y", "Ä", "10", "2", "a", "c7", "-", "{", "aa", "Eve"]


def C18(ctx):
    def thunk(rid, e, rule, rel, p):
        algs = algs_for(rule, e, cbc=False)
        names = None
        if rel == "voters":
            x = e.with_(A=[e.A[i - 1] for i in p], w=[e.w[i - 1] for i in p])
        elif rel == "cands":
            x = e.with_(A=[sorted(p[c] for c in a) for a in e.A])
        else:
            x, names = e, [NAMES[(i + p[0]) % len(NAMES)] for i in range(e.m)]
        q = sut.profile(x, names)
        return [{"id": rid, "kind": "pair", "rel": rel, "name": rule, "f": "1/1", "p": p,
                 "a": side(e, sut.profile(e), rule, algs), "b": side(asel(q, e.k), q, rule, algs), "calls": algs}]
    if ctx.mine(0):
        yield lambda: thunk("k0", el.El(5, SAVTIE, [1] * 4, 2), "sav", "voters", [1, 2, 4, 3])
    rules = [r for r in ALL if r not in sut.RESOLUTE_ONLY]
    gens = [elect(ctx, rules, ALLW, 1700, mmax=7), elect(ctx, rules, ALLW, 300, mmin=9, families=["manycand"], kmax=4),
            elect(ctx, rules, ALLW, 500, mmax=6, families=["types", "party", "blocks", "nested"]),
            elect(ctx, rules, ALLW, 120, families=["crowd", "midlarge", "wide"], kmax=3)]
    for g, gen in enumerate(gens):
        for idx, e, rule, rng in gen:
            rel = rng.choice(["voters", "cands", "cands", "names"])
            p = list(range(1, len(e.A) + 1)) if rel == "voters" else list(range(e.m))
            rng.shuffle(p)
            if ctx.mine(idx):
                yield lambda e=e, rule=rule, idx=idx, rel=rel, p=p, g=g: thunk(f"{g}.{idx}", e, rule, rel, p)


# --------------------------------------------------------------------------- C33
MONO = ["seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom3/2", "revseqpav", "revseqslav", "revseqcc", "revseqgeom2",
        "seqphragmen", "maximin-support", "av", "sav"]
UNAN = ["av", "sav", "pav", "slav", "lexcc", "geom2", "geom3/2", "seqpav", "seqslav", "seqgeom2", "seqgeom3/2", "revseqpav",
        "revseqslav", "revseqgeom2", "seqphragmen", "minimaxphragmen", "leximaxphragmen", "phragmen-enestroem", "consensus-rule",
        "equal-shares", "equal-shares-with-av-completion", "equal-shares-with-increment-completion",
        "maximin-support", "minimaxav", "lexminimaxav", "eph"]


def C33(ctx):
    def mono(rid, e, rule, alg):
        prof = sut.profile(e)
        return [{"id": rid, "kind": "mono", **e.rec(), "name": rule,
                 "calls": [sut.call(rule, prof, k, alg, True) for k in range(1, e.m + 1)]}]

    def unan(rid, e, rule, algs):
        rec = {"id": rid, "kind": "unan", **e.rec(), "name": rule, "calls": []}
        prof = sut.profile(e)
        for alg in algs:
            for res in (True, False):
                if res or rule not in sut.RESOLUTE_ONLY:
                    rec["calls"].append(sut.call(rule, prof, e.k, alg, res))
        return [rec]
    for g, gen in enumerate([elect(ctx, MONO, ALLW, 1100, mmax=7), elect(ctx, MONO, ALLW, 250, mmin=9, families=["manycand"]),
                             elect(ctx, MONO, ALLW, 60, families=["crowd", "wide"], kmax=1)]):
        for idx, e, rule, rng in gen:
            algs = [a for a in algs_for(rule, e) if a != "mip-cbc"]
            if rule == "maximin-support" and (e.m > 6 or len(e.A) > 10):
                continue
            alg = rng.choice(algs)
            if ctx.mine(idx):
                yield lambda e=e, rule=rule, idx=idx, alg=alg, g=g: mono(f"m{g}.{idx}", e, rule, alg)
    for idx, e, rule, rng in elect(ctx, UNAN, ALLW, 900, mmax=7):
        s = sorted(rng.sample(range(e.m), rng.randint(1, e.m)))
        x = e.with_(A=[s] * len(e.A))
        if rule == "leximaxphragmen":
            x = x.with_(A=x.A[:3], w=x.w[:3])
        algs = [a for a in algs_for(rule, x) if a != "mip-cbc"]
        if ctx.mine(idx):
            yield lambda x=x, rule=rule, idx=idx, algs=algs: unan(f"u{idx}", x, rule, algs)
