"""Plans for C21-C24: property checkers on recorded elections and committees."""
import itertools
from fractions import Fraction as F

import elections as el
import lp
import sut

ALLW = ("unit", "unit", "int", "frac", "unit", "tiny", "samefrac", "int3", "avg1", "oneoff")
ALGS = {"jr": [None], "ejr+": [None], "pjr": ["brute-force", "gurobi", None], "ejr": ["brute-force", "gurobi", None],
        "fjr": ["brute-force", "gurobi", None], "core": ["brute-force", "gurobi", None],
        "pareto": ["brute-force", "gurobi", None], "priceability": ["gurobi", None], "stable-priceability": ["gurobi", None]}


def ask(prop, prof, W, q, alg, qtype="frac"):
    c = {"prop": prop, "alg": alg or "default", "err": "", "val": False, "q": qtype}
    kw = {}
    if q is not None:
        kw["quota"] = q
    if alg:
        kw["algorithm"] = alg
    try:
        r = sut.properties.check(prop, prof, W, **kw)
        c["val"] = bool(r)
        if not isinstance(r, bool):
            c["err"] = f"returned a {type(r).__name__}"
    except Exception as e:
        c["err"] = sut.errtext(e)
    return c


def winners(rng, e):
    """some committee of a reasonable rule, possibly with one member exchanged"""
    prof = sut.profile(e)
    rule = rng.choice(["pav", "seqphragmen", "equal-shares", "cc", "av", "seqpav"])
    kw = {"algorithm": "branch-and-bound"} if rule in ("pav", "cc") else {}
    W = sorted(sut.abcrules.compute(rule, prof, e.k, resolute=True, **kw)[0])
    if rng.random() < 0.5 and len(W) < e.m:
        W[rng.randrange(len(W))] = rng.choice([c for c in range(e.m) if c not in W])
    return sorted(W)


def committee(rng, e):
    r = rng.random()
    if r < 0.45:
        try:
            return winners(rng, e)
        except Exception:
            pass
    return sorted(rng.sample(range(e.m), e.k))


def quota(rng, e):
    total = sum(e.w)
    r = rng.random()
    if r < 0.5:
        return None
    return rng.choice([F(1), F(2), F(3), F(1, 2), F(3, 2), F(5, 4), total, total / 2, total / 3, total / (e.k + 1), total + 1,
                       2 * total, F(4, 3), total * F(2, 3), F(1, 10), min(e.w), max(e.w)])


def passed(rng, q):
    """the quota as int, float (only exactly representable values) or Fraction"""
    if q is None:
        return None, "default"
    r = rng.random()
    if q.denominator == 1 and r < 0.4:
        return int(q), "int"
    if q.denominator & (q.denominator - 1) == 0 and r < 0.7:
        return float(q), "float"
    return q, "frac"


def record(rid, e, W, q, qv, qt, props, algs=ALGS, asfrac=False):
    e = e.with_(k=len(W))
    prof = sut.profile(e, asfrac=asfrac)
    rec = {"id": rid, "kind": "axiom", **e.rec(), "W": W, "q": el.rat(q) if q is not None else "", "calls": [],
           "cert": {"kind": "none"}, "scert": {"kind": "none"}}
    if "priceability" in props:
        rec["cert"] = lp.price_certificate(e, W, False)
    if "stable-priceability" in props:
        rec["scert"] = lp.price_certificate(e, W, True)
    for p in props:
        for a in algs[p]:
            rec["calls"].append(ask(p, prof, W, qv if p in ("jr", "pjr", "ejr", "ejr+", "fjr", "core") else None, a, qt))
    return [rec]


def all_committees(e):
    for k in range(1, e.m + 1):
        yield from (list(x) for x in itertools.combinations(range(e.m), k))


def items(ctx, props, count, exh=((2, 2), (3, 2)), **kw):
    idx = 0
    rng = ctx.rng()
    for m, n in exh:
        for e in el.exhaustive(m, n):
            if e.k != 1:                      # committees are enumerated below
                continue
            for W in all_committees(e):
                q = None if idx % 3 else F(rng.choice([1, 2, 3]), rng.choice([1, 2]))
                qv, qt = passed(rng, q)
                idx += 1
                if ctx.mine(idx) and (ctx.thorough or idx % 4 < 1 or n * m < 6):
                    yield lambda e=e, W=W, q=q, qv=qv, qt=qt, idx=idx: record(f"e{idx}", e, W, q, qv, qt, props)
    for mode, cnt, k2 in (("all", count, dict(mmax=6, nmax=7)), ("dense", count // 3, dict(mmax=6, nmax=8, families=["types", "party", "blocks", "cyclic", "nested"]))):
        rng = ctx.rng()
        gen = el.stream(rng, ALLW, **{**k2, **kw})
        for e in itertools.islice(gen, cnt * ctx.scale):
            W = committee(rng, e)
            q = quota(rng, e)
            qv, qt = passed(rng, q)
            idx += 1
            if ctx.mine(idx):
                yield lambda e=e, W=W, q=q, qv=qv, qt=qt, idx=idx: record(f"{idx}", e, W, q, qv, qt, props, asfrac=idx % 5 == 4)


def larger(ctx, props, count, algs, mmax=8):
    """more voters and candidates, committees close to a winning one, solvers only where brute force is too slow"""
    rng = ctx.rng()
    gen = el.stream(rng, ALLW, mmin=5, mmax=mmax, nmax=20, kmin=2, kmax=5, families=["midlarge", "types", "manyvoters", "party", "deep", "manycand", "long"])
    for idx, e in enumerate(itertools.islice(gen, count * ctx.scale)):
        if e.fam.startswith("manyvoters"):
            e = e.with_(A=e.A[:20], w=e.w[:20])
        W = committee(rng, e)
        q = quota(rng, e)
        qv, qt = passed(rng, q)
        if ctx.mine(idx):
            yield lambda e=e, W=W, q=q, qv=qv, qt=qt, idx=idx: record(f"L{idx}", e, W, q, qv, qt, props, algs=algs, asfrac=idx % 5 == 4)


def C21(ctx):
    props = ["jr", "pjr", "ejr", "ejr+"]
    yield from items(ctx, props, 1300)
    yield from larger(ctx, props, 160, {**ALGS, "pjr": ["gurobi"], "ejr": ["gurobi"]})


def C22(ctx):
    props = ["fjr", "core"]
    yield from items(ctx, props, 1300)
    yield from larger(ctx, props, 120, {"fjr": ["gurobi", "brute-force"], "core": ["gurobi", "brute-force"]})


def C23(ctx):
    props = ["pareto", "priceability", "stable-priceability"]
    yield from items(ctx, props, 1150)
    yield from larger(ctx, props, 100, ALGS)


RULES = ["pav", "equal-shares", "seqphragmen", "leximaxphragmen", "maximin-support", "cc", "lexcc", "seqcc", "av", "sav", "slav", "geom2", "geom3/2",
         "phragmen-enestroem", "equal-shares-with-av-completion", "equal-shares-with-increment-completion", "monroe",
         "equal-shares-without-completion", "random"]


def C24(ctx):
    def thunk(rid, e, rule, alg, res, rng_pick, asfrac):
        prof = sut.profile(e, asfrac=asfrac)
        if rule == "random":
            coms = [rng_pick]
        else:
            r = sut.committees(sut.abcrules.compute(rule, prof, e.k, algorithm=alg, resolute=res))
            coms = r[:1] + r[-1:] if len(r) > 1 else r
        recs = []
        for i, W in enumerate(coms):
            if not W:
                continue
            full = sut.properties.full_analysis(prof, W)
            single = {p: sut.properties.check(p, prof, W) for p in ALGS}
            recs.append({"id": f"{rid}.{i}", "kind": "analysis", **e.rec(), "W": W, "name": rule, "alg": alg or "", "calls": [],
                         "full": [[p, full[p]] for p in sorted(full)], "single": [[p, single[p]] for p in sorted(single)]})
        return recs
    rng = ctx.rng()
    gens = {"u": el.stream(rng, ("unit",), mmax=6, nmax=8), "w": el.stream(rng, ALLW, mmax=6, nmax=8),
            "s": el.stream(rng, ("unit", "int3"), mmax=5, nmax=4, kmax=3)}
    for idx in range(950 * ctx.scale):
        rule = RULES[idx % len(RULES)]
        e = next(gens["u" if rule in sut.UNIT_ONLY else "s" if rule == "leximaxphragmen" else "w"])
        algs = [a for a in sut.algorithms(rule) if a != "mip-cbc"] if rule != "random" else [None]
        if rule == "leximaxphragmen":
            algs = ["gurobi"]
            if sum(e.w) > 5:
                continue
        alg = rng.choice(algs)
        if alg == "ortools-cp" and any(x.denominator != 1 for x in e.w):
            alg = "gurobi"
        res = rule in sut.RESOLUTE_ONLY or rng.random() < 0.3
        pick = sorted(rng.sample(range(e.m), e.k))
        if ctx.mine(idx):
            yield lambda e=e, rule=rule, alg=alg, res=res, pick=pick, idx=idx: thunk(f"{idx}", e, rule, alg, res, pick, False)
