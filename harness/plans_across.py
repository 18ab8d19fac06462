"""Plans for C34-C37: party-list elections, joined electorates, relations between rules, support and losers."""
import itertools
import math
from fractions import Fraction as F

import elections as el
import sut
from plans_meta import ALLW, algs_for, asel, bounded, copies, elect

# ------------------------------------------------------------------------ C34
PAVLIKE = ["pav", "seqpav", "revseqpav", "seqphragmen", "maximin-support"]
METHOD = {**{r: ("divisor", "pav", "0/1") for r in PAVLIKE},
          **{r: ("divisor", "slav", "0/1") for r in ("slav", "seqslav", "revseqslav")},
          **{r: ("divisor", "cc", "0/1") for r in ("cc", "seqcc", "revseqcc")},
          **{r: ("divisor", "geom", "2/1") for r in ("geom2", "seqgeom2", "revseqgeom2")},
          **{r: ("divisor", "geom", "3/2") for r in ("geom3/2", "seqgeom3/2")},
          "av": ("divisor", "av", "0/1"),
          "leximaxphragmen": ("subset", "pav", "0/1"), "minimaxphragmen": ("minload", "pav", "0/1"),
          "phragmen-enestroem": ("lr", "pav", "0/1"), "monroe": ("lr", "pav", "0/1"),
          "greedy-monroe": ("lower", "pav", "0/1"),
          **{r: ("lower", "pav", "0/1") for r in ("equal-shares", "equal-shares-with-av-completion")}}


def party_election(rng, wmodes, gmax, capmax, nmax, kmax, enough, empties=True):
    """disjoint parties; votes are voters with weights in random order"""
    k = rng.randint(1, kmax)
    g = rng.randint(1, gmax)
    caps = [rng.randint(k, k + 1) if enough else rng.randint(1, capmax) for _ in range(g)]
    spare = rng.choice([0, 0, 1, 2])
    m = sum(caps) + spare
    k = min(k, m)
    cs = list(range(m))
    rng.shuffle(cs)
    parties, i = [], 0
    for c in caps:
        parties.append(sorted(cs[i:i + c]))
        i += c
    # votes: few voters, equal strengths, or strongly unequal parties
    style = rng.choice(["few", "many", "equal", "steps"])
    n = rng.randint(g, min(nmax, max(g, {"few": 4, "many": nmax, "equal": g, "steps": nmax}[style])))
    if style == "equal":
        votes = list(range(g)) * max(1, n // g)
    elif style == "steps":
        votes = [p for p in range(g) for _ in range(p + 1)][:nmax]
    else:
        votes = list(range(g)) + [rng.choice(range(g)) for _ in range(n - g)]
    rng.shuffle(votes)
    A = [parties[p] for p in votes]
    if empties and rng.random() < 0.15:
        A.insert(rng.randint(0, len(A)), [])
    return el.El(m, A, el.weights(rng, len(A), rng.choice(wmodes)), k, "partylist")


def C34(ctx):
    def thunk(rid, e, rule, algs, res, mx):
        meth, sf, p = METHOD[rule]
        prof = sut.profile(e)
        rec = {"id": rid, "kind": "party", **e.rec(), "name": rule, "method": meth, "sf": sf, "p": p, "calls": []}
        for alg in algs:
            if res and rule not in sut.RESOLUTE_ONLY:
                rec["calls"].append(sut.call(rule, prof, e.k, alg, False))
            if mx and rule not in sut.RESOLUTE_ONLY:
                rec["calls"].append(sut.call(rule, prof, e.k, alg, False, mx))
            rec["calls"].append(sut.call(rule, prof, e.k, alg, True))
        return [rec]

    def fits(rule, e, size):
        """is the election inside the rule's range, and can its algorithms handle it?"""
        if rule in sut.UNIT_ONLY and not e.unit:
            return False
        if METHOD[rule][0] == "lr" or rule == "greedy-monroe":
            if any(not a or len(a) < e.k for a in e.A):
                return False
        if rule in ("monroe", "greedy-monroe") and len(e.A) % e.k:
            return False
        if rule == "leximaxphragmen" and not (copies(e) <= 5 and e.m <= 6 and e.k <= 3):
            return False
        if rule == "minimaxphragmen" and (e.m > 8 or len({tuple(a) for a in e.A}) > 4 or math.comb(e.m, e.k) > 60):
            return False
        if rule in ("maximin-support", "monroe") and size and (e.m > 14 or len(e.A) > 20):
            return False
        return size or math.comb(e.m, e.k) <= (60 if rule in ("monroe", "maximin-support") else 130)

    rules = list(METHOD)
    seq = [r for r in rules if r not in ("minimaxphragmen", "leximaxphragmen", "cc", "slav", "geom2", "geom3/2")]
    plans = [("s", 1500, rules, (3, 4, 9, 4), ALLW, False), ("e", 900, rules, (3, 4, 10, 3), ALLW, True),
             ("l", 700, seq, (6, 9, 24, 14), ALLW, False), ("q", 400, seq, (4, 9, 30, 9), ALLW, True)]
    for tag, count, rs, (g, cap, n, k), wm, enough in plans:
        rng = ctx.rng()
        size = tag in "lq"
        for idx in range(count * ctx.scale):
            rule = rs[idx % len(rs)]
            for _ in range(400):
                e = party_election(rng, ("unit",) if rule in sut.UNIT_ONLY else wm, g, cap, n, k,
                                   enough or METHOD[rule][0] == "lr" or rule == "greedy-monroe")
                if fits(rule, e, size):
                    break
            else:
                continue
            algs = algs_for(rule, e)
            if math.comb(e.m, e.k) > 300:
                algs = [a for a in algs if a not in ("brute-force", "branch-and-bound", "mip-cbc", "ortools-cp")]
            mx = rng.choice([None, None, 2, 5])
            if size:
                mx = None
            if ctx.mine(idx):
                yield lambda e=e, rule=rule, algs=algs, idx=idx, size=size, tag=tag, mx=mx: thunk(f"{tag}{idx}", e, rule, algs, not size, mx)


# ------------------------------------------------------------------------ C35
JOIN = ["av", "pav", "slav", "cc", "geom2", "geom3/2", "lexcc", "minimaxav", "lexminimaxav"]
EMPTY = ["av", "pav", "slav", "cc", "geom2", "geom3/2", "lexcc", "seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom3/2", "revseqpav", "revseqslav", "revseqcc",
         "revseqgeom2", "seqphragmen", "minimaxphragmen", "leximaxphragmen", "maximin-support"]
FULL = ["av", "pav", "slav", "cc", "geom2", "geom3/2", "lexcc", "seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom3/2", "revseqpav", "revseqslav", "revseqcc",
        "revseqgeom2"]
NEWCAND = ["av", "pav", "slav", "geom2", "geom3/2", "lexcc", "seqpav", "seqslav", "seqgeom2", "seqgeom3/2", "revseqpav", "revseqslav", "revseqgeom2",
           "seqphragmen", "minimaxphragmen", "leximaxphragmen", "maximin-support", "lexminimaxav", "equal-shares", "equal-shares-without-completion"]


def sided(e, rule, algs, prof=None):
    prof = prof or sut.profile(e)
    return {**asel(prof, e.k).rec(), "calls": [sut.call(rule, prof, e.k, a, False) for a in algs]}


def C35(ctx):
    def join(rid, e, x, rule, algs):
        both = sut.profile(e)
        u = e.with_(A=e.A + x.A, w=e.w + x.w)
        a, b = sided(e, rule, algs), sided(x, rule, algs)
        if len(rid) % 2:                     # the joined profile is built voter by voter, or all at once
            for ballot, w in zip(x.A, x.w):
                both.add_voter(sut.Voter(ballot, weight=sut.pyweight(w)))
        else:
            both = sut.profile(u)
        return [{"id": rid, "kind": "join", "name": rule, "exact": rule != "minimaxav", "a": a, "b": b, "ab": sided(u, rule, algs, both), "calls": algs}]

    def neglect(rid, e, x, rule, rel, algs):
        return [{"id": rid, "kind": "neglect", "name": rule, "rel": rel, "a": sided(e, rule, algs), "b": sided(x, rule, algs), "calls": algs}]

    for g, gen in enumerate([elect(ctx, JOIN, ALLW, 1500, mmax=7), elect(ctx, JOIN, ALLW, 200, mmin=9, families=["manycand"], kmax=3)]):
        for idx, e, rule, rng in gen:
            wm = ("unit",) if rule in sut.UNIT_ONLY else ALLW
            style = rng.choice(["single", "ballot", "few", "split"])
            if style == "single":            # one more approval for one candidate
                A = [[rng.randrange(e.m)]]
            elif style == "ballot":
                A = [sorted(rng.sample(range(e.m), rng.randint(0, e.m)))]
            elif style == "few":
                A = el.iid(rng, e.m, rng.randint(1, 4), rng.choice([0.3, 0.6]))
            if style == "split" and len(e.A) > 1:
                h = rng.randint(1, len(e.A) - 1)
                e, x = e.with_(A=e.A[:h], w=e.w[:h]), e.with_(A=e.A[h:], w=e.w[h:])
            else:
                if style == "split":
                    A = [list(range(e.m))]
                x = el.El(e.m, A, el.weights(rng, len(A), rng.choice(wm)), e.k)
            u = e.with_(A=e.A + x.A, w=e.w + x.w)
            algs = algs_for(rule, u, cbc=False)
            if ctx.mine(idx):
                yield lambda e=e, x=x, rule=rule, idx=idx, algs=algs, g=g: join(f"j{g}.{idx}", e, x, rule, algs)
    for rel, rules, count in (("empty ballots", EMPTY, 700), ("full ballots", FULL, 600), ("new candidates", NEWCAND, 800)):
        for idx, e, rule, rng in elect(ctx, rules, ALLW, count, mmax=7):
            if rel == "new candidates":
                if len({c for a in e.A for c in a}) < e.k:
                    continue
                x = e.with_(m=e.m + rng.choice([1, 1, 2, 4]))
            else:
                j = rng.choice([1, 1, 2, 5])
                x = e.with_(A=e.A + [[] if rel == "empty ballots" else list(range(e.m))] * j,
                            w=e.w + ([F(1)] * j if rule == "leximaxphragmen" or rng.random() < 0.4 else el.weights(rng, j, "frac")))
            if not bounded(rule, x) and rule in ("leximaxphragmen", "minimaxphragmen", "maximin-support"):
                continue
            algs = algs_for(rule, x, cbc=False)
            if ctx.mine(idx):
                yield lambda e=e, x=x, rule=rule, idx=idx, rel=rel, algs=algs: neglect(f"{rel[0]}{idx}", e, x, rule, rel, algs)


# ------------------------------------------------------------------------ C36
SMALLSET = [r for r in sut.RULES if r not in ("geom5", "geom1.1", "seqgeom1.1", "rsd", "trivial", "eph", "leximaxphragmen")]
FASTSET = ["av", "sav", "pav", "slav", "cc", "geom2", "lexcc", "seqpav", "seqslav", "seqcc", "seqgeom2", "revseqpav", "revseqcc", "seqphragmen", "minimaxav",
           "equal-shares", "equal-shares-with-av-completion", "equal-shares-without-completion", "phragmen-enestroem", "consensus-rule"]


def C36(ctx):
    def thunk(rid, e, rules, rng_seed, res, swaps, limit):
        prof = sut.profile(e)
        calls = []
        for i, rule in enumerate(rules):
            algs = [a for a in algs_for(rule, e, cbc=False)]
            if limit and math.comb(e.m, e.k) > 300:
                algs = [a for a in algs if a not in ("brute-force", "branch-and-bound", "mip-cbc")]
            alg = algs[(rng_seed + i) % len(algs)]
            r = rule in sut.RESOLUTE_ONLY or not res
            c = sut.call(rule, prof, e.k, alg, r)
            c["name"] = rule
            calls.append(c)
        return [{"id": rid, "kind": "across", **e.rec(), "name": "all", "swaps": swaps, "calls": calls}]

    rng = ctx.rng()
    for tag, count, wm, kw in (("s", 130, ALLW, dict(mmax=6, nmax=8, kmax=4)), ("1", 90, ALLW, dict(mmax=6, nmax=8, kmax=1)),
                               ("a", 40, ALLW, dict(mmax=5, nmax=7, kmin=9)), ("u", 90, ("unit",), dict(mmax=6, nmax=8, kmax=4))):
        gen = el.stream(rng, wm, **kw)
        for idx, e in enumerate(itertools.islice(gen, count * ctx.scale)):
            rules = [r for r in SMALLSET if e.unit or r not in sut.UNIT_ONLY]
            if copies(e) <= 5 and e.m <= 5 and e.k <= 3:
                rules.append("leximaxphragmen")
            seed = rng.randrange(1000)
            if math.comb(e.m, e.k) <= 40 and ctx.mine(idx):
                yield lambda e=e, rules=rules, seed=seed, idx=idx, tag=tag: thunk(f"{tag}{idx}", e, rules, seed, True, True, False)
    # larger elections: one winning committee of every rule, no enumeration
    for idx in range(60 * ctx.scale):
        m, n = rng.randint(9, 16), rng.randint(8, 30)
        A = el.iid(rng, m, n, rng.choice([0.1, 0.2, 0.3, 0.5]))
        wm = rng.choice(ALLW)
        e = el.El(m, A, el.weights(rng, n, wm), rng.randint(3, 6), "larger/" + wm)
        seed = rng.randrange(1000)
        if ctx.mine(idx):
            yield lambda e=e, seed=seed, idx=idx: thunk(f"l{idx}", e, FASTSET, seed, False, True, True)


# ------------------------------------------------------------------------ C37
STRICT = ["av", "pav", "slav", "geom2", "geom3/2", "lexcc", "lexminimaxav"]
STEPS = ["seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom3/2", "seqphragmen", "maximin-support", "equal-shares", "equal-shares-without-completion",
         "phragmen-enestroem", "consensus-rule"]
MORE = {"approval": STRICT + STEPS + ["cc", "minimaxphragmen", "leximaxphragmen", "minimaxav", "monroe", "greedy-monroe", "equal-shares-with-av-completion"],
        "voter": [r for r in STRICT if r != "lexminimaxav"] + ["seqpav", "seqslav", "seqcc", "seqgeom2", "seqphragmen", "maximin-support", "cc", "minimaxphragmen",
                                                              "leximaxphragmen", "minimaxav"]}
DROP = [r for r in STRICT if r != "lexminimaxav"] + STEPS + ["cc", "minimaxphragmen", "leximaxphragmen", "monroe", "greedy-monroe"]


def C37(ctx):
    def both(rule, e, x, algs, calls, prof=None):
        prof = prof or sut.profile(x)
        return {**asel(prof, x.k).rec(), "calls": [sut.call(rule, prof, x.k, c["alg"], c["res"]) for c in calls]}

    def first(rule, e, algs, irres):
        prof = sut.profile(e)
        calls = [sut.call(rule, prof, e.k, a, False) for a in algs if irres and rule not in sut.RESOLUTE_ONLY]
        if rule in STRICT + STEPS + ["greedy-monroe"]:
            calls += [sut.call(rule, prof, e.k, a, True) for a in algs]
        return prof, {**asel(prof, e.k).rec(), "calls": calls}

    def promote(rid, e, rule, rel, algs, irres, pick):
        import random
        rng = random.Random(pick)
        prof, a = first(rule, e, algs, irres)
        wins = sorted({c for call in a["calls"] for S in call["out"] for c in S})
        some = [c for c in wins if not all(c in S for call in a["calls"] for S in call["out"])]
        if not wins:
            wins = [0]
        c = rng.choice(some if some and rng.random() < 0.6 else wins)
        if rel == "voter":
            j = rng.choice([1, 1, 2])
            x = e.with_(A=e.A + [[c]] * j, w=e.w + ([F(1)] * j if rule == "leximaxphragmen" or e.unit else
                                                   el.weights(rng, j, "int3" if "ortools-cp" in algs else "frac")))
        else:
            vs = [v for v in range(len(e.A)) if c not in e.A[v]]
            if not vs:
                return []
            vs = rng.sample(vs, min(len(vs), rng.choice([1, 1, 1, 2])))
            x = e.with_(A=[sorted({*b, c}) if v in vs else b for v, b in enumerate(e.A)])
        if rule in ("leximaxphragmen", "minimaxphragmen") and not bounded(rule, x):
            return []
        if rel == "approval" and pick % 2:            # the same profile object is changed in place
            for v in vs:
                prof[v] = sut.Voter(x.A[v], weight=sut.pyweight(x.w[v]))
        else:
            prof = None
        return [{"id": rid, "kind": "promote", "name": rule, "rel": rel, "c": c, "a": a, "b": both(rule, e, x, algs, a["calls"], prof), "calls": [0] * len(a["calls"])}]

    def drop(rid, e, rule, algs, irres, pick):
        import random
        rng = random.Random(pick)
        _, a = first(rule, e, algs, irres)
        wins = {c for call in a["calls"] for S in call["out"] for c in S}
        losers = [c for c in range(e.m) if c not in wins]
        if not losers:
            return []
        gone = set(rng.sample(losers, rng.choice([1, len(losers), rng.randint(1, len(losers))]))[:e.m - e.k])
        p = [c for c in range(e.m) if c not in gone]
        x = e.with_(m=len(p), A=[[p.index(c) for c in b if c in p] for b in e.A])
        if rule in STRICT and not all(c["res"] is False for c in a["calls"]):
            a["calls"] = [c for c in a["calls"] if not c["res"]] if rule != "av" else a["calls"]
        if not a["calls"]:
            return []
        return [{"id": rid, "kind": "drop", "name": rule, "p": p, "a": a, "b": both(rule, e, x, algs, a["calls"]), "calls": [0] * len(a["calls"])}]

    sizes = (("s", 1.0, dict(mmax=7), True), ("b", 0.2, dict(mmin=9, families=["manycand", "midlarge"], kmax=5), False), ("v", 0.1, dict(families=["crowd"]), False))
    for tag, part, kw, irres in sizes:
        for rel, count in (("approval", 1200), ("voter", 700), ("drop", 900)):
            rules = DROP if rel == "drop" else MORE[rel]
            if not irres:
                rules = [r for r in rules if r in STEPS + ["greedy-monroe", "av", "pav"]]
            for idx, e, rule, rng in elect(ctx, rules, ALLW, int(count * part), **kw):
                algs = algs_for(rule, e, cbc=False)
                if not irres:
                    algs = [a for a in algs if a not in ("brute-force", "branch-and-bound")]
                    if rule == "pav" and rel == "drop":
                        continue
                pick = rng.randrange(10 ** 6)
                if ctx.mine(idx):
                    if rel == "drop":
                        yield lambda e=e, rule=rule, idx=idx, algs=algs, pick=pick, tag=tag, irres=irres: drop(f"{tag}d{idx}", e, rule, algs, irres, pick)
                    else:
                        yield lambda e=e, rule=rule, idx=idx, rel=rel, algs=algs, pick=pick, tag=tag, irres=irres: promote(f"{tag}{rel[0]}{idx}", e, rule, rel, algs, irres, pick)
