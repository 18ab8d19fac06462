"""Plans for C01-C14: elections and calls whose recorded results the specification judges."""
import itertools
import math

import elections as el
import sut

ALLW = ("unit", "int", "frac", "unit", "tiny", "samefrac", "big", "avg1", "oneoff")
UNIT = ("unit",)
FEW = ("heavy", "heavy", "big", "oneoff", "frac")
LATE = ("big", "frac", "tiny", "int")        # weights that leave few ties


def limits_for(rng):
    return [rng.choice([1, 2, 3, 5])]


def mixed(ctx, exh, streams, rules, exh_limits=()):
    """exh: iterable of elections for all rules; streams: (rules, wmodes, count, kwargs)"""
    for e in exh:
        for r in rules:
            yield e, r, exh_limits
    for rs, wm, count, kw in streams:
        rng = ctx.rng()
        gen = el.stream(rng, wm, **kw)
        for e in itertools.islice(gen, count * ctx.scale):
            r = rng.choice(rs)
            yield e, r, (limits_for(rng) if rng.random() < 0.5 else ())


def big(e):
    """large elections, and long ones with many ties: only the resolute universe is explored"""
    if e.fam.startswith("long"):
        return len({tuple(i for i, a in enumerate(e.A) if c in a) for c in range(e.m)}) < e.m
    return e.fam.startswith("large") or e.fam.startswith("wide") and math.comb(e.m, e.k) > 3000


EXACT = ("standard", "standard-fractions", "gmpy2-fractions", "brute-force")


def usable(algs, e):
    """weights of very different size: exact arithmetic only"""
    return [a for a in algs if a in EXACT] if e.fam.endswith("extreme") else algs


def emit(ctx, items, algs=None, names=True, res=(True, False)):
    for idx, (e, r, lim) in enumerate(items):
        if not ctx.mine(idx):
            continue
        one = big(e) or e.fam.startswith("wide") and r.startswith("revseq")
        yield lambda e=e, r=r, lim=lim, idx=idx, one=one: [sut.rule_record(
            f"{idx}", e, r, algs=usable(algs(r, e) if algs else sut.algorithms(r), e), limits=() if one else lim, res=(True,) if one else res, asfrac=(idx % 5 == 4))]


def exh(ctx, small=True):
    if ctx.thorough:
        return list(el.exhaustive_upto([1, 2, 3], [1, 2, 3])) + list(el.exhaustive(4, 2))
    if small:
        return list(el.exhaustive_upto([1, 2], [1, 2])) + list(el.exhaustive_upto([3], [1, 2]))
    return list(el.exhaustive_upto([1, 2, 3], [1, 2, 3]))


def cheap(r, e):
    """leave slow solvers out of most runs"""
    return sut.algorithms(r)


def C01(ctx):
    rules = ["pav", "slav", "cc", "geom2"]
    def algs(r, e):
        a = sut.algorithms(r)
        if math.comb(e.m, e.k) > 60:
            a = [x for x in a if x != "mip-cbc"]
        return a
    ex = exh(ctx)
    items = mixed(ctx, ex if ctx.thorough else ex[::3], [
        (rules + ["geom3/2", "geom5", "geom1.1"], ALLW, 700, dict(mmax=6)),
        (["pav", "cc", "slav", "geom2"], UNIT, 150, dict(mmax=11, kmax=4)),
        (["pav", "cc", "slav", "geom2", "geom3/2"], ALLW, 250, dict(kmin=4, families=["deep"])),
        (rules, FEW, 100, dict(families=["few"], kmax=2)),
        (rules, ALLW, 16, dict(families=["crowd"])),
        (["pav", "cc", "slav", "geom2"], ALLW, 10, dict(kmax=2, mmax=45, families=["wide"])),
        (rules, ("extreme",), 100, dict(mmax=7)),
        (rules, ALLW, 40, dict(kmin=3, kmax=5, families=["midlarge"])),
        (rules, ALLW, 40, dict(kmax=3, families=["manyvoters"])),
    ], rules)
    return emit(ctx, items, algs)


def C02(ctx):
    return emit(ctx, mixed(ctx, exh(ctx), [(["lexcc"], ALLW, 1000, dict(mmax=7, kmax=4)),
        (["lexcc"], ALLW, 350, dict(kmin=5, families=["deep"])),
        (["lexcc"], FEW, 80, dict(families=["few"], kmax=2)),
        (["lexcc"], ALLW, 12, dict(families=["crowd"])),
        (["lexcc"], ALLW, 6, dict(kmax=2, mmax=45, families=["wide"])),
        (["lexcc"], ("extreme",), 60, dict(mmax=7)),
        (["lexcc"], ALLW, 30, dict(kmin=3, kmax=5, families=["midlarge"])),
        (["lexcc"], ALLW, 40, dict(kmax=3, families=["manyvoters"]))], ["lexcc"]))


def C03(ctx):
    rules = ["seqpav", "seqslav", "seqcc", "seqgeom2"]
    return emit(ctx, mixed(ctx, exh(ctx, False)[::2], [
        (rules + ["seqgeom3/2", "seqgeom1.1"], ALLW, 2500, dict(kmax=6, mmax=8)),
        (rules, FEW, 200, dict(families=["few"], kmax=2)),
        (rules, ALLW, 24, dict(families=["crowd"])),
        (rules, ALLW, 24, dict(kmin=3, kmax=9, families=["wide"])),
        (rules, ("extreme",), 200, dict(mmax=7)),
        (rules, ALLW, 300, dict(mmin=9, kmax=4, families=["manycand"])),
        (rules, LATE, 250, dict(kmin=6, families=["long"])), (rules, LATE, 150, dict(kmin=4, kmax=12, families=["large"]))], rules))


def C04(ctx):
    rules = ["revseqpav"]
    more = ["revseqpav", "revseqpav", "revseqslav", "revseqgeom2", "revseqcc"]
    return emit(ctx, mixed(ctx, exh(ctx, False), [
        (more, ALLW, 2200, dict(mmax=7)),
        (more, FEW, 200, dict(families=["few"], kmax=2)),
        (more, ALLW, 24, dict(families=["crowd"])),
        (more, ALLW, 24, dict(kmin=3, kmax=9, families=["wide"])),
        (more, ("extreme",), 200, dict(mmax=7)),
        (more, ALLW, 400, dict(mmin=9, families=["manycand"])),
        (more, LATE, 200, dict(families=["long"])), (more, LATE, 100, dict(kmin=4, kmax=14, families=["large"]))], rules))


def C05(ctx):
    rules = ["av", "sav"]
    return emit(ctx, mixed(ctx, exh(ctx, False), [
        (rules, ALLW, 3000, dict(mmax=8)),
        (rules, FEW, 200, dict(families=["few"], kmax=2)),
        (rules, ALLW, 30, dict(families=["crowd"])),
        (rules, ALLW, 30, dict(kmax=2, mmax=45, families=["wide"])),
        (["av"], ("extreme",), 150, dict(mmax=7)),
        (rules, ALLW, 600, dict(mmin=9, families=["manycand"])),
        (rules, LATE, 200, dict(families=["long"])), (rules, LATE, 60, dict(families=["large"], kmax=3)),
        (["sav"], ALLW, 1500, dict(families=["blocks", "cyclic", "types"]))], rules))


def C06(ctx):
    rules = ["seqphragmen"]
    return emit(ctx, mixed(ctx, exh(ctx, False), [
        (rules, ALLW, 2200, dict(mmax=7)),
        (rules, FEW, 200, dict(families=["few"], kmax=2)),
        (rules, ALLW, 24, dict(families=["crowd"])),
        (rules, ALLW, 24, dict(kmin=3, kmax=9, families=["wide"])),
        (rules, ("extreme",), 200, dict(mmax=7)),
        (rules, ALLW, 400, dict(mmin=9, kmax=5, families=["manycand"])),
        (rules, LATE, 250, dict(kmin=5, families=["long"])), (rules, LATE, 150, dict(kmin=4, kmax=12, families=["large"]))], rules))


def C07(ctx):
    def algs(r, e):
        a = sut.algorithms(r)
        return [x for x in a if x != "mip-cbc"]
    ex = exh(ctx)
    def small(items):                      # the leximax model is exponential in the number of copies of voters
        for e, r, lim in items:
            if r == "leximaxphragmen":
                x = math.lcm(*(y.denominator for y in e.w))
                ints = [int(y * x) for y in e.w]
                if sum(ints) // math.gcd(*ints) > (7 if ctx.thorough else 5):
                    continue
            yield e, r, lim
    def lex(items):                        # resolute computations with lexicographic_tiebreaking=True
        for thunk in items:
            def more(thunk=thunk):
                recs = thunk()
                for r in recs:
                    if r["name"] == "leximaxphragmen" and int(r["id"]) % 2 == 0:
                        prof = sut.profile(el.El(r["m"], r["A"], r["w"], r["k"]))
                        for res in [True] + [False] * (int(r["id"]) % 4 == 0):
                            c = sut.call(r["name"], prof, r["k"], "gurobi", res, fct=lambda p, k, **kw: sut.abcrules.compute_leximaxphragmen(
                                p, k, lexicographic_tiebreaking=True, **kw))
                            r["calls"].append({**c, "lex": True})
                return recs
            yield more
    yield from lex(emit(ctx, small(mixed(ctx, ex, [
        (["minimaxphragmen", "leximaxphragmen"], UNIT, 350, dict(mmax=5, nmax=5, kmax=4)),
        (["minimaxphragmen"], ALLW, 350, dict(mmax=6, nmax=9, kmax=4)),
        (["minimaxphragmen"], FEW, 60, dict(families=["few"], kmax=2)),
        (["minimaxphragmen"], ALLW, 8, dict(mmax=4, families=["crowd"])),
        (["minimaxphragmen"], ALLW, 6, dict(kmax=1, mmax=45, families=["wide"])),
        (["minimaxphragmen"], ALLW, 100, dict(kmin=4, families=["deep"])),
        (["minimaxphragmen"], ALLW, 40, dict(kmin=2, families=["manyvoters", "types"])),
        (["leximaxphragmen"], ("int3", "unit"), 200, dict(mmax=5, nmax=4, kmax=3)),
    ], ["minimaxphragmen", "leximaxphragmen"])), algs))
    yield from emit(ctx, mixed(ctx, [], [
        (["minimaxphragmen"], UNIT, 60, dict(mmax=4, nmax=5, kmax=3)),
        (["minimaxphragmen"], FEW, 40, dict(mmax=4, nmax=3, families=["few"], kmax=2))], []), lambda r, e: ["mip-cbc"])


def C08(ctx):
    def algs(r, e):
        a = sut.algorithms(r)
        return [x for x in a if x != "mip-cbc"]
    yield from emit(ctx, mixed(ctx, exh(ctx), [
        (["maximin-support"], ALLW, 700, dict(mmax=6, kmax=5)),
        (["maximin-support"], ALLW, 40, dict(kmin=2, kmax=4, families=["manyvoters", "types"])),
        (["maximin-support"], FEW, 80, dict(families=["few"], kmax=2)),
        (["maximin-support"], ALLW, 8, dict(mmax=4, families=["crowd"])),
        (["maximin-support"], ALLW, 5, dict(kmax=2, mmax=45, families=["wide"])),
        (["maximin-support"], ALLW, 80, dict(kmin=4, mmax=7, families=["deep"]))], ["maximin-support"]), algs)
    yield from emit(ctx, mixed(ctx, [], [
        (["maximin-support"], ALLW, 60, dict(mmax=5, kmax=3)),
        (["maximin-support"], FEW, 60, dict(mmax=4, families=["few"], kmax=2))], []), lambda r, e: ["mip-cbc"])


def C09(ctx):
    def algs(r, e):
        a = sut.algorithms(r)
        if math.comb(e.m, e.k) > 25:
            a = [x for x in a if x != "mip-cbc"]
        return a
    ex = exh(ctx)
    return emit(ctx, mixed(ctx, ex, [
        (["monroe"], UNIT, 350, dict(mmax=6, nmax=9, kmax=4)),
        (["monroe"], UNIT, 8, dict(mmax=4, families=["crowd"])),
        (["monroe", "greedy-monroe"], UNIT, 12, dict(kmax=2, mmax=45, families=["wide"])),
        (["greedy-monroe"], UNIT, 40, dict(families=["crowd"])),
        (["monroe"], UNIT, 80, dict(kmin=4, mmax=7, families=["deep"])),
        (["monroe"], UNIT, 60, dict(kmin=2, families=["manyvoters", "types"])),
        (["greedy-monroe"], UNIT, 200, dict(kmin=4, kmax=9, families=["large", "midlarge"])),
        (["greedy-monroe"], UNIT, 2200, dict(mmax=9)),
    ], ["monroe", "greedy-monroe"]), algs)


def C10(ctx):
    def algs(r, e):
        a = sut.algorithms(r)
        if math.comb(e.m, e.k) > 25:
            a = [x for x in a if x != "mip-cbc"]
        return a
    return emit(ctx, mixed(ctx, exh(ctx), [
        (["minimaxav"], ("unit", "int", "unit", "frac"), 400, dict(mmax=6, nmax=9, kmax=4)),
        (["lexminimaxav"], UNIT, 400, dict(mmax=6, nmax=9, kmax=4)),
        (["minimaxav"], FEW, 60, dict(families=["few"], kmax=2)),
        (["minimaxav", "lexminimaxav"], UNIT, 10, dict(mmax=4, families=["crowd"])),
        (["minimaxav", "lexminimaxav"], UNIT, 6, dict(kmax=2, mmax=45, families=["wide"])),
        (["lexminimaxav", "minimaxav"], UNIT, 100, dict(kmin=4, mmax=7, families=["deep"])),
        (["lexminimaxav", "minimaxav"], UNIT, 60, dict(families=["manyvoters", "types"])),
        (["minimaxav", "lexminimaxav"], UNIT, 24, dict(kmin=3, kmax=5, families=["midlarge"])),
    ], ["minimaxav", "lexminimaxav"]), algs)


def C11(ctx):
    rules = ["equal-shares-without-completion"]
    return emit(ctx, mixed(ctx, exh(ctx, False), [
        (rules, ALLW, 2500, dict(mmax=8)),
        (rules, FEW, 200, dict(families=["few"], kmax=2)),
        (rules, ALLW, 24, dict(families=["crowd"])),
        (rules, ALLW, 24, dict(kmin=3, kmax=9, families=["wide"])),
        (rules, ("extreme",), 200, dict(mmax=7)),
        (rules, ALLW, 300, dict(mmin=9, kmax=5, families=["manycand"])),
        (rules, ALLW, 300, dict(families=["manyvoters", "types", "party"])),
        (rules, LATE, 250, dict(kmin=5, families=["long"])), (rules, LATE, 150, dict(kmin=4, kmax=12, families=["large"]))], rules))


def C12(ctx):
    rules = ["equal-shares", "equal-shares-with-av-completion", "equal-shares-with-increment-completion"]
    return emit(ctx, mixed(ctx, exh(ctx, False)[::2], [
        (rules, ALLW, 2400, dict(mmax=7)),
        (rules, FEW, 200, dict(families=["few"], kmax=2)),
        (rules[:2], ALLW, 24, dict(families=["crowd"])),
        (rules[:1], ALLW, 16, dict(kmin=3, kmax=9, families=["wide"])),
        (rules[:2], ("extreme",), 200, dict(mmax=7)),
        (rules[:2], ALLW, 200, dict(mmin=9, kmax=4, families=["manycand"])),
        (rules[::2], LATE, 150, dict(kmin=5, families=["long"])), (rules[::2], LATE, 100, dict(kmin=4, kmax=10, families=["large"]))], rules))


def C13(ctx):
    rules = ["phragmen-enestroem", "consensus-rule"]
    return emit(ctx, mixed(ctx, exh(ctx, False)[::2], [
        (rules, ALLW, 2400, dict(mmax=7)),
        (rules, FEW, 200, dict(families=["few"], kmax=2)),
        (rules, ALLW, 24, dict(families=["crowd"])),
        (rules, ALLW, 24, dict(kmin=3, kmax=9, families=["wide"])),
        (rules, ("extreme",), 200, dict(mmax=7)),
        (rules, ALLW, 300, dict(mmin=9, kmax=4, families=["manycand"])),
        (rules, LATE, 250, dict(kmin=5, families=["long"])), (rules, LATE, 150, dict(kmin=4, kmax=12, families=["large"]))], rules))


def C14(ctx):
    def algs(r, e):
        return sut.algorithms(r)
    yield from emit(ctx, mixed(ctx, exh(ctx, False), [
        (["eph"], ALLW, 2500, dict(mmax=8)),
        (["eph"], ALLW, 800, dict(families=["blocks", "cyclic", "types", "manycand"])),
        (["eph"], LATE, 200, dict(families=["long"])), (["eph"], LATE, 60, dict(families=["large"], kmax=3)),
        (["eph"], FEW, 200, dict(families=["few"], kmax=2)),
        (["eph"], ALLW, 24, dict(families=["crowd"])),
        (["eph"], ALLW, 24, dict(kmax=2, mmax=45, families=["wide"])),
        (["eph"], ("extreme",), 200, dict(mmax=7)),
        (["trivial"], ALLW, 200, dict(mmax=8)),
        (["rsd"], UNIT, 1500, dict(mmax=7, nmax=7))], ["eph", "trivial", "rsd"]), algs)
