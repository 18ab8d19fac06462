"""Plan for C27: candidate sets and committee helpers."""
import numpy as np

import elections as el
import sut
from elections import rat

M = sut.misc
CS = sut.CandidateSet
NAMES = [["b", "a", "d", "c", "x", "y", "z", "w", "v", "u", "t", "s", "r"],
         ["10", "9", "2", "1", "0", "11", "12", "3", "4", "5", "6", "7", "8"],
         ["aa", "a", "a b", "Z", "A", "B", "b", "ab", "0", "1", "z", "zz", "Zz"],
         ["e", "e", "f", "e", "d", "d", "e", "f", "g", "h", "e", "f", "d"],
         "nmlkjihgfedcba"]


def txt(s):
    return str(s).replace("\n", "~")


def run(c, f, post=lambda x: x):
    c = {"cls": "", "val": "", "alg": c["fn"], **c}
    try:
        c["val"] = post(f())
    except Exception as e:
        c["cls"], c["msg"] = sut.errclass(e), sut.errtext(e).replace("|", "/")
        if not c["cls"]:
            c["cls"] = "Exception"
    return c


def sets(rng, m, k=None):
    return sorted(rng.sample(range(m), rng.randint(0, min(m, 5)) if k is None else k))


def element(rng, m):
    r = rng.random()
    if r < 0.80:
        v = rng.randrange(m)
        return {"t": "int", "v": v}, v
    if r < 0.88:
        v = rng.randrange(m)
        return {"t": "int", "v": v}, rng.choice([np.int64, np.int32, np.uint8])(v)
    if r < 0.91:
        v = rng.choice([-1, -3])
        return {"t": "int", "v": v}, v
    if r < 0.94:
        v = m + rng.randint(0, 2)
        return {"t": "int", "v": v}, v
    return {"t": "other", "v": 0}, rng.choice(["a", "1", 1.5, None, (1,), 2.0, frozenset({1}), [1]])


def candset(rng):
    m = rng.choice([3, 5, 12])
    es = [element(rng, m) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    ints = [x[0]["v"] for x in es if x[0]["t"] == "int"]
    if len(set(ints)) < len(ints) and rng.random() < 0.7:      # mostly without duplicates
        seen = set()
        es = [x for x in es if x[0]["t"] != "int" or not (x[0]["v"] in seen or seen.add(x[0]["v"]))]
    bound = rng.choice([-1, m, m])
    coll = rng.choice([list, tuple, list, set])
    raw = [x[1] for x in es]
    elems = [x[0] for x in es]
    if coll is set:
        try:
            if len(set(raw)) < len(raw):
                coll = list
            raw = list(set(raw)) if coll is set else raw
        except TypeError:
            coll = list
    arg = coll(raw)
    kw = {} if bound < 0 else {"num_cand": bound}
    if rng.random() < 0.7:
        return run({"fn": "CandidateSet", "elems": elems, "bound": bound}, lambda: CS(arg, **kw), lambda x: sorted(int(y) for y in x))
    return run({"fn": "Voter", "elems": elems, "bound": bound}, lambda: sut.Voter(arg, **kw).approved, lambda x: sorted(int(y) for y in x))


def formats(rng):
    m = rng.choice([4, 12, 12, 13])
    names = rng.choice([None] + NAMES)
    nm = [] if names is None else list(names)[:m]
    S = sets(rng, m)
    raw = rng.choice([list, tuple, set, CS])(rng.sample(S, len(S)))
    fn = rng.choice(["str", "str_set_of_candidates", "str_with_names", "Voter.str_with_names", "Voter.str", "str_sets_of_candidates",
                     "str_committees_with_header", "str_committees_with_header"])
    if fn in ("str", "Voter.str"):
        nm = []
        f = {"str": lambda: str(CS(S)), "Voter.str": lambda: str(sut.Voter(S))}[fn]
        return run({"fn": fn, "set": S, "names": nm}, f, txt)
    if fn in ("str_set_of_candidates", "str_with_names", "Voter.str_with_names"):
        f = {"str_set_of_candidates": lambda: M.str_set_of_candidates(raw, names), "str_with_names": lambda: CS(S).str_with_names(names),
             "Voter.str_with_names": lambda: sut.Voter(S).str_with_names(names)}[fn]
        return run({"fn": fn, "set": S, "names": nm}, f, txt)
    many = [sets(rng, m) for _ in range(rng.choice([1, 1, 2, 3] if fn == "str_sets_of_candidates" else [0, 1, 2, 3, 11]))]
    rawm = [CS(x) for x in many]
    if fn == "str_sets_of_candidates":
        return run({"fn": fn, "sets": many, "names": nm}, lambda: M.str_sets_of_candidates(rawm, cand_names=names), txt)
    win = rng.random() < 0.5
    arg = None if not many and rng.random() < 0.5 else rawm
    return run({"fn": fn, "sets": many, "names": nm, "win": win},
               lambda: M.str_committees_with_header(arg, cand_names=names, winning=win), txt)


def lists(rng):
    m = rng.choice([3, 4, 12])
    k = rng.randint(1, min(m, 3))
    a = [sets(rng, m, k) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    b = list(a) if rng.random() < 0.6 else [sets(rng, m, k) for _ in range(rng.choice([0, 1, 2, 3]))]
    if b and rng.random() < 0.3:
        b.append(rng.choice(b))
    if rng.random() < 0.25:
        b = b[:-1]
    rng.shuffle(b)
    fn = rng.choice(["sorted_committees", "sorted_committees", "compare", "verify", "compare", "verify"])
    if fn == "sorted_committees":
        m = rng.choice([4, 12, 13])
        a = [sets(rng, m) for _ in range(rng.randint(0, 7))]
        raw = [rng.choice([list, tuple, set, CS, frozenset])(x) for x in a]
        raw = rng.choice([list, tuple, iter])(raw)
        return run({"fn": fn, "sets": a}, lambda: M.sorted_committees(raw),
                   lambda r: [sorted(x) if isinstance(x, CS) else [-1] for x in r] if isinstance(r, list) else [[-2]])
    bad = fn == "compare" and bool(a + b) and rng.random() < 0.15
    ra, rb = [CS(x) for x in a], [rng.choice([CS, set])(x) for x in b]
    if bad:
        side = ra if a and (not b or rng.random() < 0.5) else rb
        i = rng.randrange(len(side))
        side[i] = rng.choice([list, tuple])(side[i])
    if fn == "compare":
        return run({"fn": fn, "sets": a, "sets2": b, "badtype": bad}, lambda: M.compare_list_of_committees(ra, rb), bool)
    res = rng.random() < 0.5
    return run({"fn": fn, "sets": a, "sets2": b, "res": res},
               lambda: M.verify_expected_committees_equals_actual_committees(ra, rb, resolute=res), lambda x: "")


def others(rng):
    r = rng.random()
    if r < 0.15:
        t = rng.choice(["Title", "x", "A longer header text", "1 2 3", "PAV"])
        s = rng.choice(["-", "=", "#", "*"])
        if s == "-" and rng.random() < 0.5:
            return run({"fn": "header", "text": t, "sym": "-"}, lambda: M.header(t), txt)
        return run({"fn": "header", "text": t, "sym": s}, lambda: M.header(t, s), txt)
    if r < 0.4:
        m = rng.choice([4, 12])
        a, b = sets(rng, m), sets(rng, m)
        return run({"fn": "hamming", "set": a, "set2": b}, lambda: M.hamming(set(a), rng.choice([set, list, CS])(b)))
    if r < 0.55:
        n, k = rng.randint(0, 40), rng.randint(0, 20)
        return run({"fn": "binom", "n": n, "k": k}, lambda: M.binom(n, k), rat)
    if r < 0.8:
        s = sets(rng, 12)
        mx = rng.choice([-1, -1, 0, 1, 2, 3, len(s)])
        mx = min(mx, len(s)) if rng.random() < 0.8 else mx
        raw = rng.choice([list, tuple, set])(s)
        return run({"fn": "powerset", "set": s, "max": mx}, lambda: M.powerset(raw) if mx < 0 else M.powerset(raw, max_size=mx),
                   lambda r: [list(x) for x in r])
    m = rng.choice([3, 4, 5])
    A = [sets(rng, m) for _ in range(rng.randint(0, 4))]
    p = sut.Profile(m)
    for a in A:
        p.add_voter(sut.Voter(a, weight=rng.choice([1, 1, 2, 5])))
    a = sets(rng, m)
    b = sets(rng, m, len(a)) if rng.random() < 0.8 else sets(rng, m)
    return run({"fn": "dominate", "A": A, "set": a, "set2": b},
               lambda: M.dominate(p, rng.choice([list, CS, tuple])(a), rng.choice([set, CS])(b)), bool)


def results(rng, e):
    """compute(..., result=...)"""
    rule = rng.choice(["av", "pav", "seqpav", "sav", "seqphragmen", "cc"])
    kw = {"algorithm": "brute-force"} if rule in ("pav", "cc") else {}
    prof = sut.profile(e)
    res = {"av": False, "sav": False, "pav": False, "cc": False}.get(rule, True)
    if rng.random() < 0.6:
        res = rng.random() < 0.5
        kw["resolute"] = res
    actual = sut.committees(sut.abcrules.compute(rule, prof, e.k, **kw))
    exp = [list(x) for x in actual]
    r = rng.random()
    if r < 0.25:
        exp.append(sorted(rng.sample(range(e.m), e.k)))
    elif r < 0.45 and len(exp) > 1:
        exp.pop()
    elif r < 0.6:
        exp = [sorted(rng.sample(range(e.m), e.k))]
    rng.shuffle(exp)
    return run({"fn": "compute-result", "sets": actual, "sets2": exp, "res": res},
               lambda: sut.abcrules.compute(rule, prof, e.k, result=[CS(x) for x in exp], **kw), lambda x: "")


def C27(ctx):
    import random

    def thunk(no, seed):
        rng = random.Random(seed)
        calls = []
        for _ in range(6):
            calls += [candset(rng), candset(rng), formats(rng), formats(rng), lists(rng), lists(rng), others(rng)]
        g = el.stream(rng, ("unit", "int"), mmax=6, nmax=6)
        calls += [results(rng, next(g)) for _ in range(2)]
        return [{"id": f"{no}", "kind": "helpers", "calls": calls}]
    base = ctx.rng().random()
    for no in range(350 * ctx.scale):
        if ctx.mine(no):
            yield lambda no=no: thunk(no, f"{base}/{no}")
