"""Plan for C31: records what is printed at detail level, parsed into steps; the specification judges them."""
import contextlib
import io
import itertools
import re
from fractions import Fraction as F

import elections as el
import plans_axioms as pa
import sut

ALLW = ("unit", "unit", "int", "frac", "tiny", "unit", "avg1", "oneoff")
NUM = r"(-?[\d./e+-]*\d)"


class Unreadable(Exception):
    pass


def num(t):
    try:
        return {"q": el.rat(F(t)), "x": not re.search(r"[.e]", t)}
    except (ValueError, ZeroDivisionError):
        raise Unreadable(f"number {t}")


def nums(t):
    return [num(x) for x in t.split(", ")] if t.strip() else []


def find(pattern, text, default=None):
    f = re.search(pattern, text)
    if not f:
        if default is not None:
            return default
        raise Unreadable(pattern)
    return f.group(1)


class Names:
    def __init__(self, names):
        self.names = list(names)

    def one(self, t):
        if t not in self.names:
            return -1
        return self.names.index(t)

    def set(self, t):
        return [self.one(x) for x in t.split(", ")] if t.strip() else []


def printed(fct):
    """what fct prints at detail level, with line breaks and indentation removed"""
    buf = io.StringIO()
    old = sut.output.verbosity
    sut.output.set_verbosity(sut.outmod.DETAILS)
    try:
        with contextlib.redirect_stdout(buf):
            r = fct()
    finally:
        sut.output.set_verbosity(old)
    return r, buf.getvalue(), " ".join(buf.getvalue().split())


SET = r"\{([^}]*)\}"
STEP = r"(?:adding|removing) candidate number (\d+): (\S+)"


def ties(chunk, N):
    """what is said about a tie: the preferred candidate and the tied candidates"""
    f = re.search(r"tie broken (?:in favor|to the disadvantage) of (\S+),", chunk)
    g = re.search(r"candidates " + SET + r" ?are tied", chunk)
    if bool(f) != bool(g):
        raise Unreadable("tie")
    same = re.search(r"(?:by the same amount|the same maximin support value|new maximum load =|new maximum load would be|impose a maximum cost of) " + NUM, chunk)
    return {"tie": bool(f), "favour": N.one(f.group(1)) if f else -1, "tied": N.set(g.group(1)) if g else [],
            "same": num(same.group(1)) if same else {"q": "0/1", "x": False}}


def steps(text, N, value, total=None, loads=None):
    """the chunks between 'adding candidate number' headings"""
    out = []
    heads = list(re.finditer(STEP, text))
    for i, h in enumerate(heads):
        chunk = text[h.end():heads[i + 1].start() if i + 1 < len(heads) else len(text)]
        out.append({"no": int(h.group(1)), "cand": N.one(h.group(2)), "value": num(find(value, chunk)),
                    "total": num(find(total, chunk)) if total else {"q": "0/1", "x": True},
                    "loads": nums(find(loads + r" \(([^)]*)\)", chunk)) if loads else [], **ties(chunk, N)})
    return out


def listed(raw, N):
    """the committees listed under 'n winning committee(s):'"""
    f = re.search(r"^(No|\d+) (?:winning )?committees?(?: \(ties\))?[:.]?\s*$(.*)", raw, re.M | re.S)
    if not f:
        return None
    text = f.group(2)
    coms = []
    for line in text.split("\n"):
        g = re.match(r"^ " + SET + r"$", line)
        if g:
            coms.append(sorted(N.set(g.group(1))))
        elif line.strip() and coms:
            break
    return {"count": 0 if f.group(1) == "No" else int(f.group(1)), "coms": coms}


def parse(rule, res, raw, text, N, d):
    """the rule's own part of the explanation"""
    base = sut.RULES[rule]["id"]
    if base == "seqthiele" and res:
        d["start"] = num(find(r"starting with the empty committee \(score = " + NUM + r"\)", text))
        d["steps"] = steps(text, N, r"score increases by " + NUM + r" to", r"to a total of " + NUM)
    if base == "revseqthiele" and res:
        d["start"] = num(find(r"has a total score of " + NUM, text))
        d["steps"] = steps(text, N, r"score decreases by " + NUM + r" to", r"to a total of " + NUM)
    if base == "seqthiele":
        tail = text[text.rindex("score of winning committee(s):"):]
        d["scores"] = [{"com": sorted(N.set(a)), "score": num(b)} for a, b in re.findall(SET + ": " + NUM, tail)]
    if base == "revseqthiele":
        tail = find(r"score of winning committee: ?(.*)$", text)
        d["scores"] = [{"com": [], "score": num(b)} for b in tail.split()]
    if base == "seqphragmen":
        if res:
            d["steps"] = steps(text, N, r"maximum load increased to " + NUM, None, "load distribution:")
        tail = find(r"corresponding load distributions?:(.*)$", text)
        d["pairs"] = [{"com": sorted(N.set(a)), "loads": nums(b)} for a, b in re.findall(SET + r": \(([^)]*)\)", tail)]
    if base == "increment":
        d["virtual"] = int(find(r"committee size of (\d+)", text, "0"))
        d["few"] = "fewer candidates approved" in text
    if base == "mes":
        d["few"] = "fewer candidates approved" in text
        if res and not d["few"]:
            one, _, two = text.partition("Phase 2 (seq-")
            d["startloads"] = nums(find(r"starting budget: \(([^)]*)\)", one))
            d["steps"] = steps(one, N, r"cost per voter q = " + NUM, None, "remaining budget:")
            d["second"] = bool(two)
            if two:
                d["startloads2"] = nums(find(r"starting loads \(= budget spent\): \(([^)]*)\)", two))
                d["steps2"] = steps(two, N, r"maximum load increased to " + NUM, None, "load distribution:")
    if base == "maximin" and res:
        d["steps"] = steps(text, N, r"maximin support value " + NUM)
    if base in ("thiele",):
        d["score"] = num(find(r"Optimal \S+?-\s?score: " + NUM, text))
    if base == "monroe":
        d["score"] = num(find(r"Optimal Monroe score: " + NUM, text))
    if base == "lexcc":
        d["vector"] = [num(x) for x in re.findall(r"at-\s?least-\s?\d+: " + NUM, text)]
    if base in ("minimaxav", "lexminimaxav"):
        d["score"] = num(find(r"Minimum maximal distance: " + NUM, text))
        d["vectors"] = [nums(x) for x in re.findall(r"\[([^\]]*)\]", text)]
    if base in ("av", "sav"):
        d["scores"] = [{"com": [N.one(a)], "score": num(b)} for a, b in
                       re.findall(r"(\S+): " + NUM + r"(?= |$)", find(r"Scores of candidates: (.*?) Candidates are contained", text))]
        d["cutoff"] = num(find(r"if their score is >= " + NUM + r"\.(?: |$)", text))
        d["certain"] = N.set(find(r"every winning committee: (.*?)(?= The following| \d+ winning| \d+ committee|$)", text, " "))
        d["possible"] = N.set(find(r"some of the winning committees: (.*?) \(\d+ of those", text, " "))
        d["missing"] = int(find(r"\((\d+) of those candidates", text, "0"))
    if base == "greedy-monroe":
        d["score"] = num(find(r"has a Monroe score of (\d+)", text))
        d["better"] = num(find(r"Optimal Monroe score of the winning committee is (\d+)", text, "-1"))
        part = find(r"voters marked with \*\):(.*?)(?=\d+ winning|$)", text)
        d["districts"] = [{"cand": N.one(a), "voters": [int(x.rstrip("*")) + 1 for x in b.split(", ") if x.strip()],
                           "marked": [int(x.rstrip("*")) + 1 for x in b.split(", ") if x.endswith("*")]}
                          for a, b in re.findall(r"candidate (\S+) assigned to: ?((?:\d+\*?(?:, )?)*)", part)]


def explain(rid, e, rule, names, asfrac):
    """one record: every algorithm of a rule, resolute and irresolute"""
    rec = {"id": rid, "kind": "explain", **e.rec(), "name": rule, "rule": sut.RULES[rule], "calls": []}
    N = Names(names or [str(c) for c in range(e.m)])
    prof = sut.profile(e, names, asfrac)
    for alg in sut.algorithms(rule):
        if alg == "mip-cbc" and (e.m > 4 or e.k > 3) or alg == "ortools-cp" and (asfrac or any(x.denominator != 1 for x in e.w)):
            continue
        for res in (True, False):
            if not res and rule in sut.RESOLUTE_ONLY:
                continue
            c = {"alg": alg, "res": res, "max": 0, "err": "", "out": [], "exact": "float" not in alg, "unread": ""}
            d = {"listed": {"count": -1, "coms": []}}
            try:
                r, raw, text = printed(lambda: sut.abcrules.compute(rule, prof, e.k, algorithm=alg, resolute=res))
                c["out"] = sut.committees(r)
                d["listed"] = listed(raw, N) or d["listed"]
                parse(rule, res, raw, text, N, d)
            except Unreadable as x:
                c["unread"] = str(x).replace('"', "").replace("\\", "/").replace("|", "/")
            except Exception as x:
                c["err"] = sut.errtext(x)
            c["d"] = d
            rec["calls"].append(c)
    return [rec]


# ------------------------------------------------------------------ witnesses of property checks
def witness(prop, alg, prof, W, q, N):
    c = {"prop": prop, "alg": alg or "default", "err": "", "val": False, "unread": "", "says": "", "saysq": "", "com": [], "d": {}}
    kw = {}
    if q is not None:
        kw["quota"] = q
    if alg:
        kw["algorithm"] = alg
    try:
        r, raw, text = printed(lambda: sut.properties.check(prop, prof, W, **kw))
        c["val"] = bool(r)
        f = re.search(r"Committee " + SET + r" (satisfies|does not satisfy|is not|is) ([^.(]*?)(?: \(for quota = ([^)]*)\))?\.", text)
        if not f:
            raise Unreadable("verdict")
        c["com"] = sorted(int(x) for x in f.group(1).split(", ")) if f.group(1).strip() else []
        c["says"] = "yes" if f.group(2) in ("satisfies", "is") else "no"
        c["about"] = f.group(3)
        c["saysq"] = num(f.group(4))["q"] if f.group(4) else ""
        w = text[f.end():] if prop != "priceability" and prop != "stable-priceability" else text[:f.start()]
        ints = lambda s: [int(x) for x in s.split(", ")] if s.strip() else []
        d = c["d"]
        if prop == "pareto":
            if not r:
                d["set"] = ints(find(r"dominated by the committee " + SET, w))
        elif "priceability" in prop:
            d["table"] = "Budget:" in w
            if d["table"]:
                d["b"] = num(find(r"Budget: " + NUM, w))
                lines = [x for x in raw[:raw.index("Committee ")].split("\n") if x.strip() and "Budget" not in x]
                rows = [x.split(" | ") for x in lines]
                if len(rows) == 1 + len(prof):
                    d["head"] = [int(x) for x in rows[0][1:]]
                    d["voters"] = [int(x[0]) + 1 for x in rows[1:]]
                    d["p"] = [[num(y.strip()) for y in x[1:]] for x in rows[1:]]
                else:                       # wide tables are wrapped
                    cells = [x.strip() for x in re.split(r"[|\s]+", " ".join(lines)) if x.strip()]
                    m = prof.num_cand
                    d["head"] = [int(x) for x in cells[:m]]
                    body = cells[m:]
                    d["voters"] = [int(x) + 1 for x in body[::m + 1]]
                    d["p"] = [[num(y) for y in body[i * (m + 1) + 1:(i + 1) * (m + 1)]] for i in range(len(prof))]
        elif not r:
            d["group"] = [x + 1 for x in ints(find(r"group of voters " + SET, w))]
            d["pct"] = num(find(r"\(" + NUM + r"% of all voters", w))
            d["weighted"] = "(by weight)" in w
            if prop in ("jr", "ejr+"):
                d["set"] = [N.one(find(r"approve candidate (.*?)(?:, but none| which is not)", w))]
                d["ell"] = num("1" if prop == "jr" else find(r"deserves " + NUM + " candidates", w))
                d["beta"] = num(find(r"at least " + NUM + " members", w)) if prop == "ejr+" else d["ell"]
            elif prop in ("pjr", "ejr"):
                d["set"] = ints(find(r"approve the candidates " + SET, w))
                d["ell"] = num(find(r"The " + NUM + r"-cohesive group", w))
                d["beta"] = num(find((r"approves " if prop == "ejr" else r"fewer than ") + NUM + " candidates in the committee", w))
            elif prop == "fjr":
                d["set"] = ints(find(r"candidates " + SET, w))
                d["ell"] = num(find(r"of the " + NUM + " candidates", w))
                d["beta"] = num(find(r"at least " + NUM + " of the", w))
                d["most"] = num(find(r"at most " + NUM + " candidates in", w))
            elif prop == "core":
                d["set"] = ints(find(r"by proposing " + SET, w))
    except Unreadable as x:
        c["unread"] = str(x).replace('"', "").replace("\\", "/").replace("|", "/")
    except Exception as x:
        c["err"] = sut.errtext(x)
    return c


PROPS = ["jr", "pjr", "ejr", "ejr+", "fjr", "core", "pareto", "priceability", "stable-priceability"]


def witnesses(rid, e, W, q, qv, names, asfrac):
    e = e.with_(k=len(W))
    prof = sut.profile(e, names, asfrac)
    N = Names(names or [str(c) for c in range(e.m)])
    rec = {"id": rid, "kind": "witness", **e.rec(), "W": W, "q": el.rat(q) if q is not None else "", "calls": []}
    for p in PROPS:
        for a in pa.ALGS[p]:
            rec["calls"].append(witness(p, a, prof, W, qv if p in PROPS[:6] else None, N))
    return [rec]


# ------------------------------------------------------------------ inputs
RULES = ["seqpav", "seqslav", "seqcc", "seqgeom2", "revseqpav", "revseqslav", "revseqcc", "revseqgeom2", "seqphragmen", "seqphragmen", "equal-shares", "equal-shares",
         "equal-shares-with-av-completion", "equal-shares-without-completion", "equal-shares-with-increment-completion", "maximin-support",
         "pav", "cc", "slav", "geom2", "lexcc", "minimaxav", "lexminimaxav", "av", "sav", "monroe", "greedy-monroe", "greedy-monroe",
         "phragmen-enestroem", "consensus-rule", "minimaxphragmen", "leximaxphragmen", "eph", "trivial", "rsd"]


def names_for(rng, m):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.7:                                  # numbers that are not the candidates' own
        p = [str(c) for c in range(m)]
        rng.shuffle(p)
        return p
    p = [f"n{c}" for c in range(m)] if r < 0.85 else list("zyxwvutsrqponmlk")[:m]
    rng.shuffle(p)
    return p


def C31(ctx):
    idx = 0
    rng = ctx.rng()
    for e in itertools.chain(el.exhaustive(2, 2), el.exhaustive(3, 2) if ctx.thorough else list(el.exhaustive(3, 2))[::3]):
        for rule in dict.fromkeys(RULES):
            names = names_for(rng, e.m)
            idx += 1
            if ctx.mine(idx) and (ctx.thorough or idx % 2):
                yield lambda e=e, rule=rule, names=names, idx=idx: explain(f"e{idx}", e, rule, names, False)
    rng = ctx.rng()
    streams = {False: el.stream(rng, ALLW, mmax=6, nmax=9), True: el.stream(rng, ("unit",), mmax=6, nmax=9)}
    for i in range(2600 * ctx.scale):
        rule = RULES[i % len(RULES)]
        slow = rule in ("leximaxphragmen",)
        e = next(streams[rule in sut.UNIT_ONLY or slow])
        if slow and len(e.A) > 4:
            continue
        names = names_for(rng, e.m)
        idx += 1
        if ctx.mine(idx):
            yield lambda e=e, rule=rule, names=names, idx=idx: explain(f"r{idx}", e, rule, names, idx % 5 == 4)
    rng = ctx.rng()
    for i, e in enumerate(itertools.islice(el.stream(rng, pa.ALLW, mmax=6, nmax=8), 1100 * ctx.scale)):
        W = sorted(rng.sample(range(e.m), e.k)) if rng.random() < 0.85 else pa.committee(rng, e)
        q = pa.quota(rng, e)
        qv, _ = pa.passed(rng, q)
        names = names_for(rng, e.m)
        if ctx.mine(i):
            yield lambda e=e, W=W, q=q, qv=qv, names=names, i=i: witnesses(f"w{i}", e, W, q, qv, names, i % 5 == 4)
