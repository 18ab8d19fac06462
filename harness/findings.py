"""Predicates that identify the recorded findings of known_findings.json by call site and input."""
import itertools
import math
from fractions import Fraction as F


def dyadic(x):
    return x.denominator & (x.denominator - 1) == 0


def sav_tie(m, A, w, k):
    """certain candidates, candidates exactly tied at the cutoff, and whether a tied score is a sum with
    a term that binary floating-point numbers cannot represent"""
    w = [F(x) for x in w]
    score = [F(0)] * m
    rounded = [False] * m
    for a, x in zip(A, w):
        for c in a:
            score[c] += x / len(a)
            rounded[c] |= not dyadic(x / len(a))
    cut = sorted(score)[-k]
    return ({c for c in range(m) if score[c] > cut}, {c for c in range(m) if score[c] == cut},
            any(rounded[c] for c in range(m) if score[c] == cut))


def explained(el, call):
    """the outcome is one that rounding errors among exactly tied candidates can explain"""
    sure, tied, rounded = sav_tie(el["m"], el["A"], el["w"], el["k"])
    if call["err"] or not rounded or not call["out"]:
        return False
    out = [frozenset(x) for x in call["out"]]
    if not all(len(x) == el["k"] and sure <= x <= sure | tied for x in out) or len(set(out)) != len(out):
        return False
    if call["res"]:
        return len(out) == 1
    top = frozenset.intersection(*out)
    rest = frozenset.union(*out) - top
    if call["max"]:
        return len(out) <= call["max"]
    return len(out) == math.comb(len(rest), el["k"] - len(top))


def right(el, call):
    sure, tied, _ = sav_tie(el["m"], el["A"], el["w"], el["k"])
    win = {frozenset(sure | set(x)) for x in itertools.combinations(sorted(tied), el["k"] - len(sure))}
    out = {frozenset(x) for x in call["out"]}
    return not call["err"] and (out == win if not call["res"] else out <= win)


def sav_float_tie(rec, callno, text):
    """abcrules._separable_rule_algorithm adds up SAV scores as floats: candidates that are exactly tied
    at the cutoff may be ordered by rounding errors.  Only outcomes that a rounding error inside an exact
    tie can explain are covered."""
    if rec.get("name") != "sav" or callno < 1:
        return False
    if rec["kind"] in ("rule", "explain"):
        return explained(rec, rec["calls"][callno - 1])
    if rec["kind"] == "pair":
        sides = [(rec[x], rec[x]["calls"][callno - 1]) for x in ("a", "b")]
        exact = [sav_tie(e["m"], e["A"], e["w"], e["k"])[2] for e, c in sides]
        return any(exact) and all(explained(e, c) if r else right(e, c) for (e, c), r in zip(sides, exact))
    return False


def revseq_ties(rec, callno, text):
    """abcrules._revseq_thiele_resolute: the recorded list of tied candidates omits the removed one.  The clause itself
    only covers lists that are right apart from that omission."""
    return rec["kind"] == "explain" and rec["rule"]["id"] == "revseqthiele" and callno > 0 and rec["calls"][callno - 1]["res"]
