"""Access to the code under test.  Records what it does; contains no notion of right or wrong."""
import contextlib
import io
import os
import sys
import warnings
from fractions import Fraction as F

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
with contextlib.redirect_stdout(io.StringIO()):
    from abcvoting import abcrules, misc, preferences, properties, scores, fileio, generate  # noqa: E402
    from abcvoting import output as outmod  # noqa: E402
    from abcvoting.output import output  # noqa: E402
    from abcvoting.preferences import Profile, Voter  # noqa: E402
    from abcvoting.misc import CandidateSet  # noqa: E402
assert os.path.realpath(abcrules.__file__).startswith(os.path.realpath(REPO) + "/"), abcrules.__file__


def pyweight(x, asfrac=False):
    x = F(x)
    return x if (asfrac or x.denominator != 1) else int(x)


def profile(el, names=None, asfrac=False):
    p = Profile(el.m, cand_names=names)
    for a, w in zip(el.A, el.w):
        p.add_voter(Voter(a, weight=pyweight(w, asfrac)))
    return p


def errtext(e):
    return (type(e).__name__ + ": " + " ".join(str(e).split()))[:160].replace('"', "'").replace("\\", "/")


def errclass(e):
    """the most specific documented class of the exception"""
    for c in (ValueError, NotImplementedError, TypeError, KeyError, IndexError, RuntimeError):
        if isinstance(e, c):
            return c.__name__
    return type(e).__name__


def algorithms(rule_id):
    return [a for a in abcrules.Rule(rule_id).available_algorithms if a != "mip-gurobi"]


def committees(result):
    """project a list of committees to lists of sorted ints"""
    return [sorted(int(c) for c in com) for com in result]


def call(rule_id, prof, k, alg, res, mx=None, fct=None):
    c = {"alg": alg, "res": bool(res), "max": mx or 0, "err": "", "out": []}
    try:
        kw = {"algorithm": alg, "resolute": res}
        if mx is not None:
            kw["max_num_of_committees"] = mx
        if fct is None:
            r = abcrules.compute(rule_id, prof, k, **kw)
        else:
            r = fct(prof, k, **kw)
        c["out"] = committees(r)
    except Exception as e:  # recorded, judged by the specification
        c["err"] = errtext(e)
    return c


# specification descriptors of the rules
def rd(id_, sf="pav", p="0/1", comp=""):
    return {"id": id_, "sf": sf, "p": p, "comp": comp}


RULES = {
    "av": rd("av"), "sav": rd("sav"), "pav": rd("thiele", "pav"), "slav": rd("thiele", "slav"),
    "cc": rd("thiele", "cc"), "geom2": rd("thiele", "geom", "2/1"), "geom3/2": rd("thiele", "geom", "3/2"),
    "geom5": rd("thiele", "geom", "5/1"), "geom1.1": rd("thiele", "geom", "11/10"),
    "lexcc": rd("lexcc"),
    "seqpav": rd("seqthiele", "pav"), "seqslav": rd("seqthiele", "slav"), "seqcc": rd("seqthiele", "cc"),
    "seqgeom2": rd("seqthiele", "geom", "2/1"), "seqgeom3/2": rd("seqthiele", "geom", "3/2"),
    "seqgeom1.1": rd("seqthiele", "geom", "11/10"),
    "revseqpav": rd("revseqthiele", "pav"), "revseqslav": rd("revseqthiele", "slav"),
    "revseqcc": rd("revseqthiele", "cc"), "revseqgeom2": rd("revseqthiele", "geom", "2/1"),
    "seqphragmen": rd("seqphragmen"), "minimaxphragmen": rd("minimaxphragmen"),
    "leximaxphragmen": rd("leximaxphragmen"), "maximin-support": rd("maximin"),
    "monroe": rd("monroe"), "greedy-monroe": rd("greedy-monroe"),
    "minimaxav": rd("minimaxav"), "lexminimaxav": rd("lexminimaxav"),
    "equal-shares": rd("mes", comp="seqphragmen"), "equal-shares-with-av-completion": rd("mes", comp="av"),
    "equal-shares-with-increment-completion": rd("increment"),
    "equal-shares-without-completion": rd("mes", comp="none"),
    "phragmen-enestroem": rd("enestroem"), "consensus-rule": rd("consensus"),
    "trivial": rd("trivial"), "rsd": rd("rsd"), "eph": rd("eph"),
}
UNIT_ONLY = {"monroe", "greedy-monroe", "lexminimaxav", "rsd"}
RESOLUTE_ONLY = {"greedy-monroe", "rsd", "equal-shares-with-increment-completion"}


def rule_record(rid, el, rule_id, algs=None, limits=(), res=(True, False), names=None, asfrac=False):
    rec = {"id": rid, "kind": "rule", **el.rec(), "name": rule_id, "rule": RULES[rule_id], "resonly": False not in res and not limits and rule_id not in RESOLUTE_ONLY, "calls": []}
    for alg in algs or algorithms(rule_id):
        if alg == "ortools-cp" and rule_id == "cc" and (asfrac or any(x.denominator != 1 for x in el.w)):
            continue                     # documented: integer weights only
        prof = profile(el, names, asfrac)
        for r in res:
            if r is False and rule_id in RESOLUTE_ONLY:
                continue
            rec["calls"].append(call(rule_id, prof, el.k, alg, r))
        if rule_id not in RESOLUTE_ONLY:
            for mx in limits:
                rec["calls"].append(call(rule_id, prof, el.k, alg, False, mx))
    return rec
