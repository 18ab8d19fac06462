"""Plan for C26: replays histories of the profile machine on real objects."""
import copy
from fractions import Fraction as F

import sut
from elections import rat

ABSENT = {"ex": False}


def txt(s):
    return s.replace("\n", "~")


def entry(v):
    return {"a": sorted(int(c) for c in v.approved), "w": rat(F(v.weight))}


def view(p):
    if p is None:
        return ABSENT
    return {"ex": True, "m": len(p.candidates), "names": list(p.cand_names), "V": [entry(v) for v in p],
            "ints": all(isinstance(v.weight, int) for v in p), "len": len(p), "num_cand": p.num_cand, "total": rat(F(p.total_weight())), "unit": bool(p.has_unit_weights()),
            "party": bool(p.is_party_list()), "approved": sorted(p.approved_candidates()), "str": txt(str(p)),
            "compact": txt(p.str_compact())}


def apply(P, V, o):
    op = o["op"]
    w = sut.pyweight(F(o["w"]))
    p = P.get(o["p"])
    given = V[o["v"]] if o["v"] and op in ("add", "set") else list(o["b"])
    if op == "new":
        P[o["p"]] = sut.Profile(o["m"], cand_names=o["names"] or None)
    elif op == "voter":
        V[o["v"]] = sut.Voter(list(o["b"]), weight=w)
    elif op == "add":
        p.add_voter(given)
    elif op == "addmany":
        p.add_voters([list(b) for b in o["bs"]])
    elif op == "addvoters":
        p.add_voters([V[v] for v in o["vs"]])
    elif op == "set":
        p[o["i"]] = given
    elif op == "unit":
        p.convert_to_unit_weights()
    elif op == "merge":
        p.convert_to_weighted()
    elif op == "copy":
        P[o["q"]] = {"copy": p.copy, "copy.copy": lambda: copy.copy(p), "deepcopy": lambda: copy.deepcopy(p)}[o["how"]]()
    elif op == "rename":
        p.cand_names[o["i"] - 1] = o["name"]
    elif op == "editvoter":
        V[o["v"]].approved.add(o["c"])
        V[o["v"]].weight = w
    elif op == "editentry":
        p[o["i"] - 1].approved.add(o["c"])
        p[o["i"] - 1].weight = w
    else:
        raise AssertionError(op)


def C26(ctx):
    def thunk(no, hist):
        P, V, calls = {}, {}, []
        for o in hist:
            cls, msg = "", ""
            try:
                apply(P, V, o)
            except Exception as x:
                cls, msg = sut.errclass(x), sut.errtext(x).replace("|", "/")
            calls.append({"do": o, "cls": cls, "msg": msg, "alg": o["op"],
                          "obs": {"P": [view(P.get(j)) for j in (1, 2, 3)],
                                  "V": [{"ex": True, **entry(V[j])} if j in V else ABSENT for j in (1, 2)]}})
        return [{"id": f"h{no}", "kind": "profile", "calls": calls}]
    for no, hist in enumerate(ctx.histories("ProfileGen")):
        if ctx.mine(no):
            yield lambda no=no, hist=hist: thunk(no, hist)
