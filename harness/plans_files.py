"""Plan for C28: replays histories of file operations generated by module FileGen."""
import hashlib
import json
import os
import shutil
import tempfile
from fractions import Fraction as F

import ruamel.yaml

import sut
from elections import rat

FIO = sut.fileio
NONDET = {"cc", "lexcc", "monroe", "minimaxav", "pav"}         # solvers may pick any winning committee


def weight(tok):
    if tok[0] == "f":
        return float(tok[1:])
    if tok[0] == "n":
        import numpy
        return numpy.int64(tok[1:])
    return F(tok) if "/" in tok else int(tok)


def txt(s):
    return s.replace("\n", "~")


def cls(e):
    n = type(e).__name__
    return n if n in ("MalformattedFileException", "FileNotFoundError") else sut.errclass(e)


def voters(p):
    return [{"a": sorted(int(c) for c in v.approved), "w": rat(F(int(v.weight)) if not isinstance(v.weight, (float, F)) else F(v.weight))} for v in p]


KNOWN = {"rule_id", "result", "profile", "committeesize"}


def comp_view(inst, how=""):
    r = inst.get("result", "absent")
    return {"rule": inst["rule_id"], "params": sorted(f"{k}={v}" for k, v in inst.items() if k not in KNOWN),
            "kind": "absent" if isinstance(r, str) else "none" if r is None else "given",
            "result": [] if r is None or isinstance(r, str) else [sorted(int(c) for c in com) for com in r], "how": how}


def instance(x):
    """the objects for an instance drawn by the generator, and its concrete description"""
    p = sut.Profile(x["m"], cand_names=[f"n{j}" for j in range(x["m"])] if x["named"] else None)
    for v in x["V"]:
        p.add_voter(sut.Voter(v["a"], weight=weight(v["w"])))
    k = x["k"] or None
    insts, views = [], []
    for c in x["comp"]:
        inst, how = {"rule_id": c["rule"]}, "given"
        if c["res"] != "absent":
            inst["resolute"] = c["res"] == "true"
        if c["alg"] == "fastest":
            inst["algorithm"] = "fastest"
        elif c["alg"] == "first":
            inst["algorithm"] = sut.abcrules.Rule(c["rule"]).algorithms[-1]
            if inst["algorithm"] == "mip-gurobi":
                inst["algorithm"] = "fastest"
        if c["max"] and c["res"] == "false":
            inst["max_num_of_committees"] = c["max"]
        if c["kind"] == "none":
            inst["result"] = None
        elif c["kind"] == "given":
            inst["result"] = [sut.CandidateSet(g) for g in c["given"]]
        elif c["kind"] == "computed" and k and len(p):
            try:
                inst["result"] = sut.abcrules.compute(profile=p, committeesize=k, **inst)
                if c["rule"] not in NONDET or ("max_num_of_committees" not in inst and inst.get("resolute") is False):
                    how = "computed"
            except Exception:
                pass
        if c["withprofile"]:
            inst["profile"] = p if c["max"] % 2 else p.copy()
        if c["withsize"] and k:
            inst["committeesize"] = k
        insts.append(inst)
        views.append(comp_view(inst, how))
    return p, k, insts, {"m": x["m"], "V": voters(p), "k": x["k"], "desc": x["desc"], "comp": views}


def args_text(p, k, insts):
    return (str(voters(p)) + str(p.cand_names) + str(k) + str([comp_view(i) for i in insts]) + str([sorted(i) for i in insts])).replace('"', "'").replace("\\", "/")


def tamper(path, kind):
    y = ruamel.yaml.YAML(typ="safe", pure=True)
    with open(path) as f:
        d = y.load(f)
    d = json.loads(json.dumps(d))
    prof = d["profile"]
    w = d.get("voter_weights") or [1] * len(prof)
    big = max((c for a in prof for c in a), default=0)
    first = next((a for a in prof if a), None)
    if kind == "unknownkey":
        d["candidates"] = 3
    elif kind == "typo":
        d["committee_size"] = d.pop("committeesize")
    elif kind == "noprofile":
        del d["profile"]
    elif kind == "shortweights":
        d["voter_weights"] = w[:-1]
    elif kind == "longweights":
        d["voter_weights"] = w + [1]
    elif kind == "norule":
        del d["compute"][0]["rule_id"]
    elif kind == "smallnumcand":
        d["num_cand"] = big
    elif kind == "dupcand":
        first.append(first[0])
    elif kind == "negcand":
        prof[-1].append(-1)
    elif kind == "textcand":
        prof[0].append("a")
    elif kind in ("zeroweight", "negweight"):
        d["voter_weights"] = [0 if kind == "zeroweight" else -2] + w[1:]
    elif kind == "dupresult":
        d["compute"][-1]["result"] = [[0, 0]]
    elif kind == "reorder":
        d = dict(reversed(d.items()))
    elif kind == "noweights":
        d.pop("voter_weights", None)
    elif kind == "nonumcand":
        d.pop("num_cand", None)
    elif kind == "nosize":
        d.pop("committeesize", None)
    elif kind == "explicitweights":
        d["voter_weights"] = w
    with open(path, "w") as f:
        if kind == "notyaml":
            f.write("profile: [[0, 1], [1\nnum_cand: 2\n")
        else:
            y2 = ruamel.yaml.YAML(typ="safe", pure=True)
            y2.sort_base_mapping_type_on_output = False
            y2.dump(d, f)


def digest(path):
    if not os.path.exists(path):
        return "none"
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def other(p):
    q = p.copy()
    q.add_voter([0])
    return q


def replay(no, hist, d):
    path = {f: os.path.join(d, f"f{f}.abc.yaml") for f in (1, 2)}
    calls = []
    for o in hist:
        o = dict(o)
        c = {"do": o, "alg": o["op"], "cls": "", "before": [digest(path[1]), digest(path[2])], "argsbefore": "", "argsafter": "", "linked": True, "out": [],
             "x": {"m": 0, "V": [], "k": 0, "desc": "", "comp": []}}
        f = path[o["f"]]
        try:
            if o["op"] == "write":
                p, k, insts, o["x"] = instance(o["x"])
                if o["fault"]:
                    insts.append({"norule": {"resolute": True}, "otherprofile": {"rule_id": "av", "profile": other(p)},
                                  "othersize": {"rule_id": "av", "committeesize": (k or 3) + 1}}[o["fault"]])
                bef = args_text(p, k, insts[:-1] if o["fault"] else insts)
                desc = o["x"]["desc"].replace("~", "\n") or None
                try:
                    FIO.write_abcvoting_instance_to_yaml_file(f, p, committeesize=k, compute_instances=insts or None, description=desc)
                finally:
                    c["argsbefore"], c["argsafter"] = bef, args_text(p, k, insts[:-1] if o["fault"] else insts)
            elif o["op"] in ("read", "rewrite", "recompute"):
                p, k, insts, data = FIO.read_abcvoting_yaml_file(f)
                if o["op"] == "read":
                    c["linked"] = all(i["profile"] is p and i["committeesize"] == k for i in insts)
                    c["x"] = {"m": p.num_cand, "V": voters(p), "k": k or 0, "desc": txt(data.get("description") or ""), "comp": [comp_view(i) for i in insts]}
                elif o["op"] == "rewrite":
                    FIO.write_abcvoting_instance_to_yaml_file(path[o["g"]], p, committeesize=k, compute_instances=insts, description=data.get("description"))
                else:
                    c["out"] = sut.committees(sut.abcrules.compute(**insts[o["i"] - 1]))
            elif o["op"] == "tamper":
                tamper(f, o["kind"])
        except Exception as e:
            c["cls"], c["msg"] = cls(e), sut.errtext(e).replace("|", "/")
        c["after"] = [digest(path[1]), digest(path[2])]
        if o["op"] != "write":
            o["x"] = {"m": 0}
        calls.append(c)
    return [{"id": f"f{no}", "kind": "files", "calls": calls}]


def C28(ctx):
    def thunk(no, hist):
        d = tempfile.mkdtemp(prefix="yaml", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            return replay(no, hist, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for no, hist in enumerate(ctx.histories("FileGen")):
        if ctx.mine(no):
            yield lambda no=no, hist=hist: thunk(no, hist)
