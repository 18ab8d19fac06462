"""Plan for C29: Preflib files written by this driver or by the library are read back."""
import os
import shutil
import tempfile
from fractions import Fraction as F

import sut
from elections import rat

FIO = sut.fileio
NAMES = ["a", "b", "Candidate 1", "x: y", "c, d", "#4", "{1}", "Zoë", "10", "2", "1", "a", "A-B", "(no)", "l'x", "e f g", "1: 2"]


def view(p):
    return {"m": p.num_cand, "names": list(p.cand_names), "V": [{"a": sorted(int(c) for c in v.approved), "w": rat(F(v.weight))} for v in p]}


EMPTY = {"m": 0, "names": [], "V": []}


def cls(e):
    n = type(e).__name__
    return n if n in ("MalformattedFileException", "FileNotFoundError") else sut.errclass(e)


def group(c):
    return "{}" if not c else str(c[0]) if len(c) == 1 else "{" + ",".join(map(str, c)) + "}"


def write(path, ext, m, names, lines, ncat=0):
    unique = "PREFERENCES" if ext == "cat" else "ORDERS"
    with open(path, "w", encoding="utf-8") as f:
        f.write(f"# FILE NAME: {os.path.basename(path)}\n# TITLE: t\n# DESCRIPTION: \n# DATA TYPE: {ext}\n# MODIFICATION TYPE: synthetic\n# RELATES TO: \n"
                f"# RELATED FILES: \n# PUBLICATION DATE: \n# MODIFICATION DATE: \n# NUMBER ALTERNATIVES: {m}\n# NUMBER VOTERS: {sum(x['n'] for x in lines)}\n"
                f"# NUMBER UNIQUE {unique}: {len(lines)}\n")
        if ext == "cat":
            f.write(f"# NUMBER CATEGORIES: {ncat}\n")
            for j in range(ncat):
                f.write(f"# CATEGORY NAME {j + 1}: cat {j + 1}\n")
        for j, nm in enumerate(names):
            f.write(f"# ALTERNATIVE NAME {j + 1}: {nm}\n")
        for x in lines:
            f.write(f"{x['n']}: {','.join(group(c) for c in x['cl'])}\n")


def make(rng, ext, big=False):
    """a random instance of the given type: alternatives, names, lines with different content"""
    m = rng.choice([1, 2, 3, 3, 4, 4, 5, 6] + ([9, 12] if big else [7]))
    names = [rng.choice(NAMES) for _ in range(m)]
    ncat = rng.randint(1, 4)
    lines, seen = [], set()
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        alts = list(range(1, m + 1))
        rng.shuffle(alts)
        if len(lines) and rng.random() < 0.5:                # close to an earlier order
            alts = [a for c in lines[-1]["cl"] for a in c] + [a for a in alts if all(a not in c for c in lines[-1]["cl"])]
        if ext == "cat":
            cl = [[] for _ in range(ncat)]
            for a in sorted(alts):
                cl[rng.randrange(ncat)].append(a)
        else:
            if ext in ("soi", "toi"):
                alts = alts[:rng.randint(1, m)]
            cl = []
            for a in alts:
                if cl and ext in ("toc", "toi") and rng.random() < 0.4:
                    cl[-1].append(a)
                else:
                    cl.append([a])
        key = str([sorted(c) for c in cl])
        if key in seen:
            continue
        seen.add(key)
        lines.append({"n": rng.choice([1, 1, 1, 2, 3, 5, 17]), "cl": cl})
    return m, names, lines, ncat


MODES = {"top": "top_ranks", "size": "setsize"}


def kwargs(mode, x):
    return {"default": {}, "top": {"top_ranks": x}, "size": {"setsize": x}, "both": {"top_ranks": x, "setsize": x}}[mode]


def reading(rng, d):
    ext = rng.choice(["soc", "soi", "toc", "toi", "cat", "toc", "toi"])
    m, names, lines, ncat = make(rng, ext, big=True)
    path = os.path.join(d, f"f.{ext}")
    write(path, ext, m, names, lines, ncat)
    out = []
    for _ in range(4):
        mode, x = rng.choice([("default", 0)] + [("top", j) for j in range(0, m + 2)] + [("size", j) for j in range(1, m + 2)] * 2 + [("both", 1), ("top", -1), ("size", -2)])
        uw = rng.random() < 0.4
        c = {"fn": "read", "alg": ext, "m": m, "names": names, "lines": lines, "mode": mode, "x": x, "uw": uw, "cls": "", "r": EMPTY}
        try:
            c["r"] = view(FIO.read_preflib_file(path, use_weights=uw, **kwargs(mode, x)))
        except Exception as e:
            c["cls"], c["msg"] = cls(e), sut.errtext(e).replace("|", "/")
        out.append(c)
    return out


def unreadable(rng, d):
    kind = rng.choice(["missing", "text", "wmd", "garbage"])
    path = os.path.join(d, {"missing": "no.soc", "text": "f.txt", "wmd": "f.wmd", "garbage": "f.soc"}[kind])
    if kind == "text":
        write(path, "soc", 2, ["a", "b"], [{"n": 1, "cl": [[1], [2]]}])
    elif kind == "wmd":
        with open(path, "w") as f:
            f.write("# FILE NAME: f.wmd\n# TITLE: t\n# DATA TYPE: wmd\n# NUMBER ALTERNATIVES: 2\n# NUMBER EDGES: 1\n# ALTERNATIVE NAME 1: a\n# ALTERNATIVE NAME 2: b\n1, 2, 1.0\n")
    elif kind == "garbage":
        with open(path, "w") as f:
            f.write("this is: no Preflib file\n1 2 3\n")
    c = {"fn": "unreadable", "alg": kind, "cls": ""}
    try:
        FIO.read_preflib_file(path)
    except Exception as e:
        c["cls"], c["msg"] = cls(e), sut.errtext(e).replace("|", "/")
    return [c]


def roundtrip(rng, d):
    m = rng.choice([1, 2, 3, 4, 5, 10, 12])
    names = [rng.choice(NAMES) for _ in range(m)] if rng.random() < 0.6 else None
    p = sut.Profile(m, cand_names=names)
    weighted = rng.random() < 0.6
    kinds = [int, F] if rng.random() < 0.8 else [float]
    for _ in range(rng.choice([1, 2, 4, 7, 12])):
        a = [c for c in range(m) if rng.random() < rng.choice([0.2, 0.5, 0.8])]
        rng.shuffle(a)
        p.add_voter(sut.Voter(a, weight=rng.choice(kinds)(rng.choice([1, 1, 2, 3, 10])) if weighted else 1))
    out = []
    path = os.path.join(d, "out.cat")
    for uw in (False, True):
        c = {"fn": "writeread", "alg": "cat", **view(p), "uw": uw, "cls": "", "r": EMPTY}
        try:
            FIO.write_profile_to_preflib_cat_file(path, p)
            c["r"] = view(FIO.read_preflib_file(path, use_weights=uw))
        except Exception as e:
            c["cls"], c["msg"] = cls(e), sut.errtext(e).replace("|", "/")
        out.append(c)
    return out


def directory(rng, d):
    d = tempfile.mkdtemp(dir=d)
    files = []
    for j in range(rng.choice([0, 1, 3, 5])):
        ext = rng.choice(["soc", "soi", "toc", "toi", "cat"])
        kind = rng.choice(["", "", "", "", ".txt", ".bak", "x"])
        name = rng.choice(["a", "b", "a.soc", "z9", "10", "2", "x.abc.yaml"]) + f"{j}.{ext}{kind}"
        m, names, lines, ncat = make(rng, ext)
        write(os.path.join(d, name), ext, m, names, lines, ncat)
        files.append({"name": name, "m": m, "names": names, "lines": lines})
    if rng.random() < 0.5:
        os.mkdir(os.path.join(d, "sub"))
        m, names, lines, ncat = make(rng, "soc")
        write(os.path.join(d, "sub", "q.soc"), "soc", m, names, lines)
    if rng.random() < 0.3:
        os.mkdir(os.path.join(d, "sub.soc"))
    out = []
    for mode, x in [("default", 0), ("top", 2), ("size", 2)]:
        c = {"fn": "dir", "alg": mode, "mode": mode, "x": x, "files": files, "cls": "", "r": []}
        try:
            r = FIO.read_preflib_files_from_dir(d, **kwargs(mode, x))
            c["r"] = [{"name": n, "r": view(p)} for n, p in r.items()]
        except Exception as e:
            c["cls"], c["msg"] = cls(e), sut.errtext(e).replace("|", "/")
        out.append(c)
    for exts in ([], [".soc"], [".soc", ".cat"], [".txt"], ["c"]):
        c = {"fn": "filenames", "alg": "", "exts": exts, "present": [f["name"] for f in files], "cls": "", "r": []}
        try:
            c["r"] = list(FIO.get_file_names(d, filename_extensions=exts or None))
        except Exception as e:
            c["cls"], c["msg"] = cls(e), sut.errtext(e).replace("|", "/")
        out.append(c)
    return out


def C29(ctx):
    def thunk(no, rng):
        d = tempfile.mkdtemp(prefix="pl", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            f = [reading, reading, reading, roundtrip, roundtrip, directory, unreadable][no % 7]
            return [{"id": f"p{no}", "kind": "preflib", "name": f.__name__, "calls": f(rng, d)}]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for no in range(2100 * ctx.scale):
        rng = ctx.rng()
        if ctx.mine(no):
            yield lambda no=no, rng=rng: thunk(no, rng)
