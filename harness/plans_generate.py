"""Plan for C32: random profiles and points."""
from fractions import Fraction as F

import numpy as np

import sut
from elections import rat

G = sut.generate
PPD = G.PointProbabilityDistribution
DIRECT = {"IC fixed-size": "random_ic_fixed_size_profile", "IC": "random_ic_profile", "Truncated Mallows": "random_mallows_profile",
          "Urn fixed-size": "random_urn_fixed_size_profile", "Urn": "random_urn_profile", "Truncated Urn": "random_truncated_urn_profile",
          "Resampling": "random_resampling_profile", "Disjoint Resampling": "random_disjoint_resampling_profile",
          "Noise": "random_noise_model_profile", "Euclidean VCR": "random_euclidean_vcr_profile",
          "Euclidean fixed-size": "random_euclidean_fixed_size_profile", "Euclidean Threshold": "random_euclidean_threshold_profile"}
PLAIN = list(DIRECT)[:9]
NONE = {"given": [], "dist": "", "center": [], "sigma": "0/1", "width": "0/1"}
BASE = {"cls": "", "alg": "", "ballots": [], "cands": 0, "unit": True, "texts": [], "texts2": [], "V": [], "C": [], "exact": True,
        "n": 0, "m": 0, "setsize": 0, "groups": 0, "p": "", "phi": "", "replace": "", "threshold": "", "dist": "",
        "vs": NONE, "cs": NONE, "vr": {"one": True, "v": []}, "cr": {"one": True, "v": []}, "dim": 0}
DISTS = {"1d_interval": 1, "1d_gaussian": 1, "1d_gaussian_interval": 1, "2d_disc": 2, "2d_square": 2, "2d_gaussian": 2,
         "2d_gaussian_disc": 2, "3d_cube": 3}


def points(arr):
    return [[rat(F(float(x))) for x in np.atleast_1d(p)] for p in arr]


def num(rng, x):
    """the same dyadic number as Fraction, float or int"""
    if F(x).denominator == 1 and rng.random() < 0.5:
        return int(x)
    return float(x)


def attempt(c, f, post):
    try:
        c.update(post(f()))
    except Exception as e:
        c["cls"], c["msg"] = sut.errclass(e), sut.errtext(e).replace("|", "/")
        if type(e).__name__ == "ZeroDivisionError":
            c["cls"] = "ZeroDivisionError"
    return c


def observe(prof):
    ballots = [sorted(int(x) for x in v.approved) for v in prof]
    return {"ballots": ballots, "cands": prof.num_cand, "unit": all(v.weight == 1 for v in prof),
            "texts": ["".join(str(v).split()) for v in prof], "texts2": ["{" + ",".join(sorted(map(str, b))) + "}" for b in ballots]}


def invoke(rng, fn, n, m, kw, direct=None):
    if direct is None:
        direct = rng.random() < 0.4
    if direct and fn in DIRECT:
        return lambda: getattr(G, DIRECT[fn])(n, m, **kw)
    d = {"id": fn, **kw} if fn else dict(kw)
    before = dict(d)

    def go():
        r = G.random_profile(n, m, d)
        assert d == before, "the specification of the distribution was changed"
        return r
    return go


def dyadic(rng, extremes=True):
    return F(rng.choice([0, 0, 8, 8, 1, 2, 3, 4, 5, 6, 7] if extremes else [1, 2, 3, 4, 5, 6, 7]), 8)


def plain_params(rng, fn, m):
    c, kw = {}, {}
    if fn in ("IC fixed-size", "Truncated Mallows", "Urn fixed-size", "Truncated Urn"):
        c["setsize"] = kw["setsize"] = rng.choice([0, 1, m, m - 1, rng.randint(0, m), rng.randint(0, m)])
    if fn in ("IC", "Urn", "Resampling", "Disjoint Resampling", "Noise"):
        p = dyadic(rng)
        if fn == "Disjoint Resampling":
            g = rng.choice([1, 2, 2, 3, 4])
            p = rng.choice([F(0), F(1, 8), F(1, 4), F(1, 2), F(1)])
            if rng.random() < 0.3:
                g = 2
            else:
                kw["num_groups"] = g
            c["groups"] = g
            if p * g > 1 and rng.random() < 0.8:
                p = F(1, 4) if g > 2 else F(1, 2) if g == 2 else F(1)
        kw["p"] = num(rng, p)
        c["p"] = rat(p)
        if fn == "IC" and p == F(1, 2) and rng.random() < 0.5:
            del kw["p"]
    if fn in ("Resampling", "Noise", "Truncated Mallows", "Disjoint Resampling"):
        q = dyadic(rng)
        name = "dispersion" if fn == "Truncated Mallows" else "phi"
        if fn == "Disjoint Resampling" and rng.random() < 0.3:
            kw.update({} if rng.random() < 0.5 else {"phi": None})
        else:
            kw[name] = num(rng, q)
            c["phi"] = rat(q)
    if fn == "Noise":
        d = rng.choice(["hamming", "jaccard", "zelinka", "bunke-shearer"])
        if d != "hamming" or rng.random() < 0.5:
            kw["distance"] = d
        c["dist"] = d
    if fn in ("Urn fixed-size", "Urn", "Truncated Urn"):
        r = rng.choice([F(0), F(1, 2), F(1), F(10) ** 16, F(10) ** 16])
        kw["replace"] = num(rng, r)
        c["replace"] = rat(r)
    return c, kw


def plain(rng):
    fn = rng.choice(PLAIN)
    n, m = rng.choice([1, 2, 5, 12]), rng.choice([1, 2, 3, 5, 8, 22, 49])
    if fn == "Noise":
        m = min(m, 8)
    c, kw = plain_params(rng, fn, m)
    bad = rng.random()
    if bad < 0.2:
        key = rng.choice([k for k in kw if k not in ("num_groups",) and kw[k] is not None] + ["n", "m"])
        if key == "n":
            n = rng.choice([0, -1])
        elif key == "m":
            m = rng.choice([0, -2])
        elif key == "setsize":
            c["setsize"] = kw["setsize"] = rng.choice([m + 1, -1, m + 7])
        elif key == "distance":
            c["dist"] = kw["distance"] = rng.choice(["Hamming", "euclid", ""])
            c["dist"] = c["dist"] or "none"
        elif key == "replace":
            kw["replace"] = -0.5
            c["replace"] = "-1/2"
        else:
            v = rng.choice([F(-1, 8), F(9, 8), F(2), F(-1)])
            kw[key] = float(v)
            c["phi" if key in ("phi", "dispersion") else "p"] = rat(v)
    c = {**BASE, "do": "profile", "fn": fn, "n": n, "m": m, **c}
    return attempt(c, invoke(rng, fn, n, m, kw), observe)


def unknown(rng):
    fn = rng.choice(["", "ic", "IC fixed size", "Mallows", "Euclidean", "urn"])
    kw = rng.choice([{}, {"p": 0.5}])
    c = {**BASE, "do": "profile", "fn": fn, "n": 3, "m": 4, "p": "1/2"}
    return attempt(c, invoke(rng, fn, 3, 4, kw, direct=False), observe)


def grid(rng, dim, count, tied):
    step = rng.choice([1, F(1, 2), F(1, 4)])
    span = rng.choice([2, 3]) if tied else rng.choice([5, 12, 40])
    return [[F(rng.randint(-span, span)) * step for _ in range(dim)] for _ in range(count)]


def distribution(rng, dim=None):
    name = rng.choice([d for d in DISTS if dim is None or DISTS[d] == dim])
    d = DISTS[name]
    center = [F(rng.randint(-8, 8), 2) for _ in range(d)]
    if rng.random() < 0.3:
        center = [center[0]] * d
        raw = float(center[0])
    else:
        raw = rng.choice([list, tuple, np.array])([float(x) for x in center])
    sigma = rng.choice([F(1, 4), F(1, 1024), F(2), F(1, 2 ** 20)])
    width = rng.choice([F(1), F(3), F(1, 2), F(1, 1024)])
    if name in ("1d_gaussian_interval", "2d_gaussian_disc"):
        sigma = rng.choice([width / 4, width / 1024, width / 8])
    kw = {"center_point": raw, "sigma": float(sigma), "width": float(width)}
    if rng.random() < 0.2:
        del kw["width"]
        width = F(1)
        if name in ("1d_gaussian_interval", "2d_gaussian_disc"):
            sigma = F(1, 8)
            kw["sigma"] = 0.125
    if rng.random() < 0.2 and name not in ("1d_gaussian_interval", "2d_gaussian_disc"):
        del kw["sigma"]
        sigma = F(0.15)
    if rng.random() < 0.2:
        del kw["center_point"]
        center = [F(1, 2)] * d
    side = {"given": [], "dist": name, "center": [rat(x) for x in center], "sigma": rat(sigma), "width": rat(width)}
    return side, name, kw


def side(rng, dim, count, tied):
    """one side of a spatial model: description, how to build the distribution, the points to pass"""
    if rng.random() < 0.6:
        pts = grid(rng, dim, count, tied)
        raw = [[float(x) for x in p] for p in pts]
        form = rng.choice(["lists", "tuples", "array"])
        raw = raw if form == "lists" else [tuple(p) for p in raw] if form == "tuples" else np.array(raw)
        return {**NONE, "given": [[rat(x) for x in p] for p in pts]}, None, raw
    s, name, kw = distribution(rng, dim)
    return s, (name, kw), None


def spatial(rng):
    fn = rng.choice(["Euclidean VCR", "Euclidean fixed-size", "Euclidean Threshold"])
    n, m, dim = rng.choice([1, 2, 5]), rng.choice([1, 2, 4, 7]), rng.choice([1, 1, 2, 2, 3])
    tied = rng.random() < 0.5
    cdim, cn, cm = dim, n, m
    bad = rng.random()
    if bad < 0.04:
        cdim = dim % 3 + 1
    elif bad < 0.07:
        cn = n + rng.choice([-1, 1])
    elif bad < 0.10:
        cm = m + rng.choice([-1, 1])
    vs, vdist, vpts = side(rng, dim, max(cn, 1), tied)
    cs, cdist, cpts = side(rng, cdim, max(cm, 1), tied)
    if not vs["dist"]:
        vs["given"] = points(vpts)
    if not cs["dist"]:
        cs["given"] = points(cpts)
    c = {**BASE, "do": "profile", "fn": fn, "n": n, "m": m, "vs": vs, "cs": cs}
    c["exact"] = not vs["dist"] and not cs["dist"]
    kw = {}
    if fn == "Euclidean fixed-size":
        c["setsize"] = kw["setsize"] = rng.choice([0, 1, m, rng.randint(0, m), rng.randint(0, m)])
        if bad > 0.97:
            c["setsize"] = kw["setsize"] = rng.choice([-1, m + 1])
    elif fn == "Euclidean Threshold":
        t = rng.choice([F(1), F(1), F(2), F(3, 2), F(5, 4), F(5)])
        if bad > 0.95:
            t = rng.choice([F(1, 2), F(0), F(-1), F(7, 8)])
        kw["threshold"], c["threshold"] = num(rng, t), rat(t)
        c["exact"] = c["exact"] and (dim == 1 or t == 1)
    else:
        for name, key, count in (("voter_radius", "vr", n), ("candidate_radius", "cr", m)):
            if rng.random() < 0.5:
                r = F(rng.choice([0, 1, 2, 3, 5, 10]), rng.choice([1, 2]))
                kw[name], c[key] = num(rng, r), {"one": True, "v": [rat(r)]}
            else:
                k = count if bad < 0.95 else count + rng.choice([-1, 1])
                r = [F(rng.choice([0, 1, 2, 3, 5, 10]), rng.choice([1, 2])) for _ in range(k)]
                kw[name] = rng.choice([list, tuple, np.array])([float(x) for x in r])
                c[key] = {"one": False, "v": [rat(x) for x in r]}
    if not vs["dist"]:
        kw["voter_points"] = vpts
    if not cs["dist"]:
        kw["candidate_points"] = cpts
    if rng.random() < 0.02:
        d = rng.choice(["voter_points", "candidate_points"])
        if d in kw:
            del kw[d]
            c["vs" if d == "voter_points" else "cs"] = NONE
    wrong = rng.random() < 0.04

    def go():
        for dist, s, name in ((vdist, vs, "voter_prob_distribution"), (cdist, cs, "candidate_prob_distribution")):
            kw[name] = PPD(dist[0], **dist[1]) if dist else None
        return invoke(rng, fn, n, m, {**kw, "return_points": True})()

    if wrong and (vdist or cdist):
        s, d = (vs, vdist) if vdist else (cs, cdist)
        s["dist"] = rng.choice(["2d_cube", "1d_disc", "4d_cube", "2d_Square"])
        k = int(s["dist"][0])
        s["center"] = [rat(F(1))] * k
        d[1]["center_point"] = [1.0] * k
        new = (s["dist"], d[1])
        vdist, cdist = (new, cdist) if vdist else (vdist, new)

    def post(r):
        prof, vp, cp = r
        return {**observe(prof), "V": points(vp), "C": points(cp)}
    return attempt(c, go, post)


def without_points(rng):
    """return_points is off by default: the profile alone is returned"""
    c = {**BASE, "do": "profile", "fn": "Euclidean VCR", "n": 3, "m": 3, "exact": True}
    v, k = grid(rng, 1, 3, True), grid(rng, 1, 3, True)
    c["vs"] = {**NONE, "given": [[rat(x) for x in p] for p in v]}
    c["cs"] = {**NONE, "given": [[rat(x) for x in p] for p in k]}
    c["V"], c["C"] = c["vs"]["given"], c["cs"]["given"]
    c["vr"], c["cr"] = {"one": True, "v": ["1/1"]}, {"one": True, "v": ["0/1"]}
    kw = {"voter_prob_distribution": None, "candidate_prob_distribution": None, "voter_radius": 1, "candidate_radius": 0,
          "voter_points": [[float(x) for x in p] for p in v], "candidate_points": [[float(x) for x in p] for p in k]}
    if rng.random() < 0.5:
        kw["return_points"] = False
    return attempt(c, invoke(rng, "Euclidean VCR", 3, 3, kw), observe)


def point(rng):
    s, name, kw = distribution(rng)
    if rng.random() < 0.25:
        r = rng.random()
        if r < 0.5:
            k = len(s["center"]) + rng.choice([-1, 1])
            s["center"] = ["1/1"] * k
            kw["center_point"] = [1.0] * k
        else:
            name = rng.choice(["cube", "2d_cube", "disc", "d2_disc", "1d_", "", "one_interval", "4d_cube"])
            s["dist"] = name or "none"
            kw.pop("center_point", None)
    c = {**BASE, "do": "point", "fn": "random_point", "vs": s}

    def go():
        d = PPD(name, **kw)
        return d.dimension, [G.random_point(d) for _ in range(8)]
    return attempt(c, go, lambda r: {"dim": r[0], "V": points(r[1])})


# ------------------------------------------------------------------ frequencies
def count(rng, which):
    fn, ev = which
    c = {**BASE, "do": "count", "fn": fn, "ev": ev, "sets": [], "counts": [], "N": 0, "root": ""}
    m = 5
    if ev == "repeat":
        N, m = 1500, 40
        r = rng.choice([F(1), F(2), F(1, 2), F(5)])
        c["replace"] = rat(r)
        kw = {"replace": num(rng, r), **({"p": 0.5} if fn == "Urn" else {"setsize": 20})}
        c["p"] = "1/2"

        def go():
            k = 0
            for _ in range(N):
                a, b = G.random_profile(2, m, {"id": fn, **kw})
                k += a.approved == b.approved
            return [k]
        c.update(N=N, m=m, n=2)
        return attempt(c, go, lambda r: {"counts": r})
    N = 20000
    if fn == "Noise":
        m = rng.choice([3, 4])
        p = rng.choice([F(1, 4), F(1, 2), F(3, 4)]) if m == 4 else rng.choice([F(1, 2), F(3, 4), F(7, 8)])
        d = rng.choice(["hamming", "jaccard", "zelinka", "bunke-shearer"])
        root = F(1, 2) if d in ("jaccard", "bunke-shearer") else rng.choice([F(15, 16), F(7, 8)])
        kw = {"p": float(p), "phi": float(root ** 12), "distance": d}
        sets = [[x for x in range(m) if (b >> x) & 1] for b in range(2 ** m)]
        c.update(dist=d, p=rat(p), root=rat(root), sets=sets)
    elif ev == "ballot":                   # Disjoint Resampling with phi = 0
        g = rng.choice([2, 3, 4])
        m = 12
        kw = {"p": 1 / 4, "phi": 0, "num_groups": g}
        c.update(groups=g, p="1/4", phi="0/1")
    else:
        p, q = F(rng.randint(1, 7), 8), F(rng.randint(1, 7), 8)
        kw = {}
        if fn in ("IC", "Urn", "Resampling", "Disjoint Resampling"):
            kw["p"], c["p"] = float(p), rat(p)
        if fn == "Resampling":
            kw["phi"], c["phi"] = float(q), rat(q)
        if fn == "Disjoint Resampling":
            kw.update(p=1 / 4, phi=1)
            c.update(p="1/4", phi="1/1", groups=2)
        if fn in ("IC fixed-size", "Urn fixed-size", "Truncated Urn"):
            c["setsize"] = kw["setsize"] = rng.randint(1, 4)
        if "Urn" in fn:
            kw["replace"], c["replace"] = 0, "0/1"
        if fn == "Truncated Mallows":
            q = rng.choice([F(1, 2), F(1, 4), F(3, 4), F(1)])
            c["setsize"] = kw["setsize"] = 1
            kw["dispersion"], c["phi"] = float(q), rat(q)

    def go():
        prof = G.random_profile(N, m, {"id": fn, **kw})
        if len(prof) != N:
            raise AssertionError("number of voters")
        if ev == "candidate":
            k = [sum(1 for v in prof if x in v.approved) for x in range(m)]
            return {"counts": sorted(k, reverse=True) if fn == "Truncated Mallows" else k}
        seen = {}
        for v in prof:
            b = tuple(sorted(int(x) for x in v.approved))
            seen[b] = seen.get(b, 0) + 1
        sets = [tuple(s) for s in c["sets"]] or sorted(seen)
        return {"sets": [list(s) for s in sets], "counts": [seen.get(s, 0) for s in sets]}
    c.update(N=N, m=m, n=N)
    return attempt(c, go, lambda r: r)


def moments(rng, name, wide=None):
    """wide: a distribution wider (more scattered) than the default, or a narrower one"""
    for _ in range(100000):
        s, _, kw = distribution(rng, DISTS[name])
        # a truncation at four standard deviations does not show in the variance
        if s["dist"] != name or "gaussian_" in name and F(s["sigma"]) * 8 > F(s["width"]):
            continue
        size = F(s["sigma"]) / F("0.15") if "gaussian" in name else F(s["width"])
        if wide is None or (size > 1 if wide else size < 1):
            break
    else:
        raise AssertionError("no such distribution")
    N = 1500
    c = {**BASE, "do": "moments", "fn": name, "vs": s, "N": N, "sum": [], "sumsq": []}

    def go():
        f = PPD(name, **kw).prefsampling_function()
        return f(num_points=N)

    def post(pts):
        dev = [[F(float(x)) - F(y) for x, y in zip(np.atleast_1d(p), s["center"])] for p in pts]
        return {"N": len(dev), "sum": [rat(sum(d[i] for d in dev)) for i in range(len(s["center"]))],
                "sumsq": [rat(sum(d[i] ** 2 for d in dev)) for i in range(len(s["center"]))]}
    return attempt(c, go, post)


COUNTS = [(fn, "candidate") for fn in PLAIN if fn != "Noise"] + [("Noise", "ballot")] * 3 + [("Disjoint Resampling", "ballot")] \
    + [(fn, "repeat") for fn in ("Urn", "Urn fixed-size", "Truncated Urn")]
MOMENTS = list(DISTS)


def C32(ctx):
    import random

    def mixed(no, seed):
        rng = random.Random(seed)
        calls = []
        for _ in range(6):
            calls += [plain(rng) for _ in range(4)] + [spatial(rng) for _ in range(4)] + [point(rng)]
        calls += [unknown(rng), without_points(rng)]
        return [{"id": f"m{no}", "kind": "generators", "calls": calls}]

    def large(no, seed):
        rng = random.Random(seed)
        calls = [count(rng, COUNTS[no % len(COUNTS)])]
        if no % len(COUNTS) < len(MOMENTS):
            calls.append(moments(rng, MOMENTS[no % len(COUNTS)]))
        return [{"id": f"f{no}", "kind": "generators", "calls": calls}]
    def spread(no, seed):
        rng = random.Random(seed)
        return [{"id": f"s{no}", "kind": "generators", "calls": [moments(rng, MOMENTS[no % len(MOMENTS)], [True, False, None, True][no // len(MOMENTS) % 4])]}]
    base = ctx.rng().random()
    for no in range(8 * len(MOMENTS) * ctx.scale):
        if ctx.mine(no):
            yield lambda no=no: spread(no, f"{base}/s{no}")
    for no in range(2 * len(COUNTS) * ctx.scale):
        if ctx.mine(no):
            yield lambda no=no: large(no, f"{base}/f{no}")
    for no in range(200 * ctx.scale):
        if ctx.mine(no):
            yield lambda no=no: mixed(no, f"{base}/{no}")
