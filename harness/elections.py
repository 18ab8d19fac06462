"""Generators of approval elections (no knowledge of the code under test).

An election is (m, A, w, k): number of candidates, list of sorted approval lists, list of positive
Fractions, committee size.
"""
import itertools
from fractions import Fraction as F


class El:
    __slots__ = ("m", "A", "w", "k", "fam")

    def __init__(self, m, A, w, k, fam=""):
        self.m = m
        self.A = [sorted(a) for a in A]
        self.w = [F(x) for x in w]
        self.k = k
        self.fam = fam

    @property
    def unit(self):
        return all(x == 1 for x in self.w)

    def rec(self):
        return {"m": self.m, "A": self.A, "w": [rat(x) for x in self.w], "k": self.k}

    def key(self):
        return (self.m, tuple(map(tuple, self.A)), tuple(self.w), self.k)

    def with_(self, **kw):
        d = dict(m=self.m, A=self.A, w=self.w, k=self.k, fam=self.fam)
        d.update(kw)
        return El(**d)


def rat(x):
    x = F(x)
    return f"{x.numerator}/{x.denominator}"


def subsets(m):
    return [[c for c in range(m) if (b >> c) & 1] for b in range(2**m)]


def exhaustive(m, n):
    """All unit-weight elections with m candidates and n voters up to the order of voters, all k."""
    for ballots in itertools.combinations_with_replacement(subsets(m), n):
        for k in range(1, m + 1):
            yield El(m, ballots, [1] * n, k, f"all{m}x{n}")


def exhaustive_upto(ms, ns):
    for m in ms:
        for n in ns:
            yield from exhaustive(m, n)


# ------------------------------------------------------------------ random families
def pick_k(rng, m, kmax=None):
    top = min(m, kmax or m)
    r = rng.random()
    if r < 0.12:
        return 1
    if r < 0.2:
        return top
    return rng.randint(1, top) if top < 3 else rng.choice([2, 2, 3, 3, min(4, top), rng.randint(1, top)])


def iid(rng, m, n, p):
    return [[c for c in range(m) if rng.random() < p] for _ in range(n)]


def fam_small(rng, big=False):
    m = rng.randint(2, 6)
    n = rng.randint(1, 7)
    return m, iid(rng, m, n, rng.choice([0.25, 0.4, 0.5, 0.65]))


def fam_party(rng, big=False):
    m = rng.randint(2, 7)
    cs = list(range(m))
    rng.shuffle(cs)
    parties, i = [], 0
    while i < m:
        s = rng.randint(1, 3)
        parties.append(cs[i:i + s])
        i += s
    n = rng.randint(1, 14)
    return m, [list(rng.choice(parties)) for _ in range(n)]


def fam_types(rng, big=False):
    """few ballot types, many copies"""
    m = rng.randint(3, 6)
    t = rng.randint(2, 4)
    types = iid(rng, m, t, rng.choice([0.3, 0.5]))
    n = rng.randint(4, 24)
    return m, [list(rng.choice(types)) for _ in range(n)]


def fam_sparse(rng, big=False):
    """empty ballots, unapproved candidates, fewer approved candidates than seats"""
    m = rng.randint(2, 7)
    pool = rng.sample(range(m), rng.randint(0, max(0, m - 2)))
    n = rng.randint(1, 6)
    return m, [[c for c in pool if rng.random() < 0.55] for _ in range(n)]


def fam_dense(rng, big=False):
    m = rng.randint(2, 6)
    n = rng.randint(1, 6)
    return m, iid(rng, m, n, 0.85)


def fam_manycand(rng, big=False):
    """two-digit candidate numbers"""
    m = rng.randint(9, 13)
    n = rng.randint(2, 6)
    return m, iid(rng, m, n, rng.choice([0.15, 0.25, 0.4]))


def fam_cyclic(rng, big=False):
    """symmetric profiles with many exact ties"""
    m = rng.randint(3, 6)
    s = rng.randint(1, m - 1)
    A = [sorted({(c + i) % m for i in range(s)}) for c in range(m)]
    for _ in range(rng.randint(0, 2)):
        A.append([rng.randrange(m)])
    return m, A


def fam_blocks(rng, big=False):
    """two blocks of ballots with equal total scores but different sizes (float-critical ties)"""
    m = rng.randint(3, 7)
    A = []
    for c in range(m):
        for _ in range(rng.choice([1, 2, 3, 3, 6])):
            A.append([c] + [d for d in range(m) if d != c and rng.random() < 0.3])
    return m, A


def fam_nested(rng, big=False):
    """laminar/threshold ballots"""
    m = rng.randint(3, 6)
    n = rng.randint(2, 7)
    return m, [list(range(rng.randint(0, m))) if rng.random() < 0.5 else list(range(rng.randint(0, m - 1), m))
               for _ in range(n)]


def fam_many_voters(rng, big=False):
    m = rng.randint(3, 5)
    n = rng.randint(18, 40)
    return m, iid(rng, m, n, rng.choice([0.3, 0.5]))


def fam_long(rng, big=False):
    """few voters who approve most of many candidates: late rounds and high satisfaction levels"""
    m = rng.randint(8, 9)
    n = rng.randint(2, 5)
    return m, iid(rng, m, n, rng.choice([0.6, 0.75, 0.9]))


def fam_large(rng, big=False):
    m = rng.randint(14, 24)
    n = rng.randint(15, 50)
    return m, iid(rng, m, n, rng.choice([0.1, 0.2, 0.4]))


def fam_deep(rng, big=False):
    """similar large ballots: committees that differ only in the high satisfaction levels"""
    m = rng.randint(5, 8)
    n = rng.randint(2, 6)
    p = rng.choice([0.6, 0.75, 0.85, 0.95])
    base = [c for c in range(m) if rng.random() < p]
    A = iid(rng, m, n, p)
    for i in range(n):
        if rng.random() < 0.4:                # differs from a common ballot in one candidate
            A[i] = sorted(set(base) ^ {rng.randrange(m)})
    return m, A


def fam_midlarge(rng, big=False):
    """more candidates, voters and seats than the small families (one universe or one optimum at a time)"""
    m = rng.randint(8, 12)
    n = rng.randint(10, 26)
    return m, iid(rng, m, n, rng.choice([0.15, 0.25, 0.4, 0.6]))


def fam_crowd(rng, big=False):
    """more than a hundred voters"""
    m = rng.randint(3, 6)
    return m, iid(rng, m, rng.randint(60, 140), rng.choice([0.2, 0.4, 0.6]))


def fam_few(rng, big=False):
    """fewer voters than their weights (see weight mode heavy)"""
    m, n = rng.randint(2, 5), rng.randint(1, 4)
    if rng.random() < 0.5:                   # voters compete for the seats
        return m, [[rng.randrange(m)] if rng.random() < 0.7 else rng.sample(range(m), 2) for _ in range(n + 1)]
    return m, iid(rng, m, n, rng.choice([0.3, 0.45, 0.6]))


def fam_wide(rng, big=False):
    """more candidates than letters, bytes or machine words have"""
    m = rng.choice([27, 33, 40, 65, 70])
    n = rng.randint(2, 7)
    A = iid(rng, m, n, rng.choice([0.05, 0.1, 0.3]))
    A[0] = sorted(set(A[0]) | {m - 1})
    return m, A


FAMILIES = {
    "few": fam_few, "crowd": fam_crowd, "wide": fam_wide,
    "midlarge": fam_midlarge,
    "deep": fam_deep,
    "long": fam_long, "large": fam_large,
    "small": fam_small, "party": fam_party, "types": fam_types, "sparse": fam_sparse, "dense": fam_dense,
    "manycand": fam_manycand, "cyclic": fam_cyclic, "blocks": fam_blocks, "nested": fam_nested,
    "manyvoters": fam_many_voters,
}
WEIGHTED_CYCLE = ["small", "party", "small", "types", "sparse", "small", "dense", "cyclic", "blocks", "manycand",
                  "small", "nested", "party", "manyvoters", "types", "sparse"]

FRACS = [F(1, 2), F(1, 3), F(2, 3), F(3, 2), F(5, 2), F(1, 4), F(3, 4), F(4, 3), F(1, 6), F(1, 5), F(2, 5)]


def weights(rng, n, mode):
    if mode == "unit":
        return [F(1)] * n
    if mode == "int":
        return [F(rng.randint(1, 4)) for _ in range(n)]
    if mode == "int3":
        return [F(rng.choice([1, 1, 2, 3])) for _ in range(n)]
    if mode == "frac":
        return [rng.choice(FRACS + [F(1), F(2), F(3)]) for _ in range(n)]
    if mode == "tiny":                       # all weights below one
        return [rng.choice([F(1, 10), F(1, 7), F(2, 7), F(1, 20), F(3, 10)]) for _ in range(n)]
    if mode == "samefrac":
        x = rng.choice(FRACS)
        return [x] * n
    if mode == "avg1":                       # not unit weights, but 1 on average (if the pattern fits in)
        pat = [F(x) for x in rng.choice(["2 1/2 1/2", "1/2 3/2", "2/3 4/3", "1 3/4 5/4", "1/3 1/3 7/3", "1 1 1/2 3/2"]).split()]
        res = (pat * n)[:n - n % len(pat)] + [F(1)] * (n % len(pat))
        rng.shuffle(res)
        return res
    if mode == "oneoff":                     # a single voter has another weight
        res = [F(1)] * n
        res[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([F(2), F(1, 2), F(3), F(n), F(3, 2)])
        return res
    if mode == "extreme":                    # exact arithmetic only: tiny next to huge weights
        return [rng.choice([F(10**6), F(1, 1000), F(1), F(999999, 1000000), F(10**9 + 7), F(1, 7**6), F(355, 113)]) for _ in range(n)]
    if mode == "heavy":                      # most weights exceed the number of voters, candidates and seats
        return [F(rng.randint(1, 4 * n + 6)) for _ in range(n)]
    if mode == "big":
        return [F(rng.choice([1, 5, 10, 37, 100])) for _ in range(n)]
    raise ValueError(mode)


def stream(rng, wmodes=("unit",), families=None, mmax=99, nmax=99, kmax=99, mmin=1, kmin=1):
    """endless stream of elections, cycling through the families and weight modes"""
    fams = families or WEIGHTED_CYCLE
    i = idle = 0
    while True:
        assert idle < 5000, "no election within these bounds"
        fam = fams[i % len(fams)]
        mode = wmodes[(i // 2 + i // len(fams)) % len(wmodes)]
        i += 1
        for _ in range(50):
            m, A = FAMILIES[fam](rng)
            if mmin <= m <= mmax and len(A) <= nmax:
                break
        else:
            idle += 1
            continue
        idle = 0
        if rng.random() < 0.1:
            A = A + [[]]
        if rng.random() < 0.1:
            A = A + [list(range(m))]
        A = A[:nmax]
        if rng.random() < 0.5:               # rename candidates so that low numbers are not special
            p = list(range(m))
            rng.shuffle(p)
            A = [[p[c] for c in a] for a in A]
        k = pick_k(rng, m, kmax) if kmin == 1 else rng.randint(min(kmin, m), min(m, kmax))
        yield El(m, A, weights(rng, len(A), mode), k, fam + "/" + mode)
