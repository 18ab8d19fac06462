"""Exact linear feasibility: a solution of A x <= / == b, x >= 0 or a Farkas certificate.  The results are
certificates that the specification checks; nothing is trusted here."""
from fractions import Fraction as F


def feasible(rows, nvar):
    """rows: list of (coeffs dict, op, rhs) with op '=' or '<='.  Returns ('x', values) or ('y', multipliers)
    where multipliers y (y >= 0 for '<=' rows) satisfy y^T A >= 0 and y^T b < 0."""
    m = len(rows)
    slack = sum(1 for _, op, _ in rows if op == "<=")
    n = nvar + slack + m
    T = []
    s = 0
    sign = []
    for i, (co, op, rhs) in enumerate(rows):
        r = [F(0)] * (n + 1)
        for j, a in co.items():
            r[j] = F(a)
        if op == "<=":
            r[nvar + s] = F(1)
            s += 1
        r[n] = F(rhs)
        sg = 1
        if r[n] < 0:
            r = [-a for a in r]
            sg = -1
        sign.append(sg)
        r[nvar + slack + i] = F(1)
        T.append(r)
    basis = [nvar + slack + i for i in range(m)]
    # minimise the sum of the artificial variables: reduced costs
    z = [F(0)] * (n + 1)
    for r in T:
        for j in range(n + 1):
            z[j] -= r[j]
    for i in range(m):
        z[nvar + slack + i] = F(0)
    while True:
        e = next((j for j in range(nvar + slack) if z[j] < 0), None)      # Bland
        if e is None:
            break
        best, l = None, None
        for i in range(m):
            if T[i][e] > 0:
                q = T[i][n] / T[i][e]
                if best is None or q < best or (q == best and basis[i] < basis[l]):
                    best, l = q, i
        assert l is not None
        p = T[l][e]
        T[l] = [a / p for a in T[l]]
        for i in range(m):
            if i != l and T[i][e] != 0:
                f = T[i][e]
                T[i] = [a - f * b if b else a for a, b in zip(T[i], T[l])]
        f = z[e]
        z = [a - f * b if b else a for a, b in zip(z, T[l])]
        basis[l] = e
    if z[n] == 0:
        x = [F(0)] * n
        for i, b in enumerate(basis):
            x[b] = T[i][n]
        if all(x[nvar + slack + i] == 0 for i in range(m)):
            return "x", x[:nvar]
    # dual values: cost 1 of artificial i minus its reduced cost
    y = [-(F(1) - z[nvar + slack + i]) * sign[i] for i in range(m)]
    return "y", y


def price_certificate(el, W, stable):
    """a price system for committee W, or multipliers that exclude one"""
    m, n = el.m, len(el.A)
    W = set(W)
    approved = set(c for a in el.A for c in a)
    if len(approved) < len(W):
        return {"kind": "few"}
    pay = {}
    for v, a in enumerate(el.A):
        for c in a:
            if c in W:
                pay[v, c] = len(pay) + 1
    nv = 1 + len(pay)
    off = {v: nv + v for v in range(n)} if stable else {}
    rows, tags = [], []
    for c in sorted(W):
        rows.append(({pay[v, c]: 1 for v in range(n) if (v, c) in pay}, "=", 1))
        tags.append(("alpha", c))
    for v in range(n):
        rows.append(({0: -el.w[v], **{j: 1 for (x, c), j in pay.items() if x == v}}, "<=", 0))
        tags.append(("beta", v))
    if stable:
        for (v, c), j in pay.items():
            rows.append(({j: 1, off[v]: -1}, "<=", 0))
            tags.append(("delta", v, c))
        for v in range(n):
            rows.append(({0: el.w[v], off[v]: -1, **{j: -1 for (x, c), j in pay.items() if x == v}}, "<=", 0))
            tags.append(("eps", v))
    for d in range(m):
        if d in W:
            continue
        N = [v for v in range(n) if d in el.A[v]]
        if stable:
            co = {off[v]: 1 for v in N}
        else:
            co = {0: sum((el.w[v] for v in N), F(0))}
            for (v, c), j in pay.items():
                if v in N:
                    co[j] = -1
        rows.append((co, "<=", 1))
        tags.append(("gamma", d))
    kind, sol = feasible(rows, nv + len(off))
    r = lambda x: f"{F(x).numerator}/{F(x).denominator}"
    if kind == "x":
        p = [[r(sol[pay[v, c]]) if (v, c) in pay else "0/1" for c in range(m)] for v in range(n)]
        return {"kind": "system", "b": r(sol[0]), "p": p}
    y = {"alpha": ["0/1"] * m, "beta": ["0/1"] * n, "gamma": ["0/1"] * m, "eps": ["0/1"] * n,
         "delta": [["0/1"] * m for _ in range(n)]}
    for t, val in zip(tags, sol):
        if t[0] == "delta":
            y["delta"][t[1]][t[2]] = r(val)
        else:
            y[t[0]][t[1]] = r(val)
    return {"kind": "farkas", "y": y}
