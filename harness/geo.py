"""Exact rational geometry, independent of the code under test.

A closed polyhedron is a list of (row, is_eq): row = [c, a1..ad] means c + a.x >= 0 (or = 0).
"""
import itertools
from fractions import Fraction as F


def val(row, x):
    return row[0] + sum(row[i + 1] * x[i] for i in range(len(x)))


def inside(H, x):
    return all((val(r, x) == 0) if eq else (val(r, x) >= 0) for r, eq in H)


def strictly_inside(H, x):
    return all((not eq) and val(r, x) > 0 for r, eq in H)


# --------------------------------------------------------------------------
# exact simplex: maximise c.x over {A x <= b, E x = f}, x free
def lp_max(c, H, d):
    """Maximise c[0] + c[1:].x over the closed polyhedron H in R^d.
    Returns ("opt", value, x), ("unb", None, None) or ("inf", None, None)."""
    # variables: x = u - v*1 with a single extra variable v (u, v >= 0), slacks
    n = d + 1
    rows = []  # M y (<=|=) rhs
    for r, eq in H:
        a = [F(-t) for t in r[1:]]
        a.append(-sum(a))
        b = F(r[0])
        if eq:
            rows.append((a, b, "e"))
        else:
            rows.append((a, b, "l"))
    obj = [F(t) for t in c[1:]]
    obj.append(-sum(obj))
    m = len(rows)
    ns = sum(1 for r in rows if r[2] == "l")
    total = n + ns + m  # slack, artificial
    T = []
    basis = []
    art = []
    si = 0
    for k, (a, b, kind) in enumerate(rows):
        row = a + [F(0)] * (ns + m) + [b]
        if kind == "l":
            row[n + si] = F(1)
        neg = b < 0
        if neg:
            row = [-t for t in row]
        if kind == "l" and not neg:
            basis.append(n + si)
        else:
            row[n + ns + k] = F(1)
            basis.append(n + ns + k)
            art.append(n + ns + k)
        if kind == "l":
            si += 1
        T.append(row)

    def pivot(T, z, basis, r, col):
        pv = T[r][col]
        T[r] = [t / pv for t in T[r]]
        pr = T[r]
        for i in range(len(T)):
            if i != r and T[i][col] != 0:
                f = T[i][col]
                T[i] = [x - f * y if y else x for x, y in zip(T[i], pr)]
        f = z[col]
        if f != 0:
            z[:] = [x - f * y if y else x for x, y in zip(z, pr)]
        basis[r] = col

    def run(T, z, basis, allowed):
        # minimise: z holds reduced costs (negative -> improving), Bland's rule
        while True:
            col = next((j for j in allowed if z[j] < 0), None)
            if col is None:
                return True
            best = None
            for i in range(len(T)):
                if T[i][col] > 0:
                    q = T[i][-1] / T[i][col]
                    if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]):
                        best = (q, i)
            if best is None:
                return False
            pivot(T, z, basis, best[1], col)

    artset = set(art)
    if art:
        z = [F(0)] * (total + 1)
        for i, bi in enumerate(basis):
            if bi in artset:
                z = [x - y for x, y in zip(z, T[i])]
        for j in art:
            z[j] = F(0)
        run(T, z, basis, [j for j in range(n + ns)])
        if z[-1] != 0:
            return ("inf", None, None)
        # drive artificials out
        keep = []
        for i in range(len(T)):
            if basis[i] in artset:
                col = next((j for j in range(n + ns) if T[i][j] != 0), None)
                if col is None:
                    continue
                pivot(T, z, basis, i, col)
            keep.append(i)
        T = [T[i] for i in keep]
        basis = [basis[i] for i in keep]
    z = [-t for t in obj] + [F(0)] * (ns + m) + [F(0)]
    for i, bi in enumerate(basis):
        if z[bi] != 0:
            f = z[bi]
            z = [x - f * y for x, y in zip(z, T[i])]
    if not run(T, z, basis, [j for j in range(n + ns)]):
        return ("unb", None, None)
    y = [F(0)] * total
    for i, bi in enumerate(basis):
        y[bi] = T[i][-1]
    x = [y[i] - y[d] for i in range(d)]
    return ("opt", c[0] + sum(F(c[i + 1]) * x[i] for i in range(d)), x)


def feasible_point(H, d):
    s, _, x = lp_max([0] * (d + 1), H, d)
    return x if s == "opt" else None


def interior_point(H, d):
    """A point strictly inside every inequality (None if there are equalities or none exists)."""
    if any(eq and any(t != 0 for t in r) for r, eq in H):
        return None
    G = [(list(r) + [-1], False) for r, eq in H if any(t != 0 for t in r)]
    G.append(([1] + [0] * d + [-1], False))
    s, v, x = lp_max([0] * (d + 1) + [1], G, d + 1)
    if s != "opt" or v <= 0:
        return None
    return x[:d]


def is_bounded(H, d):
    if feasible_point(H, d) is None:
        return True
    for i in range(d):
        for sg in (1, -1):
            c = [0] * (d + 1)
            c[i + 1] = sg
            if lp_max(c, H, d)[0] == "unb":
                return False
    return True


def solve(rows, d):
    """Unique solution of d linear equations (row.x + row0 = 0) or None."""
    M = [[F(t) for t in r[1:]] + [-F(r[0])] for r in rows]
    r = 0
    for c in range(d):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            return None
        M[r], M[p] = M[p], M[r]
        pv = M[r][c]
        M[r] = [t / pv for t in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
    for i in range(r, len(M)):
        if M[i][-1] != 0:
            return None
    return tuple(M[i][-1] for i in range(d))


def rank(rows):
    M = [[F(t) for t in r] for r in rows]
    rk = 0
    if not M:
        return 0
    for c in range(len(M[0])):
        p = next((i for i in range(rk, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        for i in range(rk + 1, len(M)):
            if M[i][c] != 0:
                f = M[i][c] / M[rk][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[rk])]
        rk += 1
    return rk


def vertices(H, d):
    """All vertices (extreme points), by brute force."""
    rows = [r for r, _ in H if any(t != 0 for t in r[1:])]
    out = set()
    for comb in itertools.combinations(rows, d):
        x = solve(comb, d)
        if x is not None and x not in out and inside(H, x):
            out.add(x)
    return out


def in_hull(pts, x):
    """Exact: is x a convex combination of pts?"""
    k = len(pts)
    if k == 0:
        return False
    d = len(x)
    H = [([0] + [1 if j == i else 0 for j in range(k)], False) for i in range(k)]
    H.append(([-1] + [1] * k, True))
    for i in range(d):
        H.append(([-x[i]] + [p[i] for p in pts], True))
    return lp_max([0] * (k + 1), H, k)[0] == "opt"


def extreme_points(pts):
    pts = list(dict.fromkeys(tuple(p) for p in pts))
    return {p for i, p in enumerate(pts) if not in_hull(pts[:i] + pts[i + 1:], p)}


def hull2d(pts):
    """Strict convex hull, counter-clockwise (exact)."""
    pts = sorted(set(tuple(p) for p in pts))
    if len(pts) <= 2:
        return pts

    def cross(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    lo, up = [], []
    for p in pts:
        while len(lo) >= 2 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    for p in reversed(pts):
        while len(up) >= 2 and cross(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]


def in_hull2d(hull, p):
    """hull: output of hull2d; is p in the closed hull?"""
    n = len(hull)
    if n == 1:
        return tuple(p) == hull[0]
    if n == 2:
        (a, b) = hull
        cr = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
        return cr == 0 and min(a, b) <= tuple(p) <= max(a, b)
    for i in range(n):
        a, b = hull[i], hull[(i + 1) % n]
        if (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) < 0:
            return False
    return True


def negate(row):
    return [-t for t in row]


def covered(P, Qs, d):
    """Is (interior of) P inside the union of Qs, up to measure zero?  Returns an uncovered interior
    point, or None when covered. P, Qs: lists of (row, eq); lower-dimensional Qs cover nothing."""
    p = interior_point(P, d)
    if p is None:
        return None
    full = [Q for Q in Qs if interior_point(Q, d) is not None]
    return _covered(P, full, d)


def _covered(P, Qs, d):
    p = interior_point(P, d)
    if p is None:
        return None
    if not Qs:
        return p
    Q = Qs[0]
    base = list(P)
    for r, _ in Q:
        w = _covered(base + [(negate(r), False)], Qs[1:], d)
        if w is not None:
            return w
        base = base + [(r, False)]
    return None
