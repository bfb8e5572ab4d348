"""Bounds of a linear form over a polyhedron given by bounds of its variables and linear inequalities (exact rationals)."""
from fractions import Fraction as Q
def maximum(obj, box, cons):
    """max of sum obj[v]*v over box[v] = (lo, hi) and cons = [(coefficients, bound)] meaning sum <= bound.
    None: the polyhedron is empty."""
    vs = sorted(box, key=repr); n = len(vs); ix = {v: i for i, v in enumerate(vs)}
    rows = []
    for v in vs:
        r = [0] * n; r[ix[v]] = 1
        rows.append((r, box[v][1] - box[v][0]))
        if box[v][1] < box[v][0]: return None
    for c, b in cons:
        r = [0] * n; s = b
        for v, k in c.items():
            r[ix[v]] += k; s -= k * box[v][0]
        if any(r): rows.append((r, s))
        elif s < 0: return None
    m = len(rows)
    # columns: n variables, m slacks, one artificial for the first phase
    N = n + m + 1
    T = []
    for i, (r, b) in enumerate(rows):
        T.append([Q(x) for x in r] + [Q(int(i == j)) for j in range(m)] + [Q(-1), Q(b)])
    basis = [n + i for i in range(m)]
    def pivot(z, i, j):
        p = T[i][j]
        T[i] = [x / p for x in T[i]]
        for k in range(m):
            if k != i and T[k][j]:
                f = T[k][j]; T[k] = [a - f * b if b else a for a, b in zip(T[k], T[i])]
        f = z[j]
        if f: z[:] = [a - f * b if b else a for a, b in zip(z, T[i])]
        basis[i] = j
    def solve(z, cols):
        while True:
            j = next((j for j in cols if z[j] > 0), None)
            if j is None: return
            best = None
            for i in range(m):
                if T[i][j] > 0:
                    q = (T[i][-1] / T[i][j], basis[i])
                    if best is None or q < best[0]: best = (q, i)
            if best is None: raise OverflowError
            pivot(z, best[1], j)
    a = N - 1
    worst = min(range(m), key=lambda i: T[i][-1]) if m else None
    if m and T[worst][-1] < 0:
        z = [Q(0)] * (N + 1); z[a] = Q(-1)
        pivot(z, worst, a)
        solve(z, range(N))
        if -z[-1] != 0 and z[-1] != 0: return None
        if a in basis:
            i = basis.index(a); j = next((j for j in range(N - 1) if T[i][j]), None)
            if j is not None: pivot(z, i, j)
    z = [Q(0)] * (N + 1)
    for v, k in obj.items(): z[ix[v]] = Q(k)
    for i in range(m):
        f = z[basis[i]]
        if f: z = [p - f * q if q else p for p, q in zip(z, T[i])]
    solve(z, range(N - 1))
    return -z[-1] + sum(k * box[v][0] for v, k in obj.items())
