"""Circuits with all their satisfying assignments (as far as named), for the analysis of the whole proof system."""
from prover import *
def v(F, *names): return [F.var(x) for x in names]
def k(F, *vals): return [F.const(x) if isinstance(x, int) else F.var(x) if isinstance(x, str) else x for x in vals]
L1 = (1, 0, 0, 0)
class Inst:
    def __init__(self, name, circ, trace, consts, ext=1, steps=(3, 1), queries=(5, 2), slow=False, chunk=None, bad=((0, 1),)):
        self.name, self.circ, self.trace, self.consts, self.ext, self.steps, self.queries, self.slow, self.chunk = name, circ, trace, consts, ext, list(steps), list(queries), slow, chunk; self.bad = bad
def sq(F): return Circ(F, 2, 2, 2).identity(sub(mul(a(0), a(0)), a(1)))
def sq_t(F):
    x = v(F, "t0", "t1", "t2", "t3"); return [x, [fmul(y, y) for y in x]]
def pubs(F):
    C = Circ(F, 2, 3, 2); x = C.e(add(mul(a(0), a(1)), c(1)))
    C.public("cmP", 1, 2).public("imP", x, 3)
    return C.identity(mul(c(1), sub(a(1), pb(0)))).identity(mul(c(2), sub(e(x), pb(1)))).identity(sub(a(1), a(0)))
def pubs_t(F): return [v(F, "t0", "t1", "t2", "t3") for _ in range(2)]
def pubs0_t(F): return [k(F, "t0", "t1", 0, 0) for _ in range(2)]
def fib(F):
    C = Circ(F, 2, 2, 2).public("cmP", 0, 0).public("cmP", 1, 3)
    return C.identity(mul(sub(n("1"), c(1)), sub(a(0, True), a(1)))).identity(mul(sub(n("1"), c(1)), sub(sub(a(1, True), a(0)), a(1)))).identity(mul(c(0), sub(a(0), pb(0)))).identity(mul(c(1), sub(a(1), pb(1))))
def fib_t(F):
    x, y = v(F, "t0", "t1"); A, B = [], []
    for i in range(4): A.append(x); B.append(y); x, y = y, fadd(x, y)
    return [A, B]
def shift(F): return Circ(F, 2, 2, 2).identity(sub(a(0, True), a(1)))
def shift_t(F):
    x = v(F, "t0", "t1", "t2", "t3"); return [x, x[1:] + x[:1]]
def inter(F):
    C = Circ(F, 2, 2, 4); x = C.e(mul(a(0), a(1), a(2)))
    return C.identity(sub(mul(e(x), a(0)), a(3))).identity(mul(e(x, True), sub(mul(e(x), a(0)), a(3))))
def inter_t(F):
    x = [v(F, *("%s%d" % (q, i) for i in range(4))) for q in "tuw"]
    return x + [[fmul(fmul(fmul(p, p), q), r) for p, q, r in zip(*x)]]
def quart(F): return Circ(F, 2, 2, 4).identity(sub(mul(mul(a(0), a(0)), mul(a(0), a(0))), a(1))).identity(sub(mul(mul(a(2), a(2)), mul(a(2), a(0))), a(3)))
def quart_t(F):
    x = v(F, "t0", "t1", "t2", "t3"); y = v(F, "u0", "u1", "u2", "u3"); c = lambda z: fmul(fmul(z, z), z)
    return [x, [fmul(c(z), z) for z in x], y, [fmul(c(z), w) for z, w in zip(y, x)]]
def linear(F): return Circ(F, 2, 2, 2).identity(sub(a(1), add(a(0), c(1))))
def linear_t(F):
    x = v(F, "t0", "t1", "t2", "t3"); return [x, [fadd(p, q) for p, q in zip(x, v(F, "k0", "k1", "k2", "k3"))]]
def perm(F): return Circ(F, 2, 2, 2).permutation([a(0)], [a(1)])
def perm_t(F):
    x = v(F, "t0", "t1", "t2", "t3"); return [x, [x[i] for i in (2, 0, 3, 1)]]
def perm2(F): return Circ(F, 2, 2, 6).permutation([a(0), a(1)], [a(2), a(3)], a(4), a(5)).identity(mul(a(4), sub(a(4), n("1")))).identity(mul(a(5), sub(a(5), n("1"))))
def perm2_t(F):
    x = v(F, "t0", "t1", "t2", "t3"); y = v(F, "u0", "u1", "u2", "u3"); z = v(F, "r0", "r1")
    return [x, y, [x[3], z[0], x[0], x[1]], [y[3], z[1], y[0], y[1]], k(F, 1, 1, 0, 1), k(F, 1, 0, 1, 1)]
def conn(F): return Circ(F, 2, 4, 3).connection([a(0), a(1), a(2)], [c(1), c(2), c(3)]).identity(sub(mul(a(0), a(1)), a(2)))
KS = 12275445934081160404; W4 = None
def conn_cells(nc, cyc, w):
    """Identity columns of a copy constraint with the given cycles of (row, column)."""
    ks = [1] + [pow(KS, i, P) for i in range(1, nc)]
    s = [[ks[j] * pow(w, i, P) % P for i in range(4)] for j in range(nc)]
    for cy in cyc:
        for p, q in zip(cy, cy[1:] + cy[:1]): s[p[1]][p[0]] = ks[q[1]] * pow(w, q[0], P) % P
    return s
def conn_t(F):
    # a2 = a0*a1 per row; a2[0] = a0[1] = a1[3]; a0[0] = a1[1]
    x, y, z, q, r = v(F, "t0", "u0", "u2", "t2", "t3"); m = fmul(x, y)
    A = [x, m, q, r]; B = [y, x, z, m]
    return [A, B, [fmul(p, s) for p, s in zip(A, B)]]
CYC = [[(0, 2), (1, 0), (3, 1)], [(0, 0), (1, 1)]]
def look(F): return Circ(F, 2, 2, 2).lookup([a(0)], [c(1)]).identity(sub(mul(a(0), a(0)), a(1)))
def look_t(F):
    x = k(F, 9, 5, 5, 7); return [x, [fmul(y, y) for y in x]]
def look2(F): return Circ(F, 2, 4, 3).lookup([a(0), a(1)], [c(1), c(2)], a(2), c(3))
def look2_t(F): return [k(F, "k1", "k0", "z0", "k1"), k(F, "m1", "m0", "z1", "m1"), k(F, 1, 1, 0, 1)]
def lookself(F): return Circ(F, 2, 2, 3).lookup([a(0)], [a(1)]).lookup([a(2)], [c(1)]).permutation([a(0)], [a(1)])
def lookself_t(F):
    x = v(F, "t0", "t1", "t2", "t3"); return [x, [x[i] for i in (1, 3, 0, 2)], k(F, "k3", "k0", "k3", "k3")]
def mixed(F):
    C = Circ(F, 2, 5, 4).public("cmP", 0, 1); x = C.e(mul(a(0), a(1)))
    return C.identity(sub(e(x), a(2))).lookup([a(3)], [c(4)]).connection([a(0), a(1), a(2)], [c(1), c(2), c(3)]).identity(mul(c(0), sub(a(0, True), pb(0))))
def mixed_t(F): return conn_t(F) + [k(F, "k1", "k1", "k3", "k0")]
def instances():
    ones = lambda F: []
    c0 = lambda F: k(F, *L1)
    kk = lambda F: k(F, "k0", "k1", "k2", "k3")
    I2 = lambda *i: (lambda F: [c0(F)] + [k(F, *[1 if r == j else 0 for r in range(4)]) for j in i])
    w4 = pow(7, (P - 1) // 4, P)
    def cc(w): return lambda F: [c0(F)] + [k(F, *col) for col in conn_cells(3, CYC, w)]
    return [Inst("square", sq, sq_t, lambda F: [c0(F), kk(F)]), Inst("square, extension 2", sq, sq_t, lambda F: [c0(F), kk(F)], 2, (4, 2, 1), (13, 6)),
        Inst("square, one layer", sq, sq_t, lambda F: [c0(F), kk(F)], 1, (3,), (7,)), Inst("square, split into pieces of two rows", sq, sq_t, lambda F: [c0(F), kk(F)], 1, (3, 2), (4, 3, 6), chunk=2),
        Inst("publics", pubs, pubs_t, I2(2, 3)), Inst("publics, zero ones among them", pubs, pubs0_t, I2(2, 3)), Inst("fibonacci", fib, fib_t, I2(3)), Inst("next row", shift, shift_t, lambda F: [c0(F), kk(F)], 1, (3, 2, 1), (1,)), Inst("next row, split into pieces of three rows", shift, shift_t, lambda F: [c0(F), kk(F)], 1, (3, 1), (1, 4), chunk=3),
        Inst("linear", linear, linear_t, lambda F: [c0(F), kk(F)]), Inst("intermediate columns", inter, inter_t, lambda F: [c0(F), kk(F)], 1, (3, 1), (6,)), Inst("intermediate columns, extension 2", inter, inter_t, lambda F: [c0(F), kk(F)], 2, (4, 2), (9,)),
        Inst("quotient in three pieces", quart, quart_t, lambda F: [c0(F), kk(F)], 2, (4, 2), (9,)),
        Inst("permutation", perm, perm_t, lambda F: [c0(F), kk(F)]), Inst("permutation with selectors", perm2, perm2_t, lambda F: [c0(F), kk(F)], 1, (3, 1), (0,)),
        Inst("connection", conn, conn_t, cc), Inst("lookup", look, look_t, lambda F: [c0(F), k(F, 5, 7, 3, 9)]),
        Inst("lookup with selectors", look2, look2_t, lambda F: [c0(F), k(F, "k0", "k1", "k2", "k3"), k(F, "m0", "m1", "m2", "m3"), k(F, 1, 1, 0, 1)], 1, (3, 1), (2,)),
        Inst("two lookups and a permutation", lookself, lookself_t, lambda F: [c0(F), kk(F)], 1, (3, 1), (2,)),
        Inst("mixed", mixed, mixed_t, lambda w: (lambda F: cc(w)(F) + [kk(F)]), 1, (3, 1), (5,))]
