from dom import *
from aeval import *
import aeval, lin, fieldmodels as FM, models as M
LEVEL = "proof"
TECHNIQUE = "constant evaluation of type-checked MIR (initialisers of statics and constant accessors) against exact group orders"
RULE = ("The initialisers of the root tables, coset shift, limb offsets, identity multipliers and the field's own constants are evaluated from MIR and judged by exact orders in the multiplicative group: entry k has order 2^k and is the "
        "square of entry k+1, the second table holds inverses, the shift lies outside the 2^32 subgroup, multiplier cosets are disjoint for every column count below 2^32-1.")
ASSUME = []
p = 2**64 - 2**32 + 1
def order(x, p=p, qs=(2, 3, 5, 17, 257, 65537)):
    o = p - 1
    for q in qs:
        while o % q == 0 and pow(x, o // q, p) == 1: o //= q
    return o
def run(ctx):
    # the field's own constants, on machine representations
    I = lin.LinInterp(ctx.mir()); I.MOD = p
    ctx.interps = getattr(ctx, "interps", []) + [I]
    FR = "fields::field_gl::Fr"; file = "fields/src/field_gl.rs "; Ri = pow(2, -128, p)
    def raw(path):
        v = I.unphi(I.invoke(path, []))
        while isinstance(v, (Agg, Arr)): v = I.unphi(v.f[0])
        v = M.conc(I, v) if not isinstance(v, int) else v
        return v
    def root():
        v = raw("<%s as ff_ce::PrimeField>::root_of_unity" % FR)
        if v >= p: return "the representation is not canonical"
        if order(v * Ri % p) != 2**32: return "the root of unity has order %d, not 2^32" % order(v * Ri % p)
    ctx.ob(file + "root_of_unity", "order exactly 2^32", root)
    def gen():
        v = raw("<%s as ff_ce::PrimeField>::multiplicative_generator" % FR)
        if v >= p: return "the representation is not canonical"
        if order(v * Ri % p) != p - 1: return "the generator has order %d, not p-1" % order(v * Ri % p)
    ctx.ob(file + "multiplicative_generator", "generates the whole group", gen)
    aeval.LIN = None
    I = ctx.interp(("GL", "BN", "BLS"), "expand"); gl = I.F["GL"]; file = "starky/src/constant.rs "
    def static(n):
        v = I.invoke("<starky::constant::%s as core::ops::deref::Deref>::deref" % n, [Ref([Agg(None, 0, [])], 0)])
        while type(v) is Ref: v = v.get()
        return v
    def num(x):
        e = FM.fe(x, I=I)
        if not e.is_const(): raise Undecided("not a constant")
        return e.cval()
    tabs = []
    def mg():
        v = static("MG")
        tabs.append([[num(x) for x in M.items(t)] for t in v.f])
        w, wi = tabs[0]
        if len(w) < 33 or len(wi) < 33: return "the tables have %d and %d entries instead of 33" % (len(w), len(wi))
        for k in range(33):
            if order(w[k]) != 1 << k: return "entry %d has order %d, not 2^%d" % (k, order(w[k]), k)
            if k and pow(w[k], 2, p) != w[k - 1]: return "entry %d does not square to entry %d" % (k, k - 1)
            if w[k] * wi[k] % p != 1: return "inverse entry %d is not the inverse of entry %d" % (k, k)
    ctx.ob(file + "MG", "33 roots, each of its order, and their inverses", mg)
    def shift():
        s, si = num(static("SHIFT")), num(static("SHIFT_INV"))
        if s * si % p != 1: return "SHIFT_INV is not the inverse of SHIFT"
        if pow(s, 1 << 32, p) == 1: return "the shift lies in the subgroup of order %d" % order(s)
        if order(pow(s, 1 << 32, p)) < 2**16: return "powers of the shift fall back into the evaluation subgroups after %d steps" % order(pow(s, 1 << 32, p))
    ctx.ob(file + "SHIFT", "outside every evaluation subgroup, with its inverse", shift)
    def ks(n):
        l = [num(x) for x in M.items(I.invoke("starky::helper::get_ks", [n]))]
        if len(l) != n: return "%d multipliers instead of %d" % (len(l), n)
        seen = {1: "the identity column"}
        for i, k in enumerate(l):
            c = pow(k, 1 << 32, p)     # constant on cosets of the largest subgroup
            if k == 0 or c in seen: return "multiplier %d shares the coset of %s" % (i, seen.get(c, "zero"))
            seen[c] = "multiplier %d" % i
    for n in (1, 2, 3, 12, 64, 400): ctx.ob("starky/src/helper.rs get_ks", "%d columns" % n, ks, n)
    def kgen():
        l = [num(x) for x in M.items(I.invoke("starky::helper::get_ks", [6]))]
        o = order(pow(l[0], 1 << 32, p))
        if any(l[i] != pow(l[0], i + 1, p) for i in range(6)): raise Undecided("not a geometric sequence")
        if o < 2**20: return "the cosets repeat after %d columns" % o
    ctx.ob("starky/src/helper.rs get_ks", "geometric, with cosets distinct for every column count below 2^32-1", kgen)
    for n, F, k in (("OFFSET_2_64", "BN", 64), ("OFFSET_2_128", "BN", 128), ("OFFSET_2_192", "BN", 192), ("OFFSET_BLS12381_2_64", "BLS", 64), ("OFFSET_BLS12381_2_128", "BLS", 128), ("OFFSET_BLS12381_2_192", "BLS", 192)):
        def off():
            if num(static(n)) != pow(2, k, I.F[F].p): return "the value is not 2^%d" % k
        ctx.ob(file + n, "2^%d" % k, off)
    def workers():
        for c in (1, 2, 3, 4, 8, 64, 256):
            I.ncpu = c
            w = I.invoke("starky::constant::get_max_workers", [])
            if w < 1: return "%d workers on %d processors" % (w, c)
    ctx.ob(file + "get_max_workers", "at least one worker for every processor count", workers)
