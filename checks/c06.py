from dom import *
from aeval import *
import models as M, fieldmodels as FM, hashing as H
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over symbolic row elements with the permutation uninterpreted"
RULE = ("The row hashes are evaluated on rows of fully symbolic elements, for every row length from 0 to past four blocks and every way of cutting a row in pieces that the thorough tier lists; the digest must be the "
        "term obtained by packing three elements per scalar in order, sixteen scalars per block, each block chained through the previous digest (GL: eight per block, batched). Flat and piecewise hashing must give one term.")
ASSUME = ["the Poseidon permutations are those of C04 / C05", "digest limbs of a curve scalar are below the 64-bit modulus (a larger limb panics, it is never altered)"]
IMPL = {"BN": ("starky::linearhash_bn128::LinearHashBN128", "starky/src/linearhash_bn128.rs"), "BLS": ("starky::linearhash_bls12381::LinearHashBLS12381", "starky/src/linearhash_bls12381.rs")}
def pieces(n):
    yield [n]
    if n > 1: yield [1] * n; yield [n - 1, 1]; yield [1, n - 1]
    if n > 3: yield [3] * (n // 3) + ([n % 3] if n % 3 else []); yield [2] * (n // 2) + ([1] if n % 2 else [])
    if n > 5: yield [2, 0, n - 2]; yield [n // 2, n - n // 2]; yield [4] * (n // 4) + ([n % 4] if n % 4 else [])
def lengths(ctx):
    base = list(range(0, 20)) + [23, 24, 25, 44, 45, 46, 47, 48, 49, 50, 51, 52, 95, 96, 97, 99, 144, 145, 146, 150, 192, 193]
    return base if ctx.tier == "quick" else sorted(set(base + list(range(20, 200))))
def job(ctx, name):
    I = ctx.interp(("GL", "BN", "BLS"), "expand"); H.install(I, ("BN", "BLS"))
    gl = I.F["GL"]
    if name == "GL":
        P = "starky::linearhash::LinearHash"; file = "starky/src/linearhash.rs"
        me = Ref([I.invoke(P + "::new", [])], 0)
        for n in lengths(ctx):
            row = [gl.var("e%d" % i) for i in range(n)]
            def flat(bs):
                r = I.unphi(I.invoke(P + "::hash", [me, SRef(list(row), 0, n), bs]))
                if r.v: return "a row of %d elements is refused" % n
                got = H.digest(I, r.f[0]); want = H.row_hash_gl(gl, row, bs)
                if [x.d for x in got] != [x.d for x in want]: return "the digest of %d elements is not the chained hash of all of them in order" % n
            ctx.ob(file + " hash", "%d elements" % n, flat, 0)
            for bs in (8, 16, 5): ctx.ob(file + " hash", "%d elements in batches of %d" % (n, bs), flat, bs)
            def inner():
                r = I.unphi(I.invoke(P + "::_hash", [me, SRef(list(row), 0, n)]))
                got = H.digest(I, r.f[0])
                if [x.d for x in got] != [x.d for x in H.sponge_gl(gl, row)]: return "the sponge of %d elements is wrong" % n
            ctx.ob(file + " _hash", "%d elements" % n, inner)
            for k in (1, 2, 3, 4, 6):
                if n == 0 or n % k: continue
                def mat():
                    m = Vec([Vec(row[i:i + k]) for i in range(0, n, k)])
                    r = I.unphi(I.invoke(P + "::hash_element_matrix", [me, SRef(m.f, 0, n // k), 0]))
                    if [x.d for x in H.digest(I, r.f[0])] != [x.d for x in H.row_hash_gl(gl, row)]: return "%d elements given as pieces of %d hash differently" % (n, k)
                ctx.ob(file + " hash_element_matrix", "%d elements in pieces of %d" % (n, k), mat)
        return
    P, file = IMPL[name]; F = I.F[name]
    me = Ref([I.invoke(P + "::new", [])], 0)
    for n in lengths(ctx):
        row = [gl.var("e%d" % i) for i in range(n)]
        want = H.row_hash(F, name, row)
        def flat():
            r = I.unphi(I.invoke(P + "::hash_element_array", [me, SRef(list(row), 0, n)]))
            if r.v: return "a row of %d elements is refused" % n
            if H.digest_scalar(I, F, r.f[0]).d != want.d: return "the digest of a flat row of %d elements is not the chained hash of all of them in order" % n
        ctx.ob(file + " hash_element_array", "%d elements" % n, flat)
        for ps in pieces(n):
            def mat():
                m, i = [], 0
                for k in ps: m.append(Vec(row[i:i + k])); i += k
                r = I.unphi(I.invoke(P + "::hash_element_matrix", [me, SRef(m, 0, len(m))]))
                if r.v: return "a row of %d elements is refused" % n
                if FM.fe(r.f[0], I=I).d != want.d: return "the digest of %d elements in pieces of %s is not the chained hash of all of them in order" % (n, ps[:4])
            ctx.ob(file + " hash_element_matrix", "%d elements in pieces %s" % (n, ",".join(map(str, ps[:5]))), mat)
    def node():
        ds = [F.var("d%d" % i) for i in range(16)]; s = F.var("s")
        r = I.unphi(I.invoke(P + "::hash_node", [me, SRef([H.scalar_digest(I, name, d) for d in ds], 0, 16), Ref([s], 0)]))
        if H.digest_scalar(I, F, r.f[0]).d != H.perm(F, name, ds, s, H.CURVES[name][1]).d: return "the node digest is not the permutation of its sixteen children in order"
    ctx.ob(file + " hash_node", "sixteen symbolic children", node)
def run(ctx):
    ctx.parallel(job, ["GL", "BN", "BLS"])
