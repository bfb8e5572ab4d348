"""Hash permutations as uninterpreted functions (their definition is C04 / C05), reference encodings of rows, and digests."""
from dom import *
from aeval import *
import models as M, fieldmodels as FM

GLP = "starky::poseidon_opt::Poseidon"
CURVES = {"BN": ("starky::poseidon_bn128_opt::Poseidon", 0), "BLS": ("starky::poseidon_bls12381_opt::Poseidon", 1)}

def perm(F, name, inp, st, i):
    return F.atom(T("P_" + name, tuple(inp), st if isinstance(st, tuple) else (st,), i, w=F.nbits))
def fes(I, v): return [FM.fe(x, I=I) for x in M.items(v)]

def install(I, names):
    """Replace the permutations by uninterpreted functions of all their inputs."""
    gl = I.F["GL"]
    def h_gl(J, a, c):
        inp, st = fes(I, a[1]), fes(I, a[2]); out = I.resolve(a[3])
        if len(inp) != 8 or len(st) != 4: return M.err(Agg(None, 0, [StrObj("bad length")]))
        if not isinstance(out, int): raise Undecided("abstract output count")
        return M.ok(Vec([perm(gl, "GL", inp, tuple(st), i) for i in range(out)]))
    I.hooks[GLP + "::hash"] = h_gl
    for n in names:
        if n not in CURVES: continue
        P, oi = CURVES[n]; F = I.F[n]
        def h(J, a, c, F=F, n=n, oi=oi):
            inp = fes(I, a[1]); st = FM.fe(a[2], I=I)
            if not 1 <= len(inp) <= 16: return M.err(Agg(None, 0, [StrObj("bad length")]))
            return M.ok(perm(F, n, inp, st, oi))
        def hx(J, a, c, F=F, n=n):
            inp = fes(I, a[1]); st = FM.fe(a[2], I=I); out = I.resolve(a[3])
            if not 1 <= len(inp) <= 16: return M.err(Agg(None, 0, [StrObj("bad length")]))
            if out > len(inp) + 1: raise Panic("more outputs than the state holds")
            return M.ok(Vec([perm(F, n, inp, st, i) for i in range(out)]))
        I.hooks[P + "::hash"] = h; I.hooks[P + "::hash_ex"] = hx

def embed(F, x):
    """Canonical integer of a 64-bit field element as an element of F."""
    c, e = FM.from_int(F, FM.canon(x))
    return e
def pack(F, row):
    out = []
    for i in range(0, len(row), 3):
        e = F.zero
        for j, x in enumerate(row[i:i + 3]): e = fadd(e, fscale(embed(F, x), 1 << (64 * j)))
        out.append(e)
    return out
def row_hash(F, name, row):
    """Packed three to a scalar; no scalar: 0, one: itself, more: blocks of sixteen chained through the previous digest."""
    l = pack(F, row)
    if not l: return F.zero
    if len(l) == 1: return l[0]
    st = F.zero
    for i in range(0, len(l), 16): st = perm(F, name, l[i:i + 16], st, CURVES[name][1])
    return st
def sponge_gl(F, l):
    st = [F.zero] * 4
    if len(l) <= 4: return list(l) + st[len(l):]
    for i in range(0, len(l), 8):
        b = list(l[i:i + 8]); b += [F.zero] * (8 - len(b))
        st = [perm(F, "GL", b, tuple(st), k) for k in range(4)]
    return st
def row_hash_gl(F, row, bs=0):
    """Batches of max(8, ceil(n/4)) elements, each hashed by the sponge, then the sponge of the batch digests."""
    if len(row) <= 4: return sponge_gl(F, row)
    bs = bs or max(8, (len(row) + 3) // 4)
    hs = []
    for i in range(0, len(row), bs): hs += sponge_gl(F, row[i:i + bs])
    return hs if len(hs) <= 4 else sponge_gl(F, hs)

def digest(I, v):
    """The four 64-bit field elements of an ElementDigest."""
    v = I.unphi(v)
    while type(v) is Ref: v = I.unphi(v.get())
    l = M.items(v.f[0])
    if len(l) != 4: raise Undecided("digest of %d limbs" % len(l))
    return [FM.fe(x, I=I) for x in l]
def digest_scalar(I, F, v):
    """The scalar whose representation the four limbs hold."""
    limbs = [FM.canon(x) for x in digest(I, v)]
    c, e = FM.from_int(F, FM.join_limbs(limbs), True)
    return e
FR = {"GL": "fields::field_gl::Fr", "BN": "starky::field_bn128::Fr", "BLS": "starky::field_bls12381::Fr"}
ED = "<starky::digest::ElementDigest<N, F> as starky::traits::MTNodeType>::"
def mkdigest(I, fname, limbs):
    return I.invoke(ED + "new", [SRef(list(limbs), 0, len(limbs))], ["4", FR[fname]])
def scalar_digest(I, fname, e):
    """The digest holding the representation of a scalar."""
    gl = I.F["GL"]
    limbs = [FM.from_int(gl, l)[1] for l in FM.limbs_of(e.F, FM.raw(e))]
    return mkdigest(I, fname, limbs)
