"""Prime field operations as algebra: an element is a polynomial over atoms, its representation a tuple of limb bit vectors."""
import re
from dom import *
import aeval as A
from aeval import Agg, Arr, Vec, Ref, SRef, Phi, Opaque, ite, unit, StrObj
import models as M
import iomodels

GL_P = 2**64 - 2**32 + 1
BN_P = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BLS_P = 52435875175126190479447740508185965837690552500527637822603658699938581184513
BN_Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
BLS_Q = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab

SPECS = {
    "GL": (GL_P, 1, 64, "fields::field_gl::Fr"),
    "BN": (BN_P, 4, 254, "starky::field_bn128::Fr"),
    "BLS": (BLS_P, 4, 255, "starky::field_bls12381::Fr"),
    "EBN": (BN_P, 4, 254, "franklin_crypto::bellman::pairing::bn256::fr::Fr"),
    "EBLS": (BLS_P, 4, 255, "franklin_crypto::bellman::pairing::bls12_381::fr::Fr"),
    "SBLS": (BLS_P, 4, 255, "blstrs::scalar::Scalar"),
    "QBN": (BN_Q, 4, 254, "franklin_crypto::bellman::pairing::bn256::fq::Fq"),
    "QBLS": (BLS_Q, 6, 381, "franklin_crypto::bellman::pairing::bls12_381::fq::Fq"),
}
GENERATOR = {GL_P: 7, BN_P: 7, BLS_P: 7}
# ROOT_OF_UNITY of each field is read from the source through const_hooks / interpretation, never assumed here

def fe(v, F=None, I=None):
    """The element behind v (value or reference)."""
    while type(v) is Ref: v = v.c[v.k]
    if type(v) is Phi and I is not None: v = I.unphi(v)
    if type(v) in (FE, UFE): return v
    if v is None and F is not None: raise Undecided("uninitialised element")
    raise Undecided("not a field element: %s" % short(v))

def limbs_of(F, v):
    """Little-endian 64-bit limbs of an integer value (int or BV)."""
    if isinstance(v, int): return [(v >> (64 * i)) & (2**64 - 1) for i in range(F.limbs)]
    b = bits_of(v, 64 * F.limbs)
    return [bv(b[64 * i:64 * i + 64]) for i in range(F.limbs)]
def join_limbs(ls):
    b = ()
    for l in ls: b += bits_of(l, 64)
    return bv(b)

def canon(v): return M.field_int(v)
def raw(v):
    if v.is_const(): return v.cval() * v.F.R % v.F.p
    return canon(fscale(v, v.F.R))

def recognise(F, b):
    """Element of the same prime whose canonical bits are exactly b."""
    b0 = b[0]
    if isinstance(b0, tuple) and b0[0].op == "canon" and b0[1] == 0:
        e = b0[0].args[0]
        if e.F.p == F.p and b == bits_of(canon(e), len(b)):
            return conv(F, e)
    return None
def conv(F, e):
    """The same residue as an element of another implementation of the field."""
    if e.F is F: return e
    if e.is_const(): return F.const(e.cval())
    return F.atom(T("conv", e, w=F.nbits))
def runs(b):
    """Maximal runs (shift, term, start, length) of consecutive bits; constant bits are summed apart."""
    out = []; k = 0; i = 0; n = len(b)
    while i < n:
        x = b[i]
        if isinstance(x, int):
            k += x << i; i += 1; continue
        if isinstance(x, tuple):
            j = 1
            while i + j < n and b[i + j] == (x[0], x[1] + j): j += 1
            out.append((i, x[0], x[1], j)); i += j
        else:
            out.append((i, x, None, 1)); i += 1
    return k, out

def from_int(F, v, israw=False):
    """(condition that v < p, element)"""
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int):
        if v >= F.p: return False, None
        return True, F.const(v * F.Ri if israw else v)
    b = bits_of(v, 64 * F.limbs)
    e = recognise(F, b)
    known = e is not None
    if e is None:
        k, rs = runs(b)
        e = F.const(k)
        for sh, t, st, n in rs:
            piece = bv(((t, st + i) if st is not None else t) for i in range(n))
            e = fadd(e, fscale(F.atom(T("ofint", piece, w=F.nbits)), 1 << sh))
    if israw: e = fscale(e, F.Ri)
    if known or bmax(b) < F.p: return True, e
    # a sub-field value placed in the low bits: canonical value of a smaller field is below p
    lim = limit(b)
    if lim is not None and lim < F.p: return True, e
    return T("lt", b, bits_of(F.p, len(b))), e
def limit(b):
    """Upper bound of a bit vector that is a concatenation of canonical values."""
    tot = 0; i = 0; n = len(b)
    while i < n:
        x = b[i]
        if isinstance(x, tuple) and x[1] == 0 and x[0].op == "canon":
            e = x[0].args[0]; k = e.F.nbits
            if all(i + j < n and b[i + j] == (x[0], j) for j in range(k)):
                tot += (e.F.p - 1) << i; i += k; continue
        if isinstance(x, tuple) and x[1] == 0 and x[0].op == "Rem" and isinstance(x[0].args[1], int):
            k = (x[0].args[1] - 1).bit_length()
            if all(i + j < n and b[i + j] == (x[0], j) for j in range(k)):
                tot += (x[0].args[1] - 1) << i; i += k; continue
        if x != 0: tot += 1 << i
        i += 1
    return tot

def reduce_int(F, v):
    """v mod p of an arbitrary integer value."""
    if isinstance(v, int): return F.const(v)
    c, e = from_int(F, v)
    if c is True: return e
    return F.atom(T("mod", v, w=F.nbits))

class FieldModels:
    def __init__(self, I, F):
        self.I = I; self.F = F
        p = F.path
        rp = p + "Repr"
        self.repr_tid = I.mir.tid(rp)
        I.prefix.append(("<%s as " % p, self.trait))
        I.prefix.append(("%s::" % p, self.inherent))
        I.prefix.append(("<&%s as " % p, self.trait))
        I.prefix.append(("<&'a %s as " % p, self.trait))
        if p.startswith("franklin"):
            I.prefix.append(("<%s as " % rp, self.repr_trait))
        I.fieldmodels[p] = self
        I.fieldmodels[rp] = self
    def mkrepr(self, v):
        if self.F.path.startswith("blstrs"):
            b = bits_of(v, 256)
            return Arr([bv(b[8 * i:8 * i + 8]) for i in range(32)])
        return Agg(self.repr_tid, 0, [Arr(limbs_of(self.F, v))])
    def unrepr(self, r):
        r = self.I.unphi(M.deref(r)) if True else r
        if self.F.path.startswith("blstrs"):
            b = ()
            for x in M.items(r): b += bits_of(x, 8)
            return bv(b)
        return join_limbs(r.f[0].f)
    def trait(self, I, a, c):
        return self.method(I, a, c)
    def inherent(self, I, a, c):
        return self.method(I, a, c)
    def method(self, I, a, c):
        F = self.F
        r = c.get("r") or c["p"]
        m = A.split_path(r)[-1]
        m = re.sub(r"<.*", "", m)
        h = getattr(self, "f_" + m, None)
        if h is None: return NotImplemented
        return h(I, a, c)
    def f_add(self, I, a, c): return fadd(fe(a[0], I=I), fe(a[1], I=I))
    def f_sub(self, I, a, c): return fsub(fe(a[0], I=I), fe(a[1], I=I))
    def f_mul(self, I, a, c): return fmul(fe(a[0], I=I), fe(a[1], I=I))
    def f_neg(self, I, a, c): return fneg(fe(a[0], I=I))
    def f_div(self, I, a, c): return fmul(fe(a[0], I=I), finv(fe(a[1], I=I)))
    def f_add_assign(self, I, a, c): a[0].set(fadd(fe(a[0], I=I), fe(a[1], I=I))); return unit()
    def f_sub_assign(self, I, a, c): a[0].set(fsub(fe(a[0], I=I), fe(a[1], I=I))); return unit()
    def f_mul_assign(self, I, a, c): a[0].set(fmul(fe(a[0], I=I), fe(a[1], I=I))); return unit()
    def f_negate(self, I, a, c): a[0].set(fneg(fe(a[0], I=I))); return unit()
    def f_double(self, I, a, c):
        v = fscale(fe(a[0], I=I), 2)
        if self.F.path.startswith("blstrs"): return v
        a[0].set(v); return unit()
    def f_square(self, I, a, c):
        v = fe(a[0], I=I); v = fmul(v, v) if self.F.mode != "wrap" else fpow(v, 2)
        if self.F.path.startswith("blstrs"): return v
        a[0].set(v); return unit()
    def f_frobenius_map(self, I, a, c): return unit()
    def f_char(self, I, a, c): return NotImplemented if self.F.path.startswith("fields::") else self.mkrepr(self.F.p)
    def f_zero(self, I, a, c): return self.F.zero
    def f_one(self, I, a, c): return self.F.one
    def f_default(self, I, a, c): return self.F.zero
    def f_clone(self, I, a, c): return fe(a[0], I=I)
    def f_is_zero(self, I, a, c): return feq(fe(a[0], I=I), self.F.zero)
    def f_eq(self, I, a, c): return feq(fe(a[0], I=I), fe(a[1], I=I))
    def f_ne(self, I, a, c): return t_not(feq(fe(a[0], I=I), fe(a[1], I=I)))
    def f_cmp(self, I, a, c): return M.order(I, fe(a[0], I=I), fe(a[1], I=I))
    def f_partial_cmp(self, I, a, c): return M.some(M.order(I, fe(a[0], I=I), fe(a[1], I=I)))
    def f_inverse(self, I, a, c):
        v = fe(a[0], I=I)
        z = feq(v, self.F.zero)
        if z is True:
            return M.some(self.F.zero) if self.F.name == "GL" else M.none()
        if z is False or self.F.name == "GL": return M.some(finv(v))
        I.assumed.append((t_not(z), "inverse of a non-zero element", "inverse"))
        return M.some(finv(v))
    def f_as_int(self, I, a, c): return canon(fe(a[0], I=I))
    def f_into_repr(self, I, a, c): return self.mkrepr(canon(fe(a[0], I=I)))
    f_to_repr = f_into_repr
    def f_into_raw_repr(self, I, a, c):
        v = fe(a[0], I=I)
        if type(v) is UFE: return self.mkrepr(v.bits)
        return self.mkrepr(raw(v))
    def _from(self, I, v, israw=False):
        cnd, e = from_int(self.F, v, israw)
        if cnd is True: return M.ok(e)
        bad = M.err(Agg(None, 0, [StrObj("not in field")]))
        if cnd is False: return bad
        return ite(cnd, M.ok(e), bad)
    def f_from_repr(self, I, a, c):
        v = self.unrepr(a[0])
        r = self._from(I, v)
        if self.F.path.startswith("blstrs"):
            cnd, e = from_int(self.F, v)
            return CtOption(cnd, e)
        return r
    def f_from_raw_repr(self, I, a, c): return self._from(I, self.unrepr(a[0]), True)
    def f_from(self, I, a, c):
        tid = c["a"][1] if len(c.get("a", [])) > 1 and isinstance(c["a"][1], int) else None
        s = I.types[tid]["s"] if tid is not None else ""
        if s in ("u64", "u32", "usize", "u8", "u16"):
            cnd, e = from_int(self.F, I.resolve(M.deref(a[0])))
            if cnd is False: raise Panic("value not in field")
            if cnd is not True: I.assumed.append((cnd, "in field", "From<u64>"))
            return e
        return NotImplemented
    def f_from_str(self, I, a, c):
        s = M.sval(M.deref(a[0]))
        if isinstance(s, str):
            if s == "" or not s.isascii() or not s.isdigit() or (len(s) > 1 and s[0] == "0"): return M.none()
            return M.some(self.F.const(int(s)))
        v = M.parse_sym(I, s, 10) if hasattr(M, "parse_sym") else None
        if v is None: raise Undecided("field element from abstract string")
        return M.some(reduce_int(self.F, v))
    f_from_str_vartime = f_from_str
    def f_pow(self, I, a, c):
        e = M.items(a[1]) if not isinstance(a[1], (int, BV)) else [a[1]]
        e = [I.resolve(x) for x in e]
        if not all(isinstance(x, int) for x in e): raise Undecided("abstract exponent")
        n = sum(x << (64 * i) for i, x in enumerate(e))
        return fpow(fe(a[0], I=I), n)
    def f_exp(self, I, a, c):
        n = I.resolve(a[1])
        if not isinstance(n, int): raise Undecided("abstract exponent")
        return fpow(fe(a[0], I=I), n)
    def f_hash(self, I, a, c): return NotImplemented
    # representation types of external crates
    def repr_trait(self, I, a, c):
        m = A.split_path(c.get("r") or c["p"])[-1]
        if m in ("as_mut", "as_ref"):
            r = a[0].c[a[0].k]
            return SRef(r.f[0].f, 0, self.F.limbs)
        if m == "from": return Agg(self.repr_tid, 0, [Arr([a[0]] + [0] * (self.F.limbs - 1))])
        if m == "default": return Agg(self.repr_tid, 0, [Arr([0] * self.F.limbs)])
        if m == "clone": return A.copyval(a[0].c[a[0].k])
        return NotImplemented

class UFE(FE):
    """Element built around a representation that may be above the modulus; only the representation itself tells."""
    __slots__ = ("bits",)
class CtOption:
    """subtle::CtOption"""
    def __init__(self, c, v): self.c = c; self.v = v
    def opt(self):
        if self.c is True: return M.some(self.v)
        if self.c is False: return M.none()
        return ite(self.c, M.some(self.v), M.none())

@M.m("CtOption::is_some", "CtOption::is_none")
def ct_is(I, a, c):
    v = M.deref(a[0]).c
    return v if c["p"].endswith("is_some") else t_not(v)
@M.m("CtOption::unwrap", "CtOption::expect")
def ct_unwrap(I, a, c):
    o = M.deref(a[0])
    if o.c is False: raise Panic("unwrap of an absent value")
    if o.c is not True and I.cond_known(o.c) is not True: I.assumed.append((o.c, "unwrap of a present value", "unwrap"))
    return o.v
@M.m("CtOption::unwrap_or", "CtOption::unwrap_or_default")
def ct_unwrap_or(I, a, c):
    o = M.deref(a[0])
    if o.c is True: return o.v
    return a[1] if o.c is False else ite(o.c, o.v, a[1])
@M.m("Choice::unwrap_u8")
def choice_u8(I, a, c):
    v = M.deref(a[0])
    return int(v) if isinstance(v, bool) else I.resolve(ite(v, 1, 0))
def field_of_type(I, tid):
    if not isinstance(tid, int): return None
    return I.fieldmodels.get(I.types[tid]["s"])

def install(I, fields):
    I.fieldmodels = {}
    for F in fields:
        FieldModels(I, F)
    def self_dispatch(I, a, c):
        fm = field_of_type(I, c["a"][0]) if c.get("a") else None
        if fm is None: return NotImplemented
        return fm.method(I, a, c)
    I.prefix.append(("ff_ce::Field::", self_dispatch))
    I.prefix.append(("ff_ce::PrimeField::", self_dispatch))
    I.prefix.append(("ff::PrimeField::", self_dispatch))
    I.prefix.append(("ff::Field::", self_dispatch))
    def ops(I, a, c):
        fm = field_of_type(I, c["a"][0]) if c.get("a") else None
        if fm is None or I.types[c["a"][0]]["s"] != fm.F.path: return NotImplemented
        return fm.method(I, a, c)
    for k in ("core::ops::arith::", "core::cmp::PartialEq::", "core::cmp::Ord::", "core::cmp::PartialOrd::", "core::clone::Clone::", "core::default::Default::"):
        I.prefix.append((k, ops))
    def from_ct(I, a, c):
        v = M.deref(a[0])
        if isinstance(v, CtOption): return v.opt()
        return NotImplemented
    for n in ("<core::option::Option<T> as core::convert::From<subtle::CtOption<T>>>::from", "subtle::<impl core::convert::From<subtle::CtOption<T>> for core::option::Option<T>>::from", "core::convert::Into::into", "<T as core::convert::Into<U>>::into",
              "<subtle::CtOption<T> as core::convert::Into<core::option::Option<T>>>::into"):
        I.hooks.setdefault(n, from_ct)
    def read_le(I, a, c):
        fm = field_of_type(I, c["a"][0])
        if fm is None: return NotImplemented
        be = (c.get("r") or c["p"]).endswith("_be")
        n = 8 * fm.F.limbs
        buf = [0] * n
        r = I.models["Read::read_exact"](I, [a[1], SRef(buf, 0, n)], c)
        def done(v):
            if v.v != 0: return v
            l = buf[::-1] if be else buf
            arr = [bv(sum((bits_of(x, 8) for x in l[8 * i:8 * i + 8]), ())) for i in range(fm.F.limbs)]
            a[0].set(Agg(fm.repr_tid, 0, [Arr(arr)]))
            return M.ok(unit())
        return M.map_variants(I, r, done)
    I.hooks["ff_ce::PrimeFieldRepr::read_le"] = read_le
    I.hooks["ff_ce::PrimeFieldRepr::read_be"] = read_le
    def write_le(I, a, c):
        fm = field_of_type(I, c["a"][0])
        if fm is None: return NotImplemented
        be = (c.get("r") or c["p"]).endswith("_be")
        v = a[0].c[a[0].k]
        l = []
        for x in v.f[0].f:
            b = bits_of(x, 64)
            l += [bv(b[8 * i:8 * i + 8]) for i in range(8)]
        if be: l = l[::-1]
        return I.models["Write::write_all"](I, [a[1], SRef(l, 0, len(l))], c)
    I.hooks["ff_ce::PrimeFieldRepr::write_le"] = write_le
    I.hooks["ff_ce::PrimeFieldRepr::write_be"] = write_le
    def from_hex(I, a, c):
        fm = field_of_type(I, c["a"][0])
        if fm is None: return NotImplemented
        v = M.cstr(a[0])
        if v is None: return NotImplemented
        if v.startswith("0x"): v = v[2:]
        if len(v) % 2 or not re.fullmatch(r"[0-9a-fA-F]*", v) or len(v) > 16 * fm.F.limbs or int(v or "0", 16) >= fm.F.p: return M.err()
        return M.ok(fm.F.const(int(v or "0", 16)))
    I.hooks["ff_ce::to_hex::from_hex"] = from_hex
    # representation taken apart / rebuilt by code without a model
    def field_of(v, i, f):
        h = getattr(v, "field", None)
        if h: return h(i)
        if isinstance(v, FE):
            fm = I.fieldmodels.get(v.F.path)
            if hasattr(fm, "part"): return fm.part(I, v, i)
            if fm is not None: return fm.mkrepr(raw(v))
        raise Undecided("field %d of %s in %s" % (i, short(v), f["p"]))
    I.field_of = field_of
    def field_build(F, ops):
        fm = I.fieldmodels[F.path]
        if hasattr(fm, "build"): return fm.build(I, ops)
        v = fm.unrepr(ops[0])
        cnd, e = from_int(F, v, True)
        if cnd is True or I.cond_known(cnd) is True: return e
        u = UFE(F, e.d); u.bits = v
        return u
    I.field_build = field_build

def make(mir, names=("GL", "BN", "BLS"), mode="expand"):
    fields = {}
    for n in names:
        p, l, nb, path = SPECS[n]
        F = Field(n, p, l, nb, path); F.mode = mode
        fields[n] = F
    I = A.Interp(mir, list(fields.values()))
    install(I, list(fields.values()))
    I.F = fields
    return I
