"""Curve libraries as the bridge uses them: coordinates are residues, curve and subgroup membership are a table."""
from dom import *
from aeval import *
import models as M
Q = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
class El:
    """a prime-field element"""
    __slots__ = ("v", "q")
    def __init__(self, v, q): self.v, self.q = v % q, q
    def __eq__(self, o): return isinstance(o, El) and (self.v, self.q) == (o.v, o.q)
    def __hash__(self): return hash((self.v, self.q))
    def __repr__(self): return "%d" % self.v
class Big:
    def __init__(self, v, n): self.v, self.n = v, n
class Pt:
    """affine; x is None at infinity"""
    def __init__(self, x, y): self.x, self.y = x, y
    def __eq__(self, o): return isinstance(o, Pt) and (self.x, self.y) == (o.x, o.y)
    def __repr__(self): return "(%s, %s)" % (self.x, self.y) if self.x is not None else "infinity"
class Pj:
    def __init__(self, x, y, z): self.x, self.y, self.z = x, y, z
def plain(x):
    """nested tuples of integers"""
    x = M.deref(x)
    if isinstance(x, El): return x.v
    if isinstance(x, Agg): return tuple(plain(y) for y in x.f)
    raise Undecided("coordinate %s" % (x,))
def lift(t):
    return El(t, Q) if isinstance(t, int) else Agg(None, 0, [lift(x) for x in t])
def zero(t): return t == 0 if isinstance(t, int) else all(zero(x) for x in t)
def fmulq(a, b):
    if isinstance(a, int): return a * b % Q
    return ((a[0] * b[0] - a[1] * b[1]) % Q, (a[0] * b[1] + a[1] * b[0]) % Q)
def finvq(a):
    if isinstance(a, int): return pow(a, -1, Q)
    n = pow(a[0] * a[0] + a[1] * a[1], -1, Q); return (a[0] * n % Q, -a[1] * n % Q)
def affine(p):
    x, y, z = plain(p.x), plain(p.y), plain(p.z)
    if zero(z): return Pt(None, None)
    i = finvq(z); i2 = fmulq(i, i)
    return Pt(fmulq(x, i2), fmulq(y, fmulq(i2, i)))
def install(I):
    I.good = set(); I.oncurve = set()
    H = I.hooks
    def mine(x): return isinstance(M.deref(x), (El, Pt, Pj, Big))
    def m(*names):
        def d(f):
            for n in names:
                old = H.get(n)
                def g(J, a, c, f=f, old=old):
                    r = f(J, a, c)
                    return (old(J, a, c) if old else NotImplemented) if r is NotImplemented else r
                H[n] = g
            return f
        return d
    def tname(J, c, k=0):
        a = [x for x in c.get("a", []) if isinstance(x, int)]
        return J.types[a[k]]["s"] if len(a) > k else ""
    def isfp(s): return "::Fp<" in s and "xtField" not in s.split("<")[0]
    def mod(s):
        if "FqConfig" in s or s.rstrip(">").endswith(", 6"): return Q
        if "FrConfig" in s or s.rstrip(">").endswith(", 4"): return R
        raise Undecided("field " + s)
    @m("core::str::traits::FromStr::from_str")
    def fs(J, a, c):
        s = tname(J, c)
        if not isfp(s): return NotImplemented
        t = M.cstr(M.deref(a[0])); u = t[1:] if t[:1] in ("-", "+") else t
        if not u.isascii() or not u.isdigit(): return M.err(unit())
        return M.ok(El(int(t), mod(s)))
    @m("alloc::string::ToString::to_string")
    def ts(J, a, c):
        x = M.deref(a[0])
        while isinstance(x, Ref): x = M.deref(x)
        return M.StrObj(str(x.v)) if isinstance(x, El) else NotImplemented
    @m("ark_ff::fields::models::quadratic_extension::QuadExtField::<P>::new", "ark_ff::fields::models::cubic_extension::CubicExtField::<P>::new")
    def new(J, a, c): return Agg(None, 0, list(a))
    @m("ark_ec::models::short_weierstrass::group::Projective::<P>::new")
    def pj(J, a, c):
        p = affine(Pj(*a))
        if p.x is not None and (p.x, p.y) not in I.good: raise Panic("assertion failed: point on the curve and in the subgroup")
        return Pj(*a)
    @m("ark_ec::models::short_weierstrass::group::Projective::<P>::new_unchecked")
    def pju(J, a, c): return Pj(*a)
    @m("ark_ec::models::short_weierstrass::affine::Affine::<P>::new")
    def pa(J, a, c):
        p = Pt(plain(a[0]), plain(a[1]))
        if (p.x, p.y) not in I.good: raise Panic("assertion failed: point on the curve and in the subgroup")
        return p
    @m("ark_ec::models::short_weierstrass::affine::Affine::<P>::new_unchecked")
    def pau(J, a, c): return Pt(plain(a[0]), plain(a[1]))
    @m("ark_ec::models::short_weierstrass::affine::Affine::<P>::identity", "ark_ec::AffineRepr::zero")
    def pz(J, a, c): return Pt(None, None)
    @m("core::convert::From::from", "core::convert::Into::into", "ark_ec::CurveGroup::into_affine")
    def fr(J, a, c):
        x = M.deref(a[0]) if not isinstance(a[0], (int, bool)) else a[0]
        if isinstance(x, Pj): return affine(x)
        if isinstance(x, Pt) and "Projective" in tname(J, c): return Pj(lift(x.x), lift(x.y), lift(1 if isinstance(x.x, int) else (1, 0)))
        if isinstance(x, Pt): return x
        return NotImplemented
    @m("num_traits::identities::Zero::is_zero", "ark_ec::AffineRepr::is_zero")
    def iz(J, a, c):
        x = M.deref(a[0])
        if isinstance(x, Pt): return x.x is None
        if isinstance(x, El): return x.v == 0
        if isinstance(x, Pj): return zero(plain(x.z))
        if isinstance(x, Agg) and x.f and isinstance(M.deref(x.f[0]), (El, Agg)):
            try: return zero(plain(x))
            except Undecided: return NotImplemented
        return NotImplemented
    @m("ark_ec::AffineRepr::xy")
    def xy(J, a, c):
        x = M.deref(a[0])
        if x.x is None: return M.none()
        return M.some(Agg(None, 0, [lift(x.x), lift(x.y)]))
    H["ark_ec::AffineRepr::x"] = lambda J, a, c: M.none() if M.deref(a[0]).x is None else M.some(lift(M.deref(a[0]).x))
    H["ark_ec::AffineRepr::y"] = lambda J, a, c: M.none() if M.deref(a[0]).x is None else M.some(lift(M.deref(a[0]).y))
    @m("ark_ec::models::short_weierstrass::affine::Affine::<P>::is_on_curve")
    def oc(J, a, c):
        x = M.deref(a[0]); return x.x is None or (x.x, x.y) in I.good or (x.x, x.y) in I.oncurve
    @m("ark_ec::models::short_weierstrass::affine::Affine::<P>::is_in_correct_subgroup_assuming_on_curve")
    def sg(J, a, c):
        x = M.deref(a[0]); return x.x is None or (x.x, x.y) in I.good
    @m("core::clone::Clone::clone")
    def cl(J, a, c):
        x = M.deref(a[0])
        return x if isinstance(x, (El, Pt, Pj, Big)) else NotImplemented
    # field elements from bytes
    @m("ark_serialize::CanonicalDeserialize::deserialize_uncompressed", "ark_serialize::CanonicalDeserialize::deserialize_compressed", "ark_serialize::CanonicalDeserialize::deserialize_uncompressed_unchecked")
    def du(J, a, c):
        s = tname(J, c)
        if "BigInt<" not in s: return NotImplemented
        n = 8 * int(s.rstrip(">").split("<")[-1])
        b = M.items(M.deref(a[0]))
        if len(b) < n: return M.err(unit())
        return M.ok(Big(sum(M.conc(J, x) << (8 * i) for i, x in enumerate(b[:n])), n))
    @m("ark_ff::fields::models::fp::montgomery_backend::<impl ark_ff::fields::models::fp::Fp<ark_ff::fields::models::fp::montgomery_backend::MontBackend<T, N>, N>>::new_unchecked")
    def nu(J, a, c):
        b = a[0]; q = Q if b.n == 48 else R
        return El(b.v * pow(2**(8 * b.n), -1, q), q)
    @m("ark_ff::fields::models::fp::montgomery_backend::<impl ark_ff::fields::models::fp::Fp<ark_ff::fields::models::fp::montgomery_backend::MontBackend<T, N>, N>>::new")
    def nn(J, a, c):
        b = a[0]; q = Q if b.n == 48 else R
        return El(b.v, q)
    @m("ark_ff::fields::prime::PrimeField::into_bigint")
    def ib(J, a, c): x = M.deref(a[0]); return Big(x.v, 48 if x.q == Q else 32)
    @m("ark_ff::fields::prime::PrimeField::from_le_bytes_mod_order")
    def le(J, a, c):
        b = M.items(M.deref(a[0])); return El(sum(M.conc(J, x) << (8 * i) for i, x in enumerate(b)), mod(tname(J, c)))
    @m("ark_ff::fields::prime::PrimeField::from_be_bytes_mod_order")
    def be(J, a, c):
        b = M.items(M.deref(a[0])); return El(sum(M.conc(J, x) << (8 * i) for i, x in enumerate(reversed(b))), mod(tname(J, c)))
