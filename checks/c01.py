from dom import *
from aeval import *
import aeval, lin, fieldmodels as FM
from lin import padd, pmul, TERMS
import models as M
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR in an exact integer-polynomial domain with carry indicators and intervals"
RULE = ("Every field operation is evaluated on machine words treated as integers (carries, borrows and comparisons become 0/1 indicators, intervals are tightened by the path facts); its result must be congruent to the "
        "specification modulo p as a polynomial identity and lie in [0, p) for every pair of canonical operands. Powers and inverses are evaluated as monomials.")
ASSUME = ["release-profile arithmetic (no overflow panics)"]
P = FM.GL_P if hasattr(FM, "GL_P") else 2**64 - 2**32 + 1
FR = "fields::field_gl::Fr"; RP = "fields::field_gl::FrRepr"
FILE = "fields/src/field_gl.rs "
Ri = pow(2, -128, P); R = pow(2, 128, P)
def points(n):
    """Operands next to every edge of the word, the modulus and their Montgomery images, then a fixed pseudo-random spread."""
    e = []
    for c in (0, 2**31, 2**32, 2**33, 2**63, P >> 1, P - 2**32, P, 2**64): e += [(c + k) % 2**64 for k in (-2, -1, 0, 1, 2)]
    e = sorted(set(e)); e = sorted(set(e + [x * R % P for x in e] + [x * Ri % P for x in e]))
    if n == 0: yield (); return
    if n == 1: yield from ((x,) for x in e)
    elif n == 2:
        for x in e:
            for y in e: yield (x, y)
            for s in (P, 2**64, P + 1, P - 1, 2**64 - 1): yield (x, (s - x) % 2**64)
    else: raise Undecided("operands")
    rng = __import__("random").Random(1)
    for _ in range(20000): yield tuple(rng.randrange(2**64) for _ in range(n))
def run(ctx):
    mir = ctx.mir()
    I = lin.LinInterp(mir); I.MOD = P
    ctx.interps = getattr(ctx, "interps", []) + [I]
    rtid, ftid = mir.tid(RP), mir.tid(FR)
    def mkr(x): return Agg(rtid, 0, [Arr([x])])
    def mk(x): return Agg(ftid, 0, [mkr(x)])
    def un(v):
        v = I.unphi(v)
        while isinstance(v, (Agg, Arr)): v = I.unphi(v.f[0])
        return v
    def fr(n): return I.var(n, 0, P - 1)
    def check(v, spec):
        """v congruent to spec (a polynomial mod p) and canonical; an alarm is confirmed by a witness in the operands."""
        v = I.lift(un(v))
        d = {m: c % P for m, c in padd(v.p, spec, -1).items() if c % P}
        lo, hi = I.tight(v)
        if not d and lo >= 0 and hi < P: return None
        vs = sorted(I.variables(v.p) | I.variables(spec))
        cs = [(TERMS[i], b) for i, b in I.pc.items()] if I.pc else []
        for pt in points(len(vs)):
            env = dict(zip(vs, pt))
            if any(not I.rng[a][0] <= x <= I.rng[a][1] for a, x in env.items()): continue
            if any(I.cvalue(c, env) != b for c, b in cs): continue
            got, want = I.value(v.p, env), I.value(spec, env) % P
            if got != want:
                return "representation %d instead of %d for operand representations %s" % (got, want, ", ".join("%s=%d" % (I.names[a], x) for a, x in sorted(env.items()) if a in vs))
        raise Undecided("no identity (difference of %d terms, range [%d, p%+d]) and no witness" % (len(d), lo, hi - P))
    def k(c): return {(): c % P} if c % P else {}
    def sc(p, c): return {m: x * c for m, x in p.items()}
    T_ = {"add": lambda a, b: padd(a, b), "sub": lambda a, b: padd(a, b, -1), "mul": lambda a, b: sc(pmul(a, b), Ri)}
    def inst(path): return I.fid(path)
    def tr(t, m): return "<%s as %s>::%s" % (FR, t, m)
    def binary(op):
        def f():
            a, b = fr("a"), fr("b")
            return check(I.invoke(tr("core::ops::arith::" + op.capitalize(), op), [mk(a), mk(b)]), T_[op](a.p, b.p))
        return f
    def assign(op):
        def f():
            a, b = fr("a"), fr("b"); r = Ref([mk(a)], 0)
            I.invoke(tr("ff_ce::Field", op + "_assign"), [r, Ref([mk(b)], 0)])
            return check(r.get(), T_[op](a.p, b.p))
        return f
    def alias(op):
        def f():
            a = fr("a"); r = Ref([mk(a)], 0)
            I.invoke(tr("ff_ce::Field", op + "_assign"), [r, Ref([mk(a)], 0)])
            return check(r.get(), T_[op](a.p, a.p))
        return f
    for op in ("add", "sub", "mul"):
        ctx.ob(FILE + op, "a %s b for all canonical a, b" % op, binary(op))
        ctx.ob(FILE + op + "_assign", "a %s= b for all canonical a, b" % op, assign(op))
        ctx.ob(FILE + op + "_assign", "a %s= a" % op, alias(op))
    def unary(m, spec):
        def f():
            a = fr("a"); r = Ref([mk(a)], 0)
            I.invoke(tr("ff_ce::Field", m), [r])
            return check(r.get(), spec(a.p))
        return f
    ctx.ob(FILE + "double", "2a", unary("double", lambda a: sc(a, 2)))
    ctx.ob(FILE + "negate", "-a", unary("negate", lambda a: sc(a, -1)))
    ctx.ob(FILE + "square", "a^2", unary("square", lambda a: sc(pmul(a, a), Ri)))
    def neg():
        a = fr("a"); return check(I.invoke(tr("core::ops::arith::Neg", "neg"), [mk(a)]), sc(a.p, -1))
    ctx.ob(FILE + "neg", "-a by operator", neg)
    # constants next to the edges, same code with concrete operands
    edge = sorted({0, 1, 2, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**63 + 1, P - 2**32, P - 2, P - 1, R, P - R})
    # conversions
    def from_repr():
        x = I.var("x", 0, 2**64 - 1)
        r = I.invoke(tr("ff_ce::PrimeField", "from_repr"), [mkr(x)])
        inside = I.neg(padd(x.p, {(): P}, -1))
        for val in (True, False):
            saved = I.pc; I.pc = dict(saved); I.set_pc(inside, val)
            try:
                v = I.unphi(r)
                if (v.v == 0) != val: return "accepts a non-canonical integer" if not val else "refuses a canonical integer"
                if val:
                    e = check(v.f[0], sc(x.p, R))
                    if e: return e
            finally: I.pc = saved
    ctx.ob(FILE + "from_repr", "every 64-bit integer: canonical ones give that residue, the others an error", from_repr)
    def from_raw():
        x = I.var("x", 0, 2**64 - 1)
        r = I.invoke(tr("ff_ce::PrimeField", "from_raw_repr"), [mkr(x)])
        inside = I.neg(padd(x.p, {(): P}, -1))
        for val in (True, False):
            saved = I.pc; I.pc = dict(saved); I.set_pc(inside, val)
            try:
                v = I.unphi(r)
                if (v.v == 0) != val: return "accepts a non-canonical representation" if not val else "refuses a canonical representation"
                if val and I.lift(un(v.f[0])).p != x.p: return "changes the representation"
            finally: I.pc = saved
    ctx.ob(FILE + "from_raw_repr", "every 64-bit representation", from_raw)
    def into_repr():
        a = fr("a"); return check(I.invoke(tr("ff_ce::PrimeField", "into_repr"), [Ref([mk(a)], 0)]), sc(a.p, Ri))
    ctx.ob(FILE + "into_repr", "the canonical integer of every element", into_repr)
    def as_int():
        a = fr("a"); return check(I.invoke(FR + "::as_int", [Ref([mk(a)], 0)]), sc(a.p, Ri))
    ctx.ob(FILE + "as_int", "the canonical integer of every element", as_int)
    def raw():
        a = fr("a"); v = I.lift(un(I.invoke(tr("ff_ce::PrimeField", "into_raw_repr"), [Ref([mk(a)], 0)])))
        if v.p != a.p: return "changes the representation"
    ctx.ob(FILE + "into_raw_repr", "identity on the representation", raw)
    def round_trip():
        x = I.var("x", 0, P - 1)
        r = I.unphi(I.invoke(tr("ff_ce::PrimeField", "from_repr"), [mkr(x)]))
        if r.v != 0: return "a canonical integer is refused"
        return check(I.invoke(tr("ff_ce::PrimeField", "into_repr"), [Ref([r.f[0]], 0)]), x.p)
    ctx.ob(FILE + "from_repr / into_repr", "round trip", round_trip)
    def from_u64(n):
        def f():
            r = I.invoke(tr("core::convert::From<u64>", "from"), [n])
            if I.lift(un(r)).p != ({(): n * R % P} if n else {}): return "%d becomes another residue" % n
        return f
    for n in edge: ctx.ob(FILE + "From<u64>", "the integer %d" % n, from_u64(n))
    def from_sym():
        x = I.var("x", 0, P - 1)
        return check(I.invoke(tr("core::convert::From<u64>", "from"), [x]), sc(x.p, R))
    ctx.ob(FILE + "From<u64>", "every canonical integer", from_sym)
    def rejects():
        try: I.invoke(tr("core::convert::From<u64>", "from"), [I.var("x", P, 2**64 - 1)])
        except Panic: return None
        return "a non-canonical integer is wrapped silently"
    ctx.ob(FILE + "From<u64>", "non-canonical integers are rejected", rejects)
    def consts():
        for m, want in (("zero", 0), ("one", R)):
            v = I.lift(un(I.invoke(tr("ff_ce::Field", m), [])))
            if v.p.get((), 0) != want or set(v.p) - {()}: return "%s is %r" % (m, v)
    ctx.ob(FILE + "zero / one", "neutral elements", consts)
    def char():
        v = I.lift(un(I.invoke(tr("ff_ce::PrimeField", "char"), [])))
        if v.p != {(): P}: return "characteristic is %r" % v.p
    ctx.ob(FILE + "char", "characteristic", char)
    def is_zero():
        a = fr("a"); c = I.invoke(tr("ff_ce::Field", "is_zero"), [Ref([mk(a)], 0)])
        return same_cond(I, c, I.zero(a.p), "is_zero")
    ctx.ob(FILE + "is_zero", "exactly the zero element", is_zero)
    def eq():
        a, b = fr("a"), fr("b"); c = I.invoke(tr("core::cmp::PartialEq", "eq"), [Ref([mk(a)], 0), Ref([mk(b)], 0)])
        return same_cond(I, c, I.zero(padd(a.p, b.p, -1)), "==")
    ctx.ob(FILE + "==", "equal exactly when the residues are", eq)
    def order():
        a, b = fr("a"), fr("b")
        ia, ib = (I.lift(un(I.invoke(tr("ff_ce::PrimeField", "into_repr"), [Ref([mk(x)], 0)]))) for x in (a, b))
        r = I.invoke(tr("core::cmp::Ord", "cmp"), [Ref([mk(a)], 0), Ref([mk(b)], 0)])
        lt = I.neg(padd(ia.p, ib.p, -1)); e = I.zero(padd(ia.p, ib.p, -1))
        for cond, want in (((lt, True), (e, False)), 0), (((lt, False), (e, True)), 1), (((lt, False), (e, False)), 2):
            saved = I.pc; I.pc = dict(saved)
            for c, v in cond: I.set_pc(c, v)
            try:
                if I.unphi(r).v != want: return "the order is not that of the canonical integers"
            finally: I.pc = saved
    ctx.ob(FILE + "cmp", "order of canonical integers", order)
    # representation helpers on 64-bit integers
    def repr_ops():
        aeval.LIN = None
        x = bv_atom(T("var", "x", w=64), 64); xb = bits_of(x, 64)
        def call(m, *a, val=x):
            r = Ref([mkr(val)], 0)
            out = J.invoke("<%s as ff_ce::PrimeFieldRepr>::%s" % (RP, m), [r, *a])
            return out, unj(r.get())
        for n in (0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 200):
            w = (xb[n:] + (0,) * n)[:64] if n < 64 else (0,) * 64
            if bits_of(call("shr", n)[1], 64) != w: return "shr by %d" % n
            w = ((0,) * n + xb)[:64] if n < 64 else (0,) * 64
            if bits_of(call("shl", n)[1], 64) != w: return "shl by %d" % n
        if bits_of(call("div2")[1], 64) != xb[1:] + (0,): return "div2"
        odd = call("is_odd")[0]
        if bit_from(odd) != xb[0]: return "is_odd"
        for v in (0, 1, 2, 3, 2**32, 2**63, 2**64 - 1):
            if call("num_bits", val=v)[0] != v.bit_length(): return "num_bits(%d) is %s" % (v, call("num_bits", val=v)[0])
            if bool(call("is_zero", val=v)[0]) != (v == 0): return "is_zero(%d)" % v
            if bool(call("is_even", val=v)[0]) != (v % 2 == 0): return "is_even(%d)" % v
    J = FM.make(mir, (), "expand"); ctx.interps.append(J)
    def unj(v):
        while isinstance(v, (Agg, Arr)): v = J.unphi(v.f[0])
        return v
    ctx.ob(FILE + "PrimeFieldRepr", "shifts, halving, parity and bit length of the integer representation", repr_ops)
    # powers: products modelled, bodies of inverse / exp / pow evaluated
    K = FM.make(mir, ("GL",), "wrap"); F = K.F["GL"]; ctx.interps.append(K)
    fm = K.fieldmodels[F.path]
    def body(path, args):
        """The function itself instead of its model."""
        aeval.LIN = None
        save = dict(vars(fm)); names = ("f_inverse", "f_exp", "f_pow", "f_div", "f_batch_inverse")
        for n in names:
            if hasattr(fm, n): setattr(fm, n, lambda *a: NotImplemented)
        try: return K.invoke(path, args)
        finally:
            for n in names: vars(fm).pop(n, None)
            vars(fm).update(save)
    x = F.var("x")
    def inv():
        r = K.unphi(body(tr("ff_ce::Field", "inverse"), [Ref([x], 0)]))
        if r.v != 1: return "no inverse of a non-zero element"
        if r.f[0].d != fpow(x, P - 2).d: return "is not x^(p-2)"
    ctx.ob(FILE + "inverse", "x^(p-2), the inverse of every non-zero element", inv)
    def div():
        y = F.var("y"); r = body(tr("core::ops::arith::Div", "div"), [x, y])
        if K.unphi(r).d != fmul(x, fpow(y, P - 2)).d: return "is not x * y^(p-2)"
    ctx.ob(FILE + "div", "x times the inverse of y", div)
    # exponentiation selects words bit by bit: representations of powers are opaque words under xor / masks
    def pw(v):
        v = un(v)
        if isinstance(v, lin.PW) and len(v.s) == 1: return next(iter(v.s))
        if v == R: return 0
        raise Undecided("operand %s" % short(v))
    def h_mul(J_, a, c):
        a[0].set(mk(lin.PW([pw(a[0].get()) + pw(d1(a[1]))]))); return M.unit()
    def h_sq(J_, a, c):
        a[0].set(mk(lin.PW([2 * pw(a[0].get())]))); return M.unit()
    def d1(v): return v.get() if isinstance(v, Ref) else v
    hooks = {tr("ff_ce::Field", "mul_assign"): h_mul, tr("ff_ce::Field", "square"): h_sq}
    def power(e):
        def f():
            aeval.LIN = I; I.hooks.update(hooks)
            try: r = I.invoke(FR + "::exp", [mk(lin.PW([1])), e])
            finally:
                for h in hooks: I.hooks.pop(h, None)
            if pw(r) != e: return "gives x^%d" % pw(r)
        return f
    exps = [0, 1, 2, 3, 5, 7, 2**32 - 1, 2**32, 2**32 + 1, P - 2, P - 1, 2**63, 2**63 + 1, 2**64 - 1, 0xAAAAAAAAAAAAAAAA, 0x5555555555555555, 0x8000000080000001] + [1 << i for i in range(4, 63, 3)]
    for e in exps: ctx.ob(FILE + "exp", "x^%d" % e, power(e))

def same_cond(I, got, want, what):
    if got is want: return None
    if isinstance(got, bool) or isinstance(want, bool): return "%s is %s" % (what, got)
    for v in (True, False):
        saved = I.pc; I.pc = dict(saved); I.set_pc(want, v)
        try:
            k = I.cond_known(got)
            if k is None: raise Undecided("%s: %s against %s" % (what, short(got), short(want)))
            if k != v: return "%s answers %s where it is %s" % (what, k, v)
        finally: I.pc = saved
