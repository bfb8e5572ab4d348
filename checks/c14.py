from dom import *
from aeval import *
import models as M, fieldmodels as FM
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR: node constructors on symbolic operands, number parsing by constant propagation over the boundary lattice"
RULE = ("Each ExpressionOps constructor is evaluated on distinct opaque operands, identifiers and names; the node must carry the operation's own tag, exactly those operands in that order and nothing else. "
        "The challenge table must give eight distinct indexes in transcript order and refuse other names. parse_pil_number is evaluated on every boundary of the ranges it distinguishes (multiples of the modulus, powers of two and their "
        "neighbours, both signs, decimal and hexadecimal) and must return the residue; log2_any on every power of two and its neighbours; the big-integer conversions on symbolic field elements.")
ASSUME = ["between the enumerated boundaries the number conversions are piecewise uniform (they contain no other constants)"]
p = 2**64 - 2**32 + 1
E = "starky::types::Expression"
OPS = "starky/src/expressionops.rs "
def run(ctx):
    I = ctx.interp(("GL", "BN", "BLS"), "expand")
    names = next(t["v"] for t in I.types if t.get("p") == E and t.get("v"))[0]["f"]
    idx = {f["n"] if isinstance(f, dict) else f[0]: k for k, f in enumerate(names)}
    def opt(v):
        v = I.unphi(M.deref(v))
        return None if v.v == 0 else M.deref(v.f[0])
    def node(v):
        v = I.unphi(M.deref(v))
        d = {k: v.f[i] for k, i in idx.items()}
        vs = opt(d["values"])
        o = {"op": M.sval(d["op"]), "deg": I.resolve(d["deg"]), "values": None if vs is None else [node(x) for x in M.items(vs)]}
        val = opt(d["value"]); o["value"] = None if val is None else M.sval(val)
        for k in ("id", "next", "keep", "keep2ns", "idQ", "const_"): 
            x = opt(d[k]); o[k] = None if x is None else I.resolve(x)
        return o
    def new(op, deg=0, id=None, value=None, values=None):
        return I.invoke(E + "::new", [M.StrObj(op), deg, M.none() if id is None else M.some(id), M.none() if value is None else M.some(M.StrObj(value)), M.none() if values is None else M.some(Vec(values))])
    def want(op, **k):
        d = dict(op=op, deg=0, values=None, value=None, id=None, next=None, keep=None, keep2ns=None, idQ=None, const_=None); d.update(k); return d
    def cmp(g, w):
        for k in w:
            if g[k] != w[k]: return "the node's %s is %s instead of %s" % (k, str(g[k])[:120], str(w[k])[:120])
    def call(n, *a): return node(I.invoke("starky::expressionops::ExpressionOps::" + n, list(a)))
    def leaf(k): return new("cm", k, 10 + k, "v%d" % k, [new("const", 7, 100 + k)])
    def ctor():
        e = new("someop", 5, 77, "12", [leaf(1), leaf(2)])
        return cmp(node(e), want("someop", deg=5, id=77, value="12", values=[node(leaf(1)), node(leaf(2))]))
    ctx.ob("starky/src/types.rs Expression::new", "records its arguments", ctor)
    for n in ("add", "sub", "mul"):
        ctx.ob(OPS + n, "operation and operands in order", lambda: cmp(call(n, Ref([leaf(1)], 0), Ref([leaf(2)], 0)), want(n, values=[node(leaf(1)), node(leaf(2))])))
    kinds = ["number", "x", "xDivXSubXi", "xDivXSubWXi", "nop", "cm", "const", "exp", "q", "eval", "tmp", "challenge", "public", "Zi", "xn", "x_2ns", "add", "sub", "mul", "neg"]
    def kid(op, k): return new(op, k, None if op in ("number", "x", "add", "sub", "mul", "neg") else 10 + k, ("0", "1", "-1")[k % 3] if op == "number" else None, [leaf(k), leaf(k + 1)] if op in ("add", "sub", "mul") else [leaf(k)] if op == "neg" else None)
    def pair(n, a, b, k):
        x, y = kid(a, k), kid(b, k + (0 if k == 2 else 1))
        return cmp(call(n, Ref([x], 0), Ref([y], 0)), want(n, values=[node(kid(a, k)), node(kid(b, k + (0 if k == 2 else 1)))]))
    for n in ("add", "sub", "mul"):
        for a in kinds:
            for b in kinds:
                for k in range(3): ctx.ob(OPS + n, "%s and %s, %d" % (a, b, k), pair, n, a, b, k)
    for a in kinds:
        for k in range(3): ctx.ob(OPS + "neg", "%s, %d" % (a, k), lambda: cmp(call("neg", Ref([kid(a, k)], 0)), want("neg", values=[node(kid(a, k))])))
    ctx.ob(OPS + "neg", "operation and operand", lambda: cmp(call("neg", Ref([leaf(1)], 0)), want("neg", values=[node(leaf(1))])))
    for n, op in (("exp", "exp"), ("cm", "cm"), ("const_", "const"), ("q", "q")):
        for nx in (None, True, False):
            ctx.ob(OPS + n, "identifier and next-row flag %s" % nx, lambda: cmp(call(n, 4242, M.none() if nx is None else M.some(nx)), want(op, id=4242, next=nx)))
    for n, op in (("eval", "eval"), ("tmp", "tmp")):
        ctx.ob(OPS + n, "index", lambda: cmp(call(n, 4242), want(op, id=4242)))
    ctx.ob(OPS + "number", "the literal", lambda: cmp(call("number", M.StrObj("-17")), want("number", value="-17")))
    for n in ("x", "xDivXSubXi", "xDivXSubWXi", "nop"): ctx.ob(OPS + n, "a leaf", lambda: cmp(call(n), want(n)))
    def isnop(op, w):
        g = I.resolve(I.invoke("starky::expressionops::ExpressionOps::is_nop", [Ref([new(op)], 0)]))
        if bool(g) != w: return "is_nop of %s is %s" % (op, g)
    for op, w in (("nop", True), ("cm", False), ("add", False), ("", False), ("no", False)): ctx.ob(OPS + "is_nop", op, isnop, op, w)
    for i, n in enumerate(("u", "defVal", "gamma", "beta", "vc", "vf1", "vf2", "xi")):
        ctx.ob(OPS + "challenge", n, lambda: cmp(call("challenge", M.StrObj(n)), want("challenge", id=i)))
    def unknown(n):
        try: g = call("challenge", M.StrObj(n))
        except Panic: return
        return "an undeclared challenge gets index %s" % g["id"]
    for n in ("", "v", "zeta", "X"): ctx.ob(OPS + "challenge", "refuses %r" % n, unknown, n)
    def nextf(v, w):
        e = new("cm"); e.f[idx["next"]] = M.none() if v is None else M.some(v)
        g = I.resolve(I.invoke(E + "::next", [Ref([e], 0)]))
        if bool(g) != w: return "next() of %s is %s" % (v, g)
    for v, w in ((None, False), (True, True), (False, False)): ctx.ob("starky/src/types.rs Expression::next", str(v), nextf, v, w)
    def eqf(a, b, w):
        def mk(x):
            e = new(x[0], x[1], x[2]); return e
        g = I.resolve(I.invoke("<%s as core::cmp::PartialEq>::eq" % E, [Ref([mk(a)], 0), Ref([mk(b)], 0)]))
        if bool(g) != w: return "equality of %s and %s is %s" % (a, b, g)
    for a, b, w in ((("cm", 1, 2), ("cm", 1, 2), True), (("cm", 1, 2), ("const", 1, 2), False), (("cm", 1, 2), ("cm", 2, 2), False), (("cm", 1, 2), ("cm", 1, 3), False), (("cm", 1, 2), ("cm", 1, None), False)):
        ctx.ob("starky/src/types.rs Expression::eq", "%s %s" % (a, b), eqf, a, b, w)
    # numbers
    F = "starky/src/types.rs parse_pil_number"
    vals = set()
    for m in (0, 1, 2, 3, 2**32, 2**62): vals |= {m * p + d for d in (-2, -1, 0, 1, 2)}
    for k in (1, 7, 8, 15, 16, 31, 32, 33, 47, 53, 62, 63, 64, 65, 95, 96, 126, 127): vals |= {2**k + d for d in (-2, -1, 0, 1)}
    vals |= {0xfedcba9876543210, 0x0123456789abcdef, 0x123456789abcdef0fedcba98765432, 12345678901234567890}
    vals |= {-v for v in vals}
    vals = sorted(v for v in vals if -2**127 <= v < 2**127)
    def num(s, v):
        g = I.resolve(I.invoke("starky::types::parse_pil_number", [M.StrObj(s)]))
        if g != v % p: return "%s is read as %s instead of %d" % (s, g, v % p)
    n = 0
    for v in vals:
        ctx.ob(F, "%d" % v, num, "%d" % v, v)
        if v >= 0:
            ctx.ob(F, "0x%x" % v, num, "0x%x" % v, v); ctx.ob(F, "0x%X" % v, num, "0x%X" % v, v)
    def bad(s):
        try: g = I.resolve(I.invoke("starky::types::parse_pil_number", [M.StrObj(s)]))
        except Panic: return
        return "%r is read as %s" % (s, g)
    for s in ("", "x", "0x", "1x", "0xg", "1 ", "--1", "1.5", "%d" % 2**127, "-%d" % (2**127 + 1)): ctx.ob(F, "refuses %r" % s, bad, s)
    L = "starky/src/helper.rs log2_any"
    def log(v):
        g = I.resolve(I.invoke("starky::helper::log2_any", [v]))
        if g != v.bit_length() - 1: return "log2_any(%d) is %s" % (v, g)
    for k in range(32):
        for v in sorted({2**k, 2**(k + 1) - 1, 2**k + (2**k - 1) // 3, 2**k + 1 if k else 1}): ctx.ob(L, "2^%d range: %d" % (k, v), log, v)
    def tobig(n):
        f = I.F[n]; x = f.var("x")
        g = I.invoke("starky::helper::fr_to_biguint", [Ref([x], 0)], ["starky::field_bn128::Fr" if n == "BN" else "starky::field_bls12381::Fr"])
        g = I.resolve(M.deref(g))
        if type(g) is Agg: g = g.f[0]
        w = bits_of(FM.canon(x), 256); h = bits_of(g, 256)
        if list(w) != list(h): return "the big integer is not the canonical value"
    for n in ("BN", "BLS"): ctx.ob("starky/src/helper.rs fr_to_biguint", n, tobig, n)
    def tobe(v):
        g = I.invoke("starky::helper::biguint_to_be", [Ref([v], 0)]); e = FM.fe(g, I=I)
        if not e.is_const(): raise Undecided("not constant")
        if e.cval() != v % p: return "%d becomes %d" % (v, e.cval())
    for v in [v for v in vals if v >= 0] + [2**200 + 17, p * p + 5]: ctx.ob("starky/src/helper.rs biguint_to_be", str(v), tobe, v)
