from dom import *
from aeval import *
import models as M, fieldmodels as FM, lin, simd, posref, itertools, hashing as H, c07
from lin import padd, pmul, TERMS
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR built for each vector instruction set: exact integer lanes for the packed field, symbolic field elements for the packed permutation"
RULE = ("starky and fields are compiled for analysis with AVX2 and with AVX-512. Vector registers are lists of 64-bit lanes and every intrinsic the code calls has its published meaning on lanes. "
        "Each packed operation is evaluated with one lane symbolic, lane by lane, the undecided carries split into cases: the result must be congruent to the scalar operation and reduced for every operand, and the other lanes must hold their own results. "
        "The packed permutation is evaluated on a fully symbolic state and compared, output by output, with the plain permutation. With it uninterpreted, row hashes, trees, openings and verification as each instruction set compiles them are evaluated on symbolic rows and must be the terms of the reference tree (the one of C07).")
ASSUME = ["the vendor's description of the intrinsics", "scalar arithmetic is exact (C01)", "the packed permutation's calls of packed operators are replaced by lane-wise field operations, which the first part decides", "the packed permutation is asked for at most 4 (AVX2) or 8 (AVX-512) outputs, all its callers use", "heights, widths and worker counts of the trees are the enumerated ones"]
P = 2**64 - 2**32 + 1
A = "core::ops::arith::"
B64 = 1 << 64
def K(ft): return {"avx2": ("fields::arch::x86_64::avx2_field_gl::Avx2GoldilocksField", 4, "fields/src/arch/x86_64/avx2_field_gl.rs ", "avx2"),
                   "avx512": ("fields::arch::x86_64::avx512_field_gl::Avx512GoldilocksField", 8, "fields/src/arch/x86_64/avx512_field_gl.rs ", "avx512")}[ft]
RP = "fields::field_gl::FrRepr"
def edges():
    e = []
    for c in (0, 2**31, 2**32, 2**33, 2**63, P >> 1, P - 2**32, P, 2**64): e += [(c + k) % 2**64 for k in (-2, -1, 0, 1, 2)]
    return sorted(set(e))
def points(n):
    e = edges()
    if n == 0: yield (); return
    for t in itertools.product(e, repeat=n): yield t
    if n == 2:
        for x in e:
            for s in (P, 2**64, P + 1, P - 1, 2**64 - 1): yield (x, (s - x) % 2**64)
    rng = __import__("random").Random(1)
    for _ in range(20000): yield tuple(rng.randrange(2**64) for _ in range(n))
def field(ctx, ft):
    T, W, FILE, _ = K(ft)
    mir = ctx.simd(ft); I = lin.LinInterp(mir); I.MOD = P; S = simd.Simd(I, W)
    ctx.interps = getattr(ctx, "interps", []) + [I]
    tid, rtid = mir.tid(T), mir.tid(RP)
    def rep(x): return Agg(rtid, 0, [Arr([x])])
    def pk(l): return Agg(tid, 0, [Arr([rep(x) for x in l])])
    def lanes(v): return [S.word(x) for x in S.flat(I.unphi(v) if not isinstance(v, simd.V) else v)]
    def chk(v, spec, full):
        v = I.lift(v)
        d = {m: c % P for m, c in padd(v.p, spec, -1).items() if c % P}
        if d: d = {m: c % P for m, c in S.pinned(d).items() if c % P}
        lo, hi = I.tight(v)
        if not d and not full and hi >= P:
            b = S.bounds(v.p)
            if b is None: return None
            lo, hi = max(lo, b[0]), min(hi, b[1])
        if not d and lo >= 0 and (hi < P or full): return None
        vs = sorted(I.variables(v.p) | I.variables(spec))
        cs = [(TERMS[i], b) for i, b in I.pc.items()] if I.pc else []
        vs = sorted(set(vs) | set(a for c, b in cs for a in condvars(I, c)))
        for pt in points(len(vs)):
            env = dict(zip(vs, pt))
            if any(not I.rng[a][0] <= x <= I.rng[a][1] for a, x in env.items()): continue
            if any(I.cvalue(c, env) != b for c, b in cs): continue
            got, want = I.value(v.p, env), I.value(spec, env) % P
            if got % P != want or not full and got != want:
                return "%d instead of %d for lane values %s" % (got, want, ", ".join("%s=%d" % (I.names[a], x) for a, x in sorted(env.items())))
        raise Undecided("no identity (difference of %d terms, range [%d, p%+d]) and no witness" % (len(d), lo, hi - P))
    # concrete values of the other lanes, different from each other and next to the edges
    other = [P - 1, 0, 2**32, 2**63 + 5, 1, P - 2**32, 2**63 - 1, 0x123456789abcdef1]
    def args(k, l, vs, tops):
        """k packed operands, lane l symbolic."""
        return [pk([vs[j] if i == l else other[(i * 3 + j * 5 + 1) % 8] for i in range(W)]) for j in range(k)]
    def conc(v): return v if isinstance(v, int) else None
    def run(k, f, spec, tops=None, full=False, lanesel=None):
        """f(list of packed operands) against spec(list of polynomials or integers)."""
        tops = tops or [P - 1] * k
        for l in (range(W) if lanesel is None else lanesel):
            vs = [I.var("xyz"[j], 0, tops[j]) for j in range(k)]
            def go():
                ops = args(k, l, vs, tops)
                vals = [lanes(o) for o in ops]
                r = f(ops, l)
                return lanes(r), vals
            for out, vals in S.cases(go):
                if len(out) != W: raise Undecided("%d lanes" % len(out))
                for i in range(W):
                    sp = spec([{(): v[i]} if isinstance(v[i], int) else v[i].p for v in vals], i)
                    e = chk(out[i], sp, full)
                    if e: return "lane %d: %s" % (i, e)
    def neg(p): return {m: -c for m, c in p.items()}
    SP = {"add": lambda a, b: padd(a, b), "sub": lambda a, b: padd(a, b, -1), "mul": lambda a, b: pmul(a, b)}
    def op2(op, tops):
        return lambda: run(2, lambda o, l: I.invoke("<%s as %s%s>::%s" % (T, A, op.capitalize(), op), o), lambda v, i: SP[op](*v), tops)
    def asg(op):
        def f(o, l):
            r = Ref([o[0]], 0); I.invoke("<%s as %s%sAssign>::%s_assign" % (T, A, op.capitalize(), op), [r, o[1]]); return r.get()
        return lambda: run(2, f, lambda v, i: SP[op](*v), lanesel=[0, W - 1])
    ANY = [B64 - 1] * 2
    for op in ("add", "sub", "mul"):
        ctx.ob(FILE + op, "%s: x %s y in every lane, all reduced operands" % (ft, op), op2(op, None))
        ctx.ob(FILE + op + "_assign", "%s: x %s= y" % (ft, op), asg(op))
        # a scalar operand stands for the vector of its copies
        cs = (0, 1, 2**32 - 1, P - 1, 2**63)
        def right(op=op):
            for c in cs:
                e = run(1, lambda o, l: I.invoke("<%s as %s%s<%s>>::%s" % (T, A, op.capitalize(), RP, op), [o[0], rep(c)]), lambda v, i: SP[op](v[0], {(): c} if c else {}), lanesel=[0, W - 1])
                if e: return e
        def left(op=op):
            for c in cs:
                e = run(1, lambda o, l: I.invoke("%s::<impl %s%s<%s> for %s>::%s" % (T.rsplit("::", 1)[0], A, op.capitalize(), T, RP, op), [rep(c), o[0]]), lambda v, i: SP[op]({(): c} if c else {}, v[0]), lanesel=[0, W - 1])
                if e: return e
        def righta(op=op):
            for c in cs:
                def f(o, l):
                    r = Ref([o[0]], 0); I.invoke("<%s as %s%sAssign<%s>>::%s_assign" % (T, A, op.capitalize(), RP, op), [r, rep(c)]); return r.get()
                e = run(1, f, lambda v, i: SP[op](v[0], {(): c} if c else {}), lanesel=[1])
                if e: return e
        ctx.ob(FILE + op, "%s: x %s a scalar" % (ft, op), right)
        ctx.ob(FILE + op, "%s: a scalar %s x" % (ft, op), left)
        ctx.ob(FILE + op + "_assign", "%s: x %s= a scalar" % (ft, op), righta)
    ctx.ob(FILE + "add", "%s: any words, reduced or not (the permutation adds low words)" % ft, op2("add", ANY))
    ctx.ob(FILE + "neg", "%s: -x" % ft, lambda: run(1, lambda o, l: I.invoke("<%s as %sNeg>::neg" % (T, A), o), lambda v, i: neg(v[0])))
    ctx.ob(FILE + "square", "%s: x^2" % ft, lambda: run(1, lambda o, l: I.invoke(T + "::square", [Ref(o, 0)]), lambda v, i: pmul(v[0], v[0])))
    def red(o, l): return I.invoke(T + "::reduce", [S.vec(o[0]), S.vec(o[1])])
    ctx.ob(FILE + "reduce", "%s: 2^64*hi + lo for all words" % ft, lambda: run(2, red, lambda v, i: padd({m: c * B64 for m, c in v[0].items()}, v[1]), ANY))
    def div(c):
        ci = pow(c, -1, P)
        return run(1, lambda o, l: I.invoke("<%s as %sDiv<%s>>::div" % (T, A, RP), [o[0], rep(c)]), lambda v, i: {m: k * ci for m, k in v[0].items()}, lanesel=[0, W - 1])
    for c in (1, 2, 2**32, P - 1, 7929433601095175579): ctx.ob(FILE + "div", "%s: x / %d" % (ft, c), div, c)
    def diva(c):
        def f(o, l):
            r = Ref([o[0]], 0); I.invoke("<%s as %sDivAssign<%s>>::div_assign" % (T, A, RP), [r, rep(c)]); return r.get()
        ci = pow(c, -1, P)
        return run(1, f, lambda v, i: {m: k * ci for m, k in v[0].items()}, lanesel=[1])
    ctx.ob(FILE + "div_assign", "%s: x /= 3" % ft, diva, 3)
    # moves
    def syms(n, a): return [I.var("%s%d" % (a, i), 0, P - 1) for i in range(n)]
    def same(got, want, what):
        got = lanes(got)
        if len(got) != len(want) or any(x is not y for x, y in zip(got, want)): return what
    def spread():
        x = I.var("x", 0, P - 1)
        return same(I.invoke("<%s as core::convert::From<%s>>::from" % (T, RP), [rep(x)]), [x] * W, "a scalar is not copied to every lane")
    ctx.ob(FILE + "from", ft + ": a scalar fills every lane", spread)
    def inter(b):
        x, y = syms(W, "x"), syms(W, "y")
        r = I.unphi(I.invoke("<%s as fields::packed::PackedField>::interleave" % T, [Ref([pk(x)], 0), pk(y), b]))
        if b == W: wx, wy = x, y
        else:
            wx, wy = [], []
            for i in range(0, W, 2 * b): wx += x[i:i + b] + y[i:i + b]; wy += x[i + b:i + 2 * b] + y[i + b:i + 2 * b]
        return same(r.f[0], wx, "first vector of interleave(%d)" % b) or same(r.f[1], wy, "second vector of interleave(%d)" % b)
    b = 1
    while b <= W: ctx.ob(FILE + "interleave", "%s: blocks of %d" % (ft, b), inter, b); b *= 2
    def consts():
        if I.invoke("vroots::width", []) != W: return "WIDTH is not %d" % W
        if lanes(I.invoke("vroots::ones", [])) != [1] * W: return "ONES is not one in every lane"
        if lanes(I.invoke("vroots::zeros", [])) != [0] * W: return "ZEROS is not zero in every lane"
        if lanes(I.invoke("<%s as core::default::Default>::default" % T, [])) != [0] * W: return "the default is not zero in every lane"
    ctx.ob(FILE + "ZEROS", ft + ": constants", consts)
    def slices():
        x = syms(W, "x"); l = [rep(v) for v in x]
        for n in ("from_slice", "from_slice_mut"):
            e = same(I.invoke("<%s as fields::packed::PackedField>::%s" % (T, n), [SRef(l, 0, W)]).get(), x, n + " reorders")
            if e: return e
        for n in ("as_slice", "as_slice_mut"):
            r = I.unphi(I.invoke("<%s as fields::packed::PackedField>::%s" % (T, n), [Ref([pk(x)], 0)]))
            if [S.flat(v)[0] for v in M.items(r)] != x: return n + " reorders"
        y = syms(3 * W, "y"); l = [rep(v) for v in y]
        r = M.items(I.unphi(I.invoke("vroots::pack", [SRef(l, 0, 3 * W)])))
        if len(r) != 3: return "pack_slice gives %d vectors" % len(r)
        for i in range(3):
            e = same(r[i], y[i * W:(i + 1) * W], "pack_slice reorders")
            if e: return e
    ctx.ob(FILE + "from_slice", ft + ": slices keep their order", slices)
    # the partial product of the permutation
    names = [f["p"] for f in mir.fns if f["mono"] and f["p"].startswith("starky::arch::") and "mult_avx" in f["p"] and f["p"].endswith("_72")]
    for n in names:
        def part(n=n):
            for l in range(W):
                a, b = I.var("a", 0, B64 - 1), I.var("b", 0, 2**32 - 1)
                def go():
                    h, lo = Ref([pk([0] * W)], 0), Ref([pk([0] * W)], 0)
                    I.invoke(n, [h, lo, pk([a if i == l else other[i] for i in range(W)]), pk([b if i == l else i + 3 for i in range(W)])])
                    return lanes(h.get()), lanes(lo.get())
                for h, lo in S.cases(go):
                    for i in range(W):
                        p = padd({m: c * B64 for m, c in I.lift(h[i]).p.items()}, I.lift(lo[i]).p)
                        want = pmul(a.p, b.p) if i == l else {(): other[i] * (i + 3)}
                        e = chk(lin.Lin(p, 0, B64 * B64), {m: c for m, c in want.items() if c}, True)
                        if e: return "lane %d: high and low word make %s" % (i, e)
        ctx.ob("starky/src/arch/x86_64/%s_poseidon_gl.rs %s" % (ft, n.rsplit("::", 1)[1]), "%s: high and low word of a*b for every 64-bit a and 32-bit b" % ft, part)
def condvars(I, c):
    o = set()
    try: p = I.polys.get(c.id)
    except AttributeError: p = None
    if p is not None: o |= set(I.variables(p))
    return o
def job(ctx, j):
    if j[0] == "field": field(ctx, j[1])
    elif j[0] == "perm": perm(ctx, j[1])
    else: tree(ctx, j[1], j[0], j[2])
class Loose:
    """A lane that holds a 64-bit word congruent to the element, not necessarily reduced."""
    sym_int = True
    def __init__(self, e): self.e = e
    def __deepcopy__(self, m): return self
def packed(I, S, ft):
    """Packed operators as lane-wise field operations; returns the constructor and the projection of packed values."""
    T, W, _, _ = K(ft); F = I.F["GL"]; mir = I.mir
    tid, rtid = mir.tid(T), mir.tid(RP)
    def el(x, loose=False):
        if isinstance(x, Loose):
            if not loose: raise Undecided("an unreduced word where a reduced one is needed")
            return x.e
        c, e = FM.from_int(F, x)
        if c is not True: raise Undecided("lane %s is not a reduced element" % short(x))
        return e
    def word(e): return FM.limbs_of(F, FM.canon(e))[0]
    def pk(l): return Agg(tid, 0, [Arr([Agg(rtid, 0, [Arr([x])]) for x in l])])
    def lanes(v):
        if isinstance(v, Ref): v = v.get()
        l = S.flat(v if isinstance(v, simd.V) else I.unphi(v))
        if len(l) != W: raise Undecided("%d lanes" % len(l))
        return l
    def lift(f, loose=False):
        def h(I, args, cal): return pk([word(f(*[el(x, loose) for x in xs])) for xs in zip(*[lanes(a) for a in args])])
        return h
    H = I.hooks
    for op, f, lo in (("add", fadd, True), ("sub", fsub, False), ("mul", fmul, False)): H["<%s as %s%s>::%s" % (T, A, op.capitalize(), op)] = lift(f, lo)
    H["<%s as %sNeg>::neg" % (T, A)] = lift(lambda a: fscale(a, -1 % P))
    H[T + "::square"] = lift(lambda a: fmul(a, a))
    H[T + "::reduce"] = lift(lambda h, l: fadd(fscale(h, B64 % P), l), True)
    fresh = {}
    def part(I, args, cal):
        hs, ls = [], []
        for a, b in zip(lanes(args[2]), lanes(args[3])):
            if not isinstance(b, int) or b >= 1 << 32: raise Undecided("second factor of a partial product")
            ab = fscale(el(a), b); k = (tuple(sorted(ab.d.items())), b)
            if k not in fresh: fresh[k] = F.var("carry%d" % len(fresh))
            hs.append(word(fresh[k])); ls.append(Loose(fsub(ab, fscale(fresh[k], B64 % P))))
        args[0].set(pk(hs)); args[1].set(pk(ls))
        return Agg(None, 0, [])
    for f in mir.fns:
        if f["mono"] and f["p"].startswith("starky::arch::") and "mult_avx" in f["p"] and f["p"].endswith("_72"): H[f["p"]] = part
    return el
def perm(ctx, ft):
    T, W, _, _ = K(ft); mir = ctx.simd(ft)
    I = FM.make(mir, ("GL",), "wrap"); ctx.interps = getattr(ctx, "interps", []) + [I]
    S = simd.Simd(I, W); F = I.F["GL"]
    packed(I, S, ft)
    mod = "starky::arch::x86_64::%s_poseidon_gl::Poseidon" % ft
    WH = "starky/src/arch/x86_64/%s_poseidon_gl.rs hash" % ft
    n = W // 4; ni, nc, no = 8 * n, 4 * n, 4 * n
    me = Ref([I.invoke(mod + "::new", [])], 0)
    st = [F.var("s%d" % i) for i in range(12 * n)]
    def call(inp, cap, out):
        S.views.clear()
        r = I.unphi(I.invoke(mod + "::hash", [me, Ref([Vec(list(inp))], 0), SRef(list(cap), 0, len(cap)), out]))
        S.stale()
        return r
    def split(st):
        """The interleaved states: blocks of four lanes belong to alternating hashes."""
        return [[x for b in range(3) for x in st[4 * n * b + 4 * k:4 * n * b + 4 * k + 4]] for k in range(n)]
    def t(out, st):
        r = call(st[:ni], st[ni:], out)
        if r.v != 0: return "returns an error for a well-formed block"
        l = M.items(r.f[0])
        want = [x for k in split(st) for x in posref.gl(F, k)[:4]]
        if len(l) != out: return "%d outputs instead of %d" % (len(l), out)
        for i in range(out):
            if l[i].d != want[i].d: return "output %d differs from the plain permutation" % i
    for out in (1, no): ctx.ob(WH, "%s: first %d outputs of a symbolic block and capacity" % (ft, out), t, out, st)
    m = 12 * n
    ctx.ob(WH, ft + ": a second state with the elements permuted", t, no, [st[(7 * i + 3) % m] if m % 7 else st[(5 * i + 3) % m] for i in range(m)])
    for k in (0, ni - 1, ni + 1, 12):
        if k == ni: continue
        def e(k=k):
            if call([F.var("x%d" % i) for i in range(k)], st[ni:], no).v == 0: return "accepts %d inputs" % k
        ctx.ob(WH, "%s: %d inputs are refused" % (ft, k), e)
    for k in (0, nc - 1, nc + 1):
        def e2(k=k):
            if call(st[:ni], [F.var("x%d" % i) for i in range(k)], no).v == 0: return "accepts %d capacity elements" % k
        ctx.ob(WH, "%s: a capacity of %d elements is refused" % (ft, k), e2)
def tree(ctx, ft, kind, j):
    """Row hashes, trees and openings as this instruction set computes them; the permutation is uninterpreted."""
    I = FM.make(ctx.simd(ft), ("GL",), "expand"); ctx.interps = getattr(ctx, "interps", []) + [I]
    H.install(I, ()); gl = I.F["GL"]
    n = {"avx2": 1, "avx512": 2}[ft]
    def h(J, a, c):
        inp, cap, out = H.fes(I, a[1]), H.fes(I, a[2]), I.resolve(a[3])
        if len(inp) != 8 * n or len(cap) != 4 * n: return M.err(Agg(None, 0, [M.StrObj("bad length")]))
        if not isinstance(out, int) or out > 4 * n: raise Undecided("output count")
        st = [[x for b in range(3) for x in (inp + cap)[4 * n * b + 4 * k:4 * n * b + 4 * k + 4]] for k in range(n)]
        return M.ok(Vec([H.perm(gl, "GL", s[:8], tuple(s[8:]), i) for s in st for i in range(4)][:out]))
    I.hooks["starky::arch::x86_64::%s_poseidon_gl::Poseidon::hash" % ft] = h
    (c07.build_job if kind == "build" else c07.verify_job)(ctx, j, I, ft + ": ")
def run(ctx):
    for ft in ("avx2", "avx512"): ctx.simd(ft)
    jobs = [("field", "avx512"), ("field", "avx2"), ("perm", "avx2"), ("perm", "avx512")]
    for ft in ("avx512", "avx2"):
        hs = (1, 2, 3, 4, 5, 7, 8, 16, 17, 33) if ctx.tier == "quick" else (*range(1, 20), 31, 33, 63, 65)
        jobs += [("build", ft, ("GL", 8192, 9, 4)), ("build", ft, ("GL", 1, 8400, 4))]
        jobs += [("build", ft, ("GL", w, h, c)) for w, h, c in [(2, h, 4) for h in hs] + [(w, h, 4) for h in (6, 9) for w in (1, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 34, 65, 100)] + [(5, 40, c) for c in (1, 2, 3, 9, 65)]]
        jobs += [("verify", ft, ("GL", w, d)) for w, d in ((5, 0), (5, 1), (5, 2), (40, 3), (2, 12))]
    ctx.parallel(job, jobs)
