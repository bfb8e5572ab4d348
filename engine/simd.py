"""Vector intrinsics as operations on lanes. A vector is V(lanes) with one value per 64-bit lane.

Lane values: an integer or Lin (the word itself), Sh(x) (x with its top bit flipped), Hv(lo, hi) (two 32-bit halves),
Mk(c) (all ones where c, else zero), or any other value, which may only be moved. Conditions that the intervals and the
path facts do not settle are split on: `split` runs the evaluation once for every feasible outcome."""
from dom import *
from aeval import *
import lin, polyhedra
TERMS = lin.TERMS
from math import floor, ceil
B64 = 1 << 64; TOP = 1 << 63; M32 = (1 << 32) - 1
class V:
    sym_int = True
    def __init__(self, l): self.l = list(l)
    def __repr__(self): return "V%d" % len(self.l)
    def __deepcopy__(self, m): return self
class Sh:
    def __init__(self, x): self.x = x
class Hv:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
class Mk:
    def __init__(self, c): self.c = c
class Km:
    """A mask register: one condition per lane."""
    def __init__(self, c): self.c = c
    def __deepcopy__(self, m): return self
class Infeasible(Exception): pass

class Simd:
    def __init__(self, I, width):
        self.I = I; self.n = width; self.script = []; self.pos = 0; self.used = set()
        for m in dir(self):
            if m.startswith("i_"): self.install(m[2:])
        base = I.cast
        def cast(kind, v, to, fr): return self.cast(base, kind, v, to, fr)
        I.cast = cast
        self.views = []
        for m in ("const", "mut"): I.hooks["core::ptr::%s_ptr::<impl *%s T>::cast" % (m, m)] = self.ptrcast
    def stale(self):
        """A packed view that could not share its elements was written: the run says nothing."""
        for l, was in self.views:
            if any(self.flat(x)[0] is not y for x, y in zip(l, was)): raise Undecided("write through a copied view")
    def build(self, tid, lanes):
        """A value of the given type from its lanes, or None for a vector register."""
        t = self.I.types[tid]
        if t["k"] == "array":
            n = len(lanes); e = t["e"]
            per = self.count(e)
            return None if per is None else Arr([self.build(e, lanes[i:i + per]) for i in range(0, n, per)])
        if t["k"] == "adt" and "m256" not in t["s"] and "m512" not in t["s"] and "m128" not in t["s"]:
            fs = t["v"][0]["f"]
            if len(fs) != 1: raise Undecided("transmute to %s" % t["s"])
            return Agg(tid, 0, [self.build(self.fty(fs[0]), lanes)])
        if t["k"] in ("int", "uint") and len(lanes) == 1: return self.word(lanes[0])
        raise Undecided("transmute to %s" % t["s"])
    def fty(self, f): return f if isinstance(f, int) else f["t"] if isinstance(f, dict) else f[1]
    def count(self, tid):
        """How many 64-bit lanes a value of the type holds; None for another layout."""
        t = self.I.types[tid]
        if t["k"] == "array":
            k = self.count(t["e"]); n = t.get("n")
            return None if k is None or not isinstance(n, int) else k * n
        if t["k"] == "adt" and t.get("v") and len(t["v"]) == 1 and len(t["v"][0]["f"]) == 1: return self.count(self.fty(t["v"][0]["f"][0]))
        if t["k"] in ("int", "uint"): return 1 if t["s"] in ("u64", "i64", "usize") else None
        return None
    def cast(self, base, kind, v, to, fr):
        T = self.I.types
        if kind == "Transmute":
            v = v if isinstance(v, (V, Km)) else self.I.unphi(v)
            if isinstance(v, V) and "__m" not in T[to]["s"]: return self.build(to, v.l)
            if "__mmask" in T[to]["s"] or T[to]["k"] in ("int", "uint") or "__m" not in T[to]["s"]: return base(kind, v, to, fr)
            return self.vec(v)
        if kind == "PtrToPtr" and type(v) is Ref:
            r = self.view(v, T[to].get("e"), T[fr].get("e"))
            if r is not None: return r
        return base(kind, v, to, fr)
    def view(self, v, a, b):
        """A pointer to scalars seen as a pointer to packed values."""
        if a is None or b is None or a == b or self.I.types[a]["k"] != "adt": return None
        n, m = self.count(a), self.count(b)
        if n is None or m != 1 or n == m: return None
        l = v.c
        if v.k == 0 and len(l) == n: return Ref([self.wrap(a, l)], 0)
        out = []
        for i in range(v.k, len(l) - n + 1, n):
            w = [Agg(x.ty, x.v, [Arr(list(x.f[0].f))]) for x in l[i:i + n]]
            self.views.append((w, [self.flat(x)[0] for x in w]))
            out.append(self.wrap(a, w))
        return Ref(out, 0)
    def ptrcast(self, I, args, cal):
        v = args[0] if type(args[0]) is Ref else I.unphi(args[0])
        if type(v) is not Ref: return NotImplemented
        a = cal.get("a") or []
        if len(a) != 2 or not all(isinstance(x, int) for x in a): return NotImplemented
        r = self.view(v, a[1], a[0])
        if r is None:
            if self.count(a[0]) == self.count(a[1]): return v
            raise Undecided("pointer cast")
        return r
    def wrap(self, tid, elems):
        """A packed value whose innermost array is the given list itself."""
        t = self.I.types[tid]
        if t["k"] == "array": return Arr(elems) if self.count(t["e"]) == 1 else Arr([self.wrap(t["e"], elems)])
        return Agg(tid, 0, [self.wrap(self.fty(t["v"][0]["f"][0]), elems)])
    def install(self, name):
        f = getattr(self, "i_" + name)
        def hook(I, args, cal):
            k = [x["c"] for x in cal.get("a") or [] if isinstance(x, dict)] + [x["c"] for x in cal.get("ra") or [] if isinstance(x, dict)]
            if any(x is None for x in k): raise Undecided("constant argument of %s" % name)
            self.used.add(name)
            return f(*[self.vec(a) for a in args], *k[:1])
        for w, mods in ((256, ("avx", "avx2")), (512, ("avx512f", "avx512bw", "avx512dq", "avx512cd"))):
            for m in mods: self.I.hooks["core::core_arch::x86::%s::_mm%d_%s" % (m, w, name)] = hook
    # a vector argument: V, or the constant it was initialised with
    def vec(self, a):
        a = self.I.unphi(a) if not isinstance(a, (V, Km)) else a
        if isinstance(a, (Agg, Arr)):
            l = self.flat(a)
            return V([x % B64 if isinstance(x, int) else x for x in l])
        return a
    def flat(self, a):
        if isinstance(a, V): return a.l
        if isinstance(a, (Agg, Arr)):
            o = []
            for x in a.f: o += self.flat(self.I.unphi(x) if not isinstance(x, V) else x)
            return o
        return [a]
    # case analysis
    def constraints(self, p):
        I = self.I; cons = []; mons = set(m for m in p if m)
        def le(q, b):       # q <= b
            cons.append(({m: c for m, c in q.items() if m}, b - q.get((), 0)))
        for i, b in I.pc.items():
            t = TERMS[i]
            if t.op == "neg":
                q = I.polys[t.id]
                if b: le(q, -1)
                else: le({m: -c for m, c in q.items()}, 0)
        todo = set(mons) | set(m for c, _ in cons for m in c); fs = list(I.gfacts); ch = True
        while ch:           # the definitions of the atoms met so far
            ch = False
            for f in list(fs):
                q, l, h = f
                ms = set(m for m in q if m)
                if ms & todo:
                    fs.remove(f); ch = True
                    if not ms <= todo: todo |= ms
                    if h is not None: le(q, h)
                    if l is not None: le({m: -c for m, c in q.items()}, -l)
        box = {}
        for m in todo: box[m] = I.prange({m: 1})
        return box, cons
    def bounds(self, p):
        """Range of a polynomial under the path facts, its monomials taken as independent; None if no point satisfies the facts."""
        box, cons = self.constraints(p)
        obj = {m: c for m, c in p.items() if m}
        h = polyhedra.maximum(obj, box, cons)
        if h is None: return None
        l = -polyhedra.maximum({m: -c for m, c in obj.items()}, box, cons)
        return ceil(l) + p.get((), 0), floor(h) + p.get((), 0)
    def pinned(self, d):
        """The polynomial with every monomial that the facts fix, alone or relative to another, replaced."""
        d = dict(d); ms = [m for m in d if m]
        for i, m in enumerate(ms):
            if m not in d: continue
            for n in [None] + ms[i + 1:]:
                q = {m: 1} if n is None else {m: 1, n: -1}
                b = self.bounds(q)
                if b is None: return {}
                if b[0] == b[1]:
                    k = d.pop(m)
                    d[()] = d.get((), 0) + k * b[0]
                    if n is not None: d[n] = d.get(n, 0) + k
                    break
        return {m: c for m, c in d.items() if c}
    def decide(self, c):
        I = self.I
        if isinstance(c, bool): return c
        k = I.cond_known(c)
        if k is not None: return k
        if self.pos >= len(self.script) and c.op == "neg":
            b = self.bounds(I.polys[c.id])
            if b is None: raise Infeasible
            if b[1] < 0: k = True
            elif b[0] >= 0: k = False
            if k is not None: self.script.append([k])
        if self.pos == len(self.script): self.script.append([True, False])
        v = self.script[self.pos][0]; self.pos += 1
        I.set_pc(c, v)
        return v
    def cases(self, run):
        """Yields (result of run, path facts) for every feasible outcome of the undecided conditions."""
        self.script = []
        n = 0; I = self.I
        mark = (len(I.names), len(I.gfacts), dict(I.highs), dict(I.inds))
        while True:
            self.pos = 0; I.pc = {}
            # atoms and facts of another case hold only on its path
            del I.names[mark[0]:], I.rng[mark[0]:], I.defs[mark[0]:], I.gfacts[mark[1]:]
            I.highs = dict(mark[2]); I.inds = dict(mark[3]); I._cases.clear()
            n += 1
            if n > 4000: raise Undecided("too many cases")
            try: r = run(); feas = not self.I.pc or self.bounds({}) is not None
            except Infeasible: feas = False
            if feas: yield r
            self.I.pc = {}
            while self.script and len(self.script[-1]) == 1: self.script.pop()
            if not self.script: return
            self.script[-1].pop(0)
    # scalar helpers
    def op(self, o, a, b, w=64): return self.I.binop(o, a, b, w, False)
    def word(self, x):
        if isinstance(x, Hv) and x.lo is None: raise Undecided("low half of a comparison")
        if isinstance(x, Hv): return self.op("Add", self.op("Shl", x.hi, 32), x.lo)
        if isinstance(x, Mk): return B64 - 1 if self.decide(x.c) else 0
        if isinstance(x, Sh):
            if isinstance(x.x, int): return x.x ^ TOP
            return self.add(x.x, TOP) if not self.decide(self.op("Ge", x.x, TOP)) else self.op("Sub", x.x, TOP)
        return x
    def lo(self, x):
        if isinstance(x, Hv):
            if x.lo is None: raise Undecided("low half of a comparison")
            return x.lo
        if isinstance(x, Mk): return M32 if self.decide(x.c) else 0
        if isinstance(x, Sh): return self.lo(x.x)
        return self.op("BitAnd", x, M32)
    def hi(self, x):
        if isinstance(x, Hv): return x.hi
        if isinstance(x, Mk): return M32 if self.decide(x.c) else 0
        if isinstance(x, Sh): x = self.word(x)
        return self.op("Shr", x, 32)
    def lift(self, x): return self.I.lift(x)
    def add(self, a, b):
        """Sum modulo 2^64, the carry settled."""
        A, B = self.lift(a), self.lift(b)
        if A.hi + B.hi < B64: return self.op("Add", a, b)
        p = lin.padd(A.p, B.p)
        over = self.decide(self.I.neg(lin.padd({(): B64 - 1}, p, -1)))
        if over: return self.I.mk(lin.padd(p, {(): B64}, -1), 0, min(B64 - 1, A.hi + B.hi - B64))
        return self.I.mk(p, 0, B64 - 1)
    def sub(self, a, b):
        A, B = self.lift(a), self.lift(b)
        p = lin.padd(A.p, B.p, -1)
        under = self.decide(self.I.neg(p))
        if under: return self.I.mk(lin.padd(p, {(): B64}), 0, B64 - 1)
        return self.I.mk(p, 0, B64 - 1)
    def less(self, a, b):
        A, B = self.lift(a), self.lift(b)
        return self.I.neg(lin.padd(A.p, B.p, -1))
    def l_add(self, a, b):
        s = isinstance(a, Sh) != isinstance(b, Sh)
        if not isinstance(a, Sh): a = self.word(a)
        if not isinstance(b, Sh): b = self.word(b)
        r = self.add(a.x if isinstance(a, Sh) else a, b.x if isinstance(b, Sh) else b)
        return Sh(r) if s else r
    def l_sub(self, a, b):
        if isinstance(b, Sh) and isinstance(a, int): a = Sh(a ^ TOP)
        s = isinstance(a, Sh) != isinstance(b, Sh)
        if not isinstance(a, Sh): a = self.word(a)
        if not isinstance(b, Sh): b = self.word(b)
        r = self.sub(a.x if isinstance(a, Sh) else a, b.x if isinstance(b, Sh) else b)
        return Sh(r) if s else r
    def l_xor(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if y == 0: return x
                if y == TOP: return x.x if isinstance(x, Sh) else Sh(self.word(x))
                if isinstance(x, int): return x ^ y
        raise Undecided("exclusive or of lanes")
    def l_sgt(self, a, b):
        """Signed a > b on whole lanes."""
        if isinstance(a, Sh) and isinstance(b, int): b = Sh(b ^ TOP)
        if isinstance(b, Sh) and isinstance(a, int): a = Sh(a ^ TOP)
        if isinstance(a, Sh) and isinstance(b, Sh): return self.less(b.x, a.x)
        a, b = self.word(a), self.word(b)
        def signed(x):
            if isinstance(x, int): return x - B64 if x >= TOP else x
            X = self.lift(x)
            if X.hi < TOP: return x
            raise Undecided("signed comparison of lanes")
        a, b = signed(a), signed(b)
        if isinstance(a, int) and isinstance(b, int): return a > b
        return self.I.neg(lin.padd(self.lift(b).p, self.lift(a).p, -1))
    def l_sgt32(self, a, b):
        """Signed comparison of the high halves of two words with flipped top bits; the low half is not used by this code."""
        if isinstance(a, int): a = Sh(a ^ TOP)
        if isinstance(b, int): b = Sh(b ^ TOP)
        if not (isinstance(a, Sh) and isinstance(b, Sh)): raise Undecided("comparison of half lanes")
        x, y = a.x, b.x
        if isinstance(x, int) and isinstance(y, int): return Hv(None, M32 if x >> 32 > y >> 32 else 0)
        if not self.decide(self.less(y, x)): return Hv(None, 0)          # x <= y gives equal or smaller high halves
        d = lin.padd(self.lift(x).p, self.lift(y).p, -1)
        if self.I.tight(d)[0] >= 1 << 32: return Hv(None, M32)           # a difference of 2^32 or more shows in the high halves
        hx, hy = self.hi(x), self.hi(y)
        return Hv(None, M32 if self.decide(self.less(hy, hx)) else 0)
    def mul32(self, a, b):
        a, b = self.lo(a), self.lo(b)
        return self.op("Mul", a, b)
    def map(self, f, *vs): return V([f(*x) for x in zip(*(v.l for v in vs))])
    # intrinsics
    def i_xor_si256(self, a, b): return self.map(self.l_xor, a, b)
    def i_and(self, a, b):
        def f(a, b):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Mk): return y if self.decide(x.c) else 0
                if isinstance(y, int) and y == M32: return self.lo(x)
                if isinstance(y, int) and y == B64 - 1: return x
                if isinstance(y, int) and y == 0: return 0
            return self.op("BitAnd", self.word(a), self.word(b))
        return self.map(f, a, b)
    def i_and_si256(self, a, b): return self.i_and(a, b)
    def i_and_si512(self, a, b): return self.i_and(a, b)
    def i_andnot_si256(self, a, b):
        def f(a, b):
            if isinstance(a, Mk): return 0 if self.decide(a.c) else b
            if isinstance(a, int) and isinstance(b, int): return ~a & (B64 - 1) & b
            raise Undecided("and-not of lanes")
        return self.map(f, a, b)
    def i_add_epi64(self, a, b): return self.map(self.l_add, a, b)
    def i_sub_epi64(self, a, b): return self.map(self.l_sub, a, b)
    def i_cmpgt_epi64(self, a, b): return V([Mk(self.l_sgt(x, y)) for x, y in zip(a.l, b.l)])
    def i_cmpgt_epi32(self, a, b): return self.map(self.l_sgt32, a, b)
    def i_mul_epu32(self, a, b): return self.map(self.mul32, a, b)
    def i_srli_epi64(self, a, k):
        if k > 63: return V([0] * len(a.l))
        return V([self.hi(x) if k == 32 else self.op("Shr", self.word(x), k) for x in a.l])
    def i_slli_epi64(self, a, k):
        if k > 63: return V([0] * len(a.l))
        def f(x):
            if k >= 32:     # only the low 64-k bits stay
                w = self.word(x)
                if isinstance(w, int): return w << k & (B64 - 1)
                return self.op("Shl", self.op("BitAnd", w, (1 << (64 - k)) - 1), k)
            return self.op("Shl", self.word(x), k)
        return V([f(x) for x in a.l])
    def i_movehdup_ps(self, a): return V([Hv(h, h) for h in map(self.hi, a.l)])
    def i_moveldup_ps(self, a): return V([Hv(h, h) for h in map(self.lo, a.l)])
    def i_blend_epi32(self, a, b, k):
        o = []
        for i, (x, y) in enumerate(zip(a.l, b.l)):
            l, h = k >> 2 * i & 1, k >> 2 * i + 1 & 1
            o.append(y if l and h else x if not l and not h else Hv(self.lo(y if l else x), self.hi(y if h else x)))
        return V(o)
    def i_mask_blend_epi32(self, k, a, b):
        if not isinstance(k, int): raise Undecided("blend mask")
        return self.i_blend_epi32(a, b, k)
    def i_cmpge_epu64_mask(self, a, b):
        def f(x, y):
            c = self.less(self.word(x), self.word(y))
            return not c if isinstance(c, bool) else t_not(c)
        return Km([f(x, y) for x, y in zip(a.l, b.l)])
    def i_cmplt_epu64_mask(self, a, b): return Km([self.less(self.word(x), self.word(y)) for x, y in zip(a.l, b.l)])
    def masked(self, f, s, k, a, b):
        if isinstance(k, int): k = Km([bool(k >> i & 1) for i in range(len(s.l))])
        return V([f(x, y) if self.decide(c) else z for z, c, x, y in zip(s.l, k.c, a.l, b.l)])
    def i_mask_sub_epi64(self, s, k, a, b): return self.masked(self.l_sub, s, k, a, b)
    def i_mask_add_epi64(self, s, k, a, b): return self.masked(self.l_add, s, k, a, b)
    # moves
    def pairs(self, a, b, i): return V([z for j in range(0, len(a.l), 2) for z in (a.l[j + i], b.l[j + i])])
    def i_unpacklo_epi64(self, a, b): return self.pairs(a, b, 0)
    def i_unpackhi_epi64(self, a, b): return self.pairs(a, b, 1)
    def i_unpacklo_pd(self, a, b): return self.pairs(a, b, 0)
    def i_unpackhi_pd(self, a, b): return self.pairs(a, b, 1)
    def perm128(self, a, b, k):
        h = [a.l[:2], a.l[2:], b.l[:2], b.l[2:]]
        def pick(n): return [0, 0] if n & 8 else h[n & 3]
        return V(pick(k & 15) + pick(k >> 4 & 15))
    def i_permute2x128_si256(self, a, b, k): return self.perm128(a, b, k)
    def i_permute2f128_si256(self, a, b, k): return self.perm128(a, b, k)
    def i_castsi256_si128(self, a): return V(a.l[:2])
    def i_inserti128_si256(self, a, b, k): return V(a.l[:2] + b.l[:2] if k & 1 else b.l[:2] + a.l[2:])
    def i_permutex2var_epi64(self, a, i, b):
        s = a.l + b.l
        if any(not isinstance(x, int) for x in i.l): raise Undecided("permutation index")
        return V([s[x & (2 * len(a.l) - 1)] for x in i.l])
    def i_shuffle_i64x2(self, a, b, k):
        def blk(v, n): return v.l[2 * n:2 * n + 2]
        return V(blk(a, k & 3) + blk(a, k >> 2 & 3) + blk(b, k >> 4 & 3) + blk(b, k >> 6 & 3))
    def i_set1_epi64x(self, x): return V([x] * self.n)
    def same(self, a): return a
    i_castps_si256 = i_castsi256_ps = i_castpd_si256 = i_castsi256_pd = i_castps_si512 = i_castsi512_ps = i_castpd_si512 = i_castsi512_pd = same
