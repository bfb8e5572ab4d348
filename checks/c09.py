from dom import *
from aeval import *
import models as M, fieldmodels as FM, extfast, random, os
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over linear forms of symbolic coefficients"
RULE = ("The block-parallel and the serial transforms are evaluated on vectors of symbolic coefficients (every entry symbolic up to 2^6 points; 2^13 and 2^14 points, where blocks and transposes come in, with a selection of entries symbolic), "
        "for several column counts and processor counts: every output must be the linear form sum x_i w^(ij) of its own column, the inverse and the low-degree extension likewise; evaluation, scaling and batch inversion are compared with their definitions.")
ASSUME = ["one-dimensional extension elements are the base field (C02)", "w is 7^((p-1)/2^k) and the shift 49 (C10)", "sizes of at least two points"]
P = "starky::fft_p::"
def W(gl, k): return pow(7, (gl.p - 1) >> k, gl.p)
SHIFT = 49
class Forms:
    def __init__(self, gl): self.gl = gl
    def lin(self, terms):
        """sum c * x for [(c, FE or None)]"""
        r = self.gl.zero
        d = {}
        p = self.gl.p
        for c, x in terms:
            if x is None: continue
            for m, e in x.d.items(): d[m] = (d.get(m, 0) + c * e) % p
        return FE(self.gl, {m: c for m, c in d.items() if c})
    def eval(self, xs, pts):
        p = self.gl.p; out = []
        idx = [(i, x) for i, x in enumerate(xs) if x.d]
        for t in pts: out.append(self.lin([(pow(t, i, p), x) for i, x in idx]))
        return out
    def fft(self, xs, k, shift=1):
        p = self.gl.p; w = W(self.gl, k)
        return self.eval(xs, [shift * pow(w, j, p) % p for j in range(1 << k)])
    def ifft(self, xs, k):
        p = self.gl.p; w = pow(W(self.gl, k), -1, p); ni = pow(1 << k, -1, p)
        return [fscale(x, ni) for x in self.eval(xs, [pow(w, j, p) for j in range(1 << k)])]
def cols(gl, k, w, some=None):
    n = 1 << k
    return [[gl.var("x%d_%d" % (i, c)) if some is None or i in some else gl.zero for i in range(n)] for c in range(w)]
class Bits:
    """A word as its bits, lowest first: a constant or an atom each."""
    sym_int = True
    def __init__(self, b): self.b = b
    def __deepcopy__(self, m): return self
def bitjob(ctx):
    """The index permutation on a word of symbolic bits, for every size the cache can be asked for."""
    I = ctx.interp(("GL",), "expand"); base = I.binop
    def binop(op, x, y, w, sg):
        if not isinstance(x, Bits) and not isinstance(y, Bits): return base(op, x, y, w, sg)
        if op.endswith("Unchecked"): op = op[:-9]
        if op in ("Shl", "Shr"):
            if not isinstance(y, int): raise Undecided("shift of bits")
            y &= w - 1
            return Bits(([0] * y + x.b)[:w] if op == "Shl" else (x.b + [0] * w)[y:y + w])
        X, Y = ([v >> i & 1 for i in range(w)] if isinstance(v, int) else v.b for v in (x, y))
        o = []
        for a, b in zip(X, Y):
            if op == "BitAnd": r = 0 if 0 in (a, b) else b if a == 1 else a if b == 1 or a == b else None
            elif op in ("BitOr", "BitXor", "Add"): r = b if a == 0 else a if b == 0 or op == "BitOr" and a == b else None
            else: r = None
            if r is None: raise Undecided("%s of bits" % op)
            o.append(r)
        return Bits(o)
    I.binop = binop
    cand = [i for i, f in enumerate(I.mir.fns) if f["mono"] and f["p"].startswith(P + "BR::") and f.get("argc") in (2, 3)]
    def rev(k):
        ok = 0
        for c in cand:
            x = Bits(["x%d" % i for i in range(k)] + [0] * (64 - k))
            r = I.run(c, ([Ref([Agg(None, 0, [])], 0)] if I.mir.fns[c]["argc"] == 3 else []) + [x, k])
            if isinstance(r, int): r = Bits([r >> i & 1 for i in range(64)])
            if not isinstance(r, Bits): raise Undecided("result of the index permutation")
            ok += 1
            if r.b != x.b[:k][::-1] + [0] * (64 - k): return "bit %d of the index is misplaced in a transform of 2^%d points" % (next(i for i in range(k) if r.b[k - 1 - i] != x.b[i]), k)
        if not ok: raise Undecided("no index permutation found")
    for k in range(1, 33): ctx.ob("starky/src/fft_p.rs BR", "2^%d points: the bits of every index are reversed" % k, rev, k)
def job(ctx, j):
    kind = j[0]
    if kind == "bits": return bitjob(ctx)
    I = ctx.interp(("GL",), "expand"); gl = I.F["GL"]; I.ncpu = 4
    E = extfast.Ext1(I); R = Forms(gl)
    def vec(cs): return Vec([E.mk(cs[c][i]) for i in range(len(cs[0])) for c in range(len(cs))])
    def par(fn, cs, k, kext=None):
        n = 1 << (k if kext is None else kext); w = len(cs)
        src = vec(cs); dst = Vec([E.raw(gl.var("old%d" % (i % 5))) for i in range(n * w)])
        I.invoke(P + fn, [Ref([src], 0), w, k, Ref([dst], 0)] + ([] if kext is None else [kext]), [E.P])
        l = M.items(dst)
        if len(l) != n * w: raise Panic("the output has another length")
        return [[E.el(l[i * w + c])[0] for i in range(n)] for c in range(w)]
    def same(got, want, what):
        for c, (g, w) in enumerate(zip(got, want)):
            for i, (a, b) in enumerate(zip(g, w)):
                if a.d != b.d: return "output %d of column %d is not %s" % (i, c, what)
    def fwd(k, w, cpus, some=None):
        I.ncpu = cpus; cs = cols(gl, k, w, some)
        return same(par("fft", cs, k), [R.fft(x, k) for x in cs], "the polynomial's value at that point")
    def inv(k, w, cpus, some=None):
        I.ncpu = cpus; cs = cols(gl, k, w, some)
        return same(par("ifft", cs, k), [R.ifft(x, k) for x in cs], "the interpolant's coefficient")
    def ext(k, w, kx, cpus, some=None):
        I.ncpu = cpus; cs = cols(gl, k, w, some)
        want = []
        for x in cs:
            if some is None: want.append(R.fft(R.ifft(x, k) + [gl.zero] * ((1 << kx) - (1 << k)), kx, SHIFT))
            else: want.append(sparse_ext(x, k, kx))
        return same(par("interpolate", cs, k, kx), want, "the interpolant's value on the shifted coset")
    def sparse_ext(x, k, kx):
        """Value at s of the basis interpolant of point i: (s^n - 1) / (n (s w^-i - 1))."""
        p = gl.p; n = 1 << k; w = W(gl, k); out = []; wx = W(gl, kx); ni = pow(n, -1, p)
        idx = [(pow(w, -i, p), e) for i, e in enumerate(x) if e.d]
        s = SHIFT
        for j in range(1 << kx):
            z = (pow(s, n, p) - 1) * ni % p
            out.append(R.lin([(z * pow(s * wi - 1, -1, p) % p, e) for wi, e in idx]))
            s = s * wx % p
        return out
    fp = "starky/src/fft_p.rs"
    if kind == "small":
        for k in range(1, 7):
            for w in (1, 2, 3, 5):
                for cpus in (1, 4, 65) if k < 6 else (4,):
                    ctx.ob(fp + " fft", "2^%d points, %d columns, %d processors" % (k, w, cpus), fwd, k, w, cpus)
                    ctx.ob(fp + " ifft", "2^%d points, %d columns, %d processors" % (k, w, cpus), inv, k, w, cpus)
    elif kind == "ext":
        for k in range(1, 6):
            for kx in range(k, k + 4):
                for w in (1, 2, 3):
                    ctx.ob(fp + " interpolate", "2^%d to 2^%d points, %d columns" % (k, kx, w), ext, k, w, kx, 4)
    elif kind == "dim3":
        def three(fn, k, w):
            n = 1 << k
            x = [[[gl.var("x%d_%d_%d" % (i, c, t)) for t in range(3)] for c in range(w)] for i in range(n)]
            src = Vec([E.mk3(x[i][c]) for i in range(n) for c in range(w)]); kx = k + 1 if fn == "interpolate" else k
            dst = Vec([E.raw(gl.zero) for _ in range(w << kx)])
            I.invoke(P + fn, [Ref([src], 0), w, k, Ref([dst], 0)] + ([kx] if fn == "interpolate" else []), [E.P])
            l = M.items(dst)
            for c in range(w):
                for t in range(3):
                    y = [x[i][c][t] for i in range(n)]
                    want = R.fft(y, k) if fn == "fft" else R.ifft(y, k) if fn == "ifft" else R.fft(R.ifft(y, k) + [gl.zero] * n, kx, SHIFT)
                    for i in range(1 << kx):
                        g = (E.el(l[i * w + c]) + [gl.zero] * 3)[t]
                        if g.d != want[i].d: return "coefficient %d of output %d is wrong" % (t, i)
        for fn in ("fft", "ifft", "interpolate"):
            for k in (1, 2, 3): ctx.ob(fp + " " + fn, "2^%d three-coefficient elements, 2 columns" % k, three, fn, k, 2)
    elif kind == "serial":
        me = [None]
        def start():
            me[0] = Ref([I.invoke("starky::fft::FFT::<F>::new", [], [E.P])], 0)
        ctx.ob("starky/src/fft.rs new", "tables", start)
        def ser(fn, k):
            x = cols(gl, k, 1)
            r = I.invoke("starky::fft::FFT::<F>::" + fn, [me[0], SRef(vec(x).f, 0, 1 << k)], [E.P])
            return same([[E.el(v)[0] for v in M.items(r)]], [R.fft(x[0], k) if fn == "fft" else R.ifft(x[0], k)], "the transform's")
        for k in range(0, 7):
            for fn in ("fft", "ifft"): ctx.ob("starky/src/fft.rs " + fn, "2^%d points" % k, ser, fn, k)
        def bad(n):
            try: I.invoke("starky::fft::FFT::<F>::fft", [me[0], SRef(vec([[gl.var("x%d" % i) for i in range(n)]]).f, 0, n)], [E.P])
            except Panic: return None
            return "%d points are accepted" % n
        for n in (3, 5, 6, 12): ctx.ob("starky/src/fft.rs fft", "%d points are refused" % n, bad, n)
    elif kind == "poly":
        pu = "starky/src/polutils.rs "; x = gl.var("x")
        def ev(n):
            c = [gl.var("c%d" % i) for i in range(n)]
            r = I.invoke("starky::polutils::eval_pol", [SRef([E.mk(v) for v in c], 0, n), Ref([E.mk(x)], 0)], [E.P])
            w = gl.zero
            for i in range(n): w = fadd(w, fmul(c[i], fpow(x, i)))
            if E.el(r)[0].d != w.d: return "the value of a polynomial of %d coefficients is wrong" % n
        for n in (0, 1, 2, 3, 5, 8): ctx.ob(pu + "eval_pol", "%d coefficients" % n, ev, n)
        def mulaxi(n):
            c = [gl.var("c%d" % i) for i in range(n)]; i0, acc = gl.var("i"), gl.var("a")
            v = Vec([E.mk(y) for y in c])
            I.invoke("starky::polutils::pol_mul_axi", [SRef(v.f, 0, n), E.mk(i0), Ref([E.mk(acc)], 0)], [E.P])
            for i in range(n):
                if E.el(v.f[i])[0].d != fmul(c[i], fmul(i0, fpow(acc, i))).d: return "entry %d is not scaled by init*acc^%d" % (i, i)
        for n in (0, 1, 2, 5): ctx.ob(pu + "pol_mul_axi", "%d entries" % n, mulaxi, n)
        def binv(n):
            c = [gl.var("c%d" % i) for i in range(n)]
            r = M.items(I.invoke("starky::polutils::batch_inverse", [SRef([E.mk(v) for v in c], 0, n)], [E.P]))
            if len(r) != n: return "%d inverses of %d elements" % (len(r), n)
            for i in range(n):
                d = fsub(fmul(E.el(r[i])[0], c[i]), gl.one)
                if d.d and not reduce_inv(d): return "entry %d is not the inverse of its element" % i
        for n in (0, 1, 2, 3, 5): ctx.ob(pu + "batch_inverse", "%d non-zero elements" % n, binv, n)
        def extp(k, e):
            xs = cols(gl, k, 1)
            r = I.invoke("starky::polutils::extend_pol", [SRef(vec(xs).f, 0, 1 << k), e], [E.P])
            return same([[E.el(v)[0] for v in M.items(r)]], [R.fft(R.ifft(xs[0], k) + [gl.zero] * ((1 << (k + e)) - (1 << k)), k + e, SHIFT)], "the interpolant's value on the shifted coset")
        for k, e in ((1, 1), (2, 1), (3, 2)) if ctx.tier != "quick" else ((2, 1),): ctx.ob(pu + "extend_pol", "2^%d points extended by 2^%d" % (k, e), extp, k, e)
    elif kind == "big":
        _, fn, k, w, kx, cpus = j
        n = 1 << k
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 1000 + k)
        some = {0, 1, 2, 3, n - 1, n // 2, n // 2 + 1, n // 3, 1 << (k - 2), 4095, 4096, 5} | {rnd.randrange(n) for _ in range(6)}
        if fn == "fft": ctx.ob(fp + " fft", "2^%d points, %d columns, %d processors" % (k, w, cpus), fwd, k, w, cpus, some)
        if fn == "ifft": ctx.ob(fp + " ifft", "2^%d points, %d columns, %d processors" % (k, w, cpus), inv, k, w, cpus, some)
        if fn == "interpolate": ctx.ob(fp + " interpolate", "2^%d to 2^%d points, %d columns, %d processors" % (k, kx, w, cpus), ext, k, w, kx, cpus, some)
def run(ctx):
    jobs = [("big", "fft", 13, 1, 0, 4), ("big", "ifft", 13, 1, 0, 4), ("big", "interpolate", 13, 1, 14, 4), ("serial",), ("poly",), ("small",), ("ext",), ("dim3",), ("bits",)]
    if ctx.tier != "quick":
        jobs = [("big", "fft", 14, 1, 0, 4), ("big", "ifft", 14, 1, 0, 2), ("big", "fft", 13, 2, 0, 1), ("big", "interpolate", 13, 1, 13, 1), ("big", "fft", 15, 1, 0, 9)] + jobs
    ctx.parallel(job, jobs)
