from dom import *
from aeval import *
import models as M, fieldmodels as FM, hashing as H
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over symbolic absorbed elements with the permutation uninterpreted"
RULE = ("put, get_fields1, get_field and get_permutations of the three transcripts are evaluated on sequences of absorbs and draws with fully symbolic elements; each drawn value must be the term of the reference duplex sponge, "
        "which holds every element absorbed before it in order. The sequences cover every fill of the absorb buffer and of the output buffer on both sides of an absorb; query indexes are compared bit by bit.")
ASSUME = ["the permutations are those of C04 / C05", "sequences of at most three absorb/draw rounds; the buffers are empty or in an enumerated fill between rounds"]
IMPL = {"GL": ("starky::transcript::TranscriptGL", "starky/src/transcript.rs"), "BN": ("starky::transcript_bn128::TranscriptBN128", "starky/src/transcript_bn128.rs"),
        "BLS": ("starky::transcript_bls12381::TranscriptBLS128", "starky/src/transcript_bls12381.rs")}
class Ref8:
    """Reference: absorb into a buffer of 8 field elements (16 scalars), permute when full or when drawing with nothing left; absorbing forgets what was not drawn."""
    def __init__(self, I, name):
        self.I, self.name, self.F, self.gl = I, name, I.F[name], I.F["GL"]
        self.rate = 8 if name == "GL" else 16; self.nout = 12 if name == "GL" else 17
        self.state = [self.F.zero] * (4 if name == "GL" else 1); self.pend = []; self.out = []; self.out3 = []
    def perm(self):
        p = self.pend + [self.F.zero] * (self.rate - len(self.pend)); self.pend = []
        self.out = [H.perm(self.F, self.name, p, tuple(self.state), i) for i in range(self.nout)]
        self.out3 = []
        self.state = self.out[:len(self.state)]
    def add(self, e):
        self.out = []; self.out3 = []
        self.pend.append(e)
        if len(self.pend) == self.rate: self.perm()
    def put(self, e):
        if self.name == "GL":
            for x in e: self.add(x)
        elif len(e) == 1: self.add(H.embed(self.F, e[0]))
        else: self.add(FM.from_int(self.F, FM.join_limbs([FM.canon(x) for x in e]), True)[1])
    def scalar(self):
        if not self.out: self.perm()
        return self.out.pop(0)
    def draw(self):
        if self.name == "GL": return self.scalar()
        if not self.out3:
            s = self.scalar()
            b = bits_of(FM.canon(s), 256)
            self.out3 = [b[64 * i:64 * i + 64] for i in range(3)]
            self.out3 = [FM.from_int(self.gl, self.I.absop("Rem", bv(x), self.gl.p, 64, False))[1] for x in self.out3]
        return self.out3.pop(0)
    def perms(self, n, nb):
        per = 63 if self.name == "GL" else 253
        bits = []
        while len(bits) < n * nb:
            bits += list(bits_of(FM.canon(self.scalar()), per))[:per]
        return [bits[i * nb:(i + 1) * nb] for i in range(n)]
class Run:
    def __init__(self, I, name):
        self.I, self.name = I, name
        self.P, self.file = IMPL[name]
        self.t = Ref([self.call("new")], 0); self.ref = Ref8(I, name); self.n = 0
    def call(self, fn, *a, targs=None): return self.I.invoke("<%s as starky::traits::Transcript>::%s" % (self.P, fn), list(a), targs)
    def fresh(self):
        self.n += 1; return self.I.F["GL"].var("e%d" % self.n)
    def put(self, sizes):
        es = [[self.fresh() for _ in range(k)] for k in sizes]
        v = Vec([Vec(list(e)) for e in es])
        r = self.I.unphi(self.call("put", self.t, SRef(v.f, 0, len(es))))
        if r.v: return "an element is refused"
        for e in es: self.ref.put(e)
    def draw(self, n):
        for i in range(n):
            r = self.I.unphi(self.call("get_fields1", self.t))
            if r.v: return "draw %d fails" % i
            g, w = FM.fe(r.f[0], I=self.I), self.ref.draw()
            if g.d != w.d: return "challenge %d after %d absorbed elements is not the sponge output over all of them" % (i + 1, self.n)
    def field(self, ty):
        r = self.call("get_field", self.t, targs=[ty])
        g = H.fes(self.I, self.I.invoke("<%s as starky::traits::FieldExtension>::as_elements" % ty, [Ref([r], 0)]))
        w = [self.ref.draw() for _ in range(3)]
        if [x.d for x in g[:3]] != [x.d for x in w] or any(x.d for x in g[3:]): return "the extension challenge is not the next three outputs in order"
    def perms(self, n, nb):
        r = self.I.unphi(self.call("get_permutations", self.t, n, nb))
        if r.v: return "the draw of query indexes fails"
        l = M.items(r.f[0])
        if len(l) != n: return "%d query indexes instead of %d" % (len(l), n)
        for i, (g, w) in enumerate(zip(l, self.ref.perms(n, nb))):
            g = self.I.resolve(g)
            gb = bits_of(g, 64)
            if any(gb[nb:]): return "query index %d has more than %d bits" % (i, nb)
            for j in range(nb):
                if not same_bit(gb[j], w[j]): return "bit %d of query index %d is not the next output bit" % (j, i)
def same_bit(a, b):
    if isinstance(a, int) or isinstance(b, int): return a == b
    return bit_term(a) is bit_term(b)
def job(ctx, j):
    name, kind = j
    I = ctx.interp(("GL", "BN", "BLS"), "expand"); H.install(I, ("BN", "BLS"))
    file = IMPL[name][1]
    full = ctx.tier != "quick"
    def seq(what, where, steps):
        def f():
            r = Run(I, name)
            for s in steps:
                m = getattr(r, s[0])(*s[1:])
                if m: return m
        ctx.ob(file + " " + where, what, f)
    rate = 8 if name == "GL" else 16; nout = 12 if name == "GL" else 51
    if kind == "absorb":
        for a in range(0, 2 * rate + 3):
            seq("%d elements, then %d draws" % (a, 3), "put", [("put", [1] * a), ("draw", 3)])
        for k in (range(0, rate + 1) if full else range(0, rate + 1, 3)):
            seq("%d digests" % k, "put", [("put", [4] * k), ("draw", 2), ("put", [4]), ("draw", 1)])
        for mix in ([4, 1, 4], [1, 4, 1, 1, 4], [4] * 3 + [1] * 7, [1] * 15 + [4], [1] * 16 + [4]):
            seq("mixed sizes %s" % mix, "put", [("put", mix), ("draw", 4)])
    elif kind == "draws":
        for d in range(0, nout + 4):
            for a in ((0, 1, 2, rate - 1, rate) if full else (0, 1, rate)):
                seq("%d elements, %d draws, then another element" % (a, d), "get_fields1", [("put", [1] * a), ("draw", d), ("put", [1]), ("draw", 2)])
        for a in ((3, 7, 8) if name == "GL" else (3, 15, 16)):
            seq("%d elements, %d draws" % (a, 2 * nout + 3), "get_fields1", [("put", [1] * a), ("draw", 2 * nout + 3)])
        for d in (1, 2, 4, 5):
            seq("%d draws, a full buffer, 2 draws, 2 elements, 3 draws" % d, "add_1", [("put", [1]), ("draw", d), ("put", [1] * rate), ("draw", 2), ("put", [1, 1]), ("draw", 3)])
    else:
        for ty in ("starky::f3g::F3G",):   # get_field draws three elements: five-coefficient challenges are an open TODO of the code
            for a in (0, 1, rate, rate + 1):
                seq("%d elements, challenge of %s" % (a, ty.split("::")[-1]), "get_field", [("put", [1] * a), ("field", ty), ("field", ty), ("put", [1]), ("field", ty)])
        shapes = [(1, 1), (1, 5), (8, 8), (9, 7), (32, 10), (3, 63), (64, 23), (43, 17), (11, 23), (23, 11), (128, 2), (5, 63), (63, 1)] + ([(8, 24), (43, 24), (128, 20), (21, 3), (253, 1), (254, 1)] if full else [])
        for n, nb in shapes:
            for a in (0, 3, rate):
                seq("%d elements, %d indexes of %d bits" % (a, n, nb), "get_permutations", [("put", [1] * a), ("perms", n, nb), ("draw", 1)])
        seq("indexes after challenges", "get_permutations", [("put", [1]), ("draw", 3), ("perms", 7, 9), ("put", [1]), ("perms", 4, 11)])
def run(ctx):
    ctx.parallel(job, [(n, k) for n in IMPL for k in ("absorb", "draws", "rest")])
