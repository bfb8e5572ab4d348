"""The whole proof system on one small circuit: honest symbolic traces, symbolic challenges, an opaque commitment scheme."""
import random, copy
import dom
from dom import *
from aeval import *
import models as M, fieldmodels as FM, hashing as H, prover as PR, starkp, serdemodels as SD
from starkp import TREE, TRANS, P
SGEN = "starky::stark_gen::StarkProof::<M>::stark_gen"
class Generic:
    """Decides identities of rational functions: evaluation of the normal form at one random point of the field and its extension
    (an expression that vanishes there is identically zero up to probability 2^-50)."""
    def __init__(self, F, E):
        self.F, self.E = F, E; self.r = random.Random(20260); self.memo = {}; self.mono = {}
        self.xt = next(iter(F.monos[next(iter(E.X.d))]))[0]
    def mul(self, a, b):
        c = [0] * 5
        for i in range(3):
            if a[i]:
                for j in range(3): c[i + j] += a[i] * b[j]
        c[2] += c[4]; c[1] += c[4] + c[3]; c[0] += c[3]     # x^3 = x + 1, x^4 = x^2 + x
        return (c[0] % P, c[1] % P, c[2] % P)
    def pow(self, a, n):
        r = (1, 0, 0)
        while n:
            if n & 1: r = self.mul(r, a)
            a = self.mul(a, a); n >>= 1
        return r
    def inv(self, a):
        if not any(a): raise Undecided("division by an expression that vanishes identically")
        return self.pow(a, P ** 3 - 2)
    def atom(self, t):
        v = self.memo.get(t)
        if v is None:
            x = self.F.atoms[t]
            if t == self.xt: v = (0, 1, 0)
            elif x.op == "var": v = (self.r.randrange(P), 0, 0)
            elif x.op == "ext": v = tuple(self.r.randrange(P) for _ in range(3))
            elif x.op == "inv": v = self.inv(self(FE(self.F, x.args[0].d)))
            elif x.op == "co": v = (self(FE(self.F, x.args[0].d))[x.args[1]], 0, 0)
            elif x.op == "poly": v = self(FE(self.F, x.args[0].d))
            else: raise Undecided("value of %s" % short(x))
            self.memo[t] = v
        return v
    def __call__(self, e):
        r = [0, 0, 0]
        for m, c in e.d.items():
            v = self.mono.get(m)
            if v is None:
                v = (1, 0, 0)
                for t, n in self.F.monos[m]: v = self.mul(v, self.pow(self.atom(t), n))
                self.mono[m] = v
            for i in range(3): r[i] += c * v[i]
        return (r[0] % P, r[1] % P, r[2] % P)
class Decide:
    def __init__(self, g): self.g = g
    def __call__(self, d): return not any(self.g(d))
    def key(self, e): return ("generic",) + self.g(e)
class Full(starkp.St):
    def __init__(self, ctx, inst):
        super().__init__(ctx, inst.queries)
        I = self.I; gl = self.gl; ext, steps, queries = inst.ext, inst.steps, inst.queries
        I.ncpu = 9; gl.mode = self.E.mode = "share"
        dom.GENERIC = self.dec = Decide(Generic(gl, self.E))
        if inst.chunk: self.shrink("starky::stark_gen::calculate_exps_parallel", {1 << 12: inst.chunk})
        self.trees = {}
        mt = "<%s as starky::traits::MerkleTree>::" % TREE
        I.hooks[mt + "merkelize"] = self.merkelize
        I.hooks[mt + "root"] = self.root
        I.hooks[mt + "get_group_proof"] = self.group
        I.hooks["starky::polutils::batch_inverse"] = self.binv
        C = self.C = inst.circ(gl); self.ext = ext; self.steps = steps
        self.tape = SD.install(I); I.tape = self.tape
        self.nb = C.nbits; n = 1 << self.nb
        self.trace = inst.trace(gl); cs = inst.consts
        if inst.circ.__name__ in ("conn", "mixed"): cs = cs(self.MG[self.nb])
        self.consts = cs(gl)
        doc = C.doc()
        self.pil = I.tape.read("de_pil", doc)
        if isinstance(self.pil, Agg) and I.types[self.pil.ty].get("p", "").endswith("Result"): self.pil = self.pil.f[0]
        self.struct = self.obj("starky::types::StarkStruct", nBits=self.nb, nBitsExt=self.nb + ext, nQueries=len(queries), verificationHashType=StrObj("GL"),
            steps=Vec([self.obj("starky::types::Step", nBits=b) for b in steps]))
    def columns(self, kind, cols):
        I = self.I
        T_ = next(i for i, t in enumerate(I.types) if t.get("p") == "starky::polsarray::PolKind" and t.get("v"))
        v = next(i for i, x in enumerate(I.types[T_]["v"]) if (x["n"] if isinstance(x, dict) else x[0]) == kind)
        A = I.invoke("starky::polsarray::PolsArray::new", [Ref([self.pil], 0), Agg(T_, v, [])])
        tid, names = self.fields("starky::polsarray::PolsArray")
        A.f[names.index("array")] = Vec([Vec(list(c)) for c in cols])
        return A
    def shrink(self, path, consts):
        """Replaces constants in the bodies of a function and its closures (so that small domains are split into pieces)."""
        def walk(x):
            if isinstance(x, list):
                if len(x) >= 3 and x[0] == "k" and isinstance(x[2], int) and not isinstance(x[2], bool) and x[2] in consts: return x[:2] + [consts[x[2]]] + x[3:]
                return [walk(y) for y in x]
            return x
        self.I.fns = list(self.I.fns)
        for i, f in enumerate(self.I.fns):
            if (f.get("p") == path or f.get("p", "").startswith(path + "::{")) and "blocks" in f:
                g = dict(f); g["blocks"] = [{k: walk(v) for k, v in b.items()} for b in f["blocks"]]; self.I.fns[i] = g
    # -- opaque commitments
    def tree(self, v):
        v = self.I.unphi(M.deref(v)); n = self.fields(TREE)[1]
        return v, n, tuple(FM.fe(x, I=self.I) for x in M.items(v.f[n.index("elements")]))
    def merkelize(self, I, a, c):
        buf, w, h = a[1], M.conc(I, a[2]), M.conc(I, a[3])
        if len(M.items(buf)) != w * h: raise Panic("%d values are committed as %d rows of %d" % (len(M.items(buf)), h, w))
        n = self.fields(TREE)[1]; v = self.I.unphi(M.deref(a[0])); f = list(v.f)
        f[n.index("elements")] = buf; f[n.index("width")] = w; f[n.index("height")] = h
        a[0].set(Agg(v.ty, v.v, f))
        return M.ok(unit())
    def key(self, els, w, h): return self.trees.setdefault((w, h) + tuple(frozenset(e.d.items()) for e in els), len(self.trees))
    def root(self, I, a, c):
        v, n, els = self.tree(a[0])
        k = self.key(els, M.conc(I, v.f[n.index("width")]), M.conc(I, v.f[n.index("height")]))
        return H.mkdigest(I, "GL", [self.gl.var("R%d.%d" % (k, i)) for i in range(4)])
    def group(self, I, a, c):
        v, n, els = self.tree(a[0]); w, h, i = M.conc(I, v.f[n.index("width")]), M.conc(I, v.f[n.index("height")]), M.conc(I, a[1])
        if i >= h: return M.err(Opaque("row"))
        k = self.key(els, w, h)
        path = [Vec([self.gl.var("path.%d.%d.%d.%d" % (k, i, d, j)) for j in range(4)]) for d in range(max(0, (h - 1).bit_length()))]
        return M.ok(Agg(None, 0, [Vec(list(els[i * w:(i + 1) * w])), Vec(path)]))
    def opened(self, root, path, idx, row):
        """an opening counts exactly if it is one of a committed tree"""
        for key, k in self.trees.items():
            if [x.d for x in root] != [self.gl.var("R%d.%d" % (k, i)).d for i in range(4)]: continue
            w, h = key[:2]; els = key[2:]
            if not 0 <= idx < h: return False
            if tuple(frozenset(e.d.items()) for e in row) != els[idx * w:(idx + 1) * w]: return False
            want = [[self.gl.var("path.%d.%d.%d.%d" % (k, idx, d, j)).d for j in range(4)] for d in range(max(0, (h - 1).bit_length()))]
            return [[x.d for x in p] for p in path] == want
        return False
    def binv(self, I, a, c): return Vec([finv(FM.fe(x, I=I)) for x in M.items(a[0])])
    # -- stages
    def setup(self):
        I = self.I
        cp = self.columns("Constant", self.consts); self.cm = self.columns("Commit", self.trace); cell = [self.pil]
        r = I.unphi(I.invoke("starky::stark_setup::StarkSetup::<M>::new", [Ref([cp], 0), Ref(cell, 0), Ref([self.struct], 0), M.none()], [TREE]))
        if r.v: raise PR.Bad("setup fails")
        self.pil = cell[0]; self.cp = cp
        s = r.f[0]; SS = "starky::stark_setup::StarkSetup"
        self.ctree, self.croot, self.info, self.prog = [self.get(s, SS, k) for k in ("const_tree", "const_root", "starkinfo", "program")]
    def prove(self):
        I = self.I; self.ev = []; self.nch = 0
        r = I.unphi(I.invoke(SGEN, [self.cm, self.cp, Ref([self.ctree], 0), Ref([self.info], 0), Ref([self.prog], 0), Ref([self.pil], 0), Ref([self.struct], 0), StrObj("addr")], [TREE, TRANS]))
        if r.v: raise PR.Bad("the prover fails")
        self.proof = r.f[0]; self.pev = self.ev
    def verify(self):
        I = self.I; self.ev = []; self.nch = 0; I.pc = {}
        r = I.invoke("starky::stark_verify::stark_verify", [Ref([self.proof], 0), Ref([self.croot], 0), Ref([self.info], 0), Ref([self.struct], 0), Ref([self.prog], 0)], [TREE, TRANS])
        self.vev = self.ev
        return starkp.accept(I, r)

    # -- the Fiat-Shamir schedule
    def required(self):
        """[values absorbed before a draw ..., what is drawn] as it must be, from the proof itself."""
        I = self.I; SP = "starky::stark_gen::StarkProof"; g = lambda n: self.get(self.proof, SP, n)
        els = lambda x: (lambda e: [FE(self.gl, e.d)] if self.m.base_only(e) else self.m.coords(e))(FM.fe(x, I=I))
        node = lambda x: [FM.fe(y, I=I) for y in H.digest(I, x)]
        out = []
        put = lambda what, l: out.append(("put", what, l))
        draw = lambda what: out.append(("draw", what))
        for i, x in enumerate(M.items(g("publics"))): put("public value %d" % i, els(x))
        put("root1", node(g("root1"))); draw("u"); draw("defVal")
        put("root2", node(g("root2"))); draw("gamma"); draw("beta")
        put("root3", node(g("root3"))); draw("vc")
        put("root4", node(g("root4"))); draw("xi")
        for i, x in enumerate(M.items(g("evals"))): put("opened value %d" % i, els(x))
        draw("vf1"); draw("vf2")
        fri = g("fri_proof"); FP = "starky::fri::FRIProof"; Q = "starky::fri::Query"
        qs = M.items(self.get(fri, FP, "queries"))
        for s in range(len(self.steps)):
            draw("folding challenge %d" % s)
            if s + 1 < len(self.steps): put("root of layer %d" % (s + 1), node(self.get(qs[s + 1], Q, "root")))
            else:
                for i, x in enumerate(M.items(self.get(fri, FP, "last"))): put("last polynomial, value %d" % i, els(x))
        out.append(("perm", "query positions", (len(self.perms), self.steps[0])))
        return out
    def flat(self, ev):
        out = []
        for e in ev:
            if e[0] == "put": out += [("put", x) for x in e[1]]
            else: out.append((e[0],) + tuple(e[2:] if False else e[1:]))
        return out
    def deviation(self, ev):
        """None if the events are the required ones in the required order."""
        want = []
        for e in self.required():
            if e[0] == "put": want += [("put", e[1], x) for x in e[2]]
            else: want.append(e)
        got = self.flat(ev)
        for i, w in enumerate(want):
            if i >= len(got): return "%s is missing" % w[1]
            x = got[i]
            if w[0] != x[0]: return "%s where %s should be %s" % ({"put": "something is absorbed", "draw": "a challenge is drawn", "perm": "query positions are drawn"}[x[0]], w[1], {"put": "absorbed", "draw": "drawn", "perm": "drawn"}[w[0]])
            if w[0] == "put" and any(self.dec.g(fsub(x[1], w[2]))): return "another value is absorbed in the place of %s" % w[1]
            if w[0] == "perm" and tuple(x[1:]) != w[2]: return "%d query positions of %d bits are drawn instead of %d of %d" % (tuple(x[1:]) + w[2])
        if len(got) > len(want): return "the transcript is used after the query positions are drawn"
        return None
