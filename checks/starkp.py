"""Model of the proof system around stark_verify / FRI: symbolic proofs, small artificial programs, and the reference verdict."""
from dom import *
from aeval import *
import models as M, fieldmodels as FM, hashing as H, e3
TREE = "starky::merklehash::MerkleTreeGL"
TRANS = "starky::transcript::TranscriptGL"
P = FM.GL_P
class St:
    """One interpreter with an opaque commitment scheme and a recording transcript."""
    def __init__(self, ctx, perms=None):
        self.I = I = ctx.interp(("GL",), "expand")
        self.gl = I.F["GL"]; self.m = e3.install(I); self.E = I.F["E3"]
        self.types = {}
        self.ev = []; self.nch = 0; self.perms = perms or []
        tr = "<%s as starky::traits::Transcript>::" % TRANS
        I.hooks[tr + "put"] = self.put
        I.hooks[tr + "get_field"] = self.draw
        I.hooks[tr + "get_permutations"] = self.permutations
        I.hooks["<%s as starky::traits::MerkleTree>::verify_group_proof" % TREE] = self.vgp
        for n in ("MG", "SHIFT", "SHIFT_INV"):
            pass
        self.MG = [FM.fe(x, I=I).cval() for x in M.items(M.deref(self.static("MG")).f[0])]
        self.SHIFT = FM.fe(M.deref(self.static("SHIFT")), I=I).cval()
    def static(self, n):
        return self.I.invoke("<starky::constant::%s as core::ops::deref::Deref>::deref" % n, [Ref([Agg(None, 0, [])], 0)])
    # -- transcript
    def put(self, I, a, c):
        for e in M.items(a[1]):
            self.ev.append(("put", [FM.fe(x, I=I) for x in M.items(e)]))
        return M.ok(unit())
    def draw(self, I, a, c):
        k = self.nch; self.nch += 1
        self.ev.append(("draw", k))
        return self.m.ext("ch%d" % k)
    def permutations(self, I, a, c):
        n, nb = M.conc(I, a[1]), M.conc(I, a[2])
        self.ev.append(("perm", n, nb))
        return M.ok(Vec([self.perms[i] % (1 << nb) for i in range(n)]))
    # -- commitments
    def vgp(self, I, a, c):
        root = tuple(H.digest(I, a[1])); path = tuple(tuple(FM.fe(x, I=I) for x in M.items(s)) for s in M.items(a[2]))
        row = tuple(FM.fe(x, I=I) for x in M.items(a[4])); idx = M.conc(I, a[3])
        return M.ok(self.opened(root, path, idx, row))
    def opened(self, root, path, idx, row): return T("opened", tuple(root), tuple(map(tuple, path)), idx, tuple(row))
    # -- values
    def fields(self, path):
        r = self.types.get(path)
        if r is None:
            ts = [(i, t) for i, t in enumerate(self.I.types) if t.get("p") == path and t.get("v")]
            if not ts: raise LookupError(path)
            tid, t = ts[0]
            r = self.types[path] = (tid, [f["n"] if isinstance(f, dict) else f[0] for f in t["v"][0]["f"]])
        return r
    def obj(self, path, base=None, **kw):
        tid, names = self.fields(path)
        if base is None:
            missing = [n for n in names if n not in kw]
            if missing: raise Undecided("%s has another field %s" % (path, missing))
            return Agg(tid, 0, [kw[n] for n in names])
        f = list(base.f)
        for k, v in kw.items(): f[names.index(k)] = v
        return Agg(tid, 0, f)
    def get(self, v, path, name):
        v = self.I.unphi(M.deref(v)); return v.f[self.fields(path)[1].index(name)]
    def default(self, path): return self.I.invoke("<%s as core::default::Default>::default" % path, [])
    def fresh(self, n): return self.gl.var(n)
    def ext3(self, n): return self.m.vec([self.m.emb(self.gl.var("%s.%d" % (n, i))) for i in range(3)])
    def node(self, n):
        l = [self.gl.var("%s.%d" % (n, i)) for i in range(4)]
        return H.mkdigest(self.I, "GL", l), l

SG = "starky::starkinfo_codegen::"
NODES = ("tree1", "tree2", "tree3", "tree4", "const", "eval", "number", "public", "challenge", "xDivXSubXi", "xDivXSubWXi", "x", "Z", "tmp")
class Prog:
    """Programs over every kind of reference and operation, and their meaning."""
    def __init__(self, S, query, dims):
        self.S = S; self.secs = []; self.nt = 0
        I = S.I
        kinds = [("eval", 0), ("eval", 2), ("number", "-3"), ("number", "18446744069414584320"), ("public", 1), ("public", 0), ("challenge", 0), ("challenge", 4), ("challenge", 3)]
        if query: kinds += [("tree%d" % t, (pos, d)) for t in (1, 2, 3, 4) for pos, d in dims[t]] + [("const", 0), ("const", 1), ("xDivXSubXi", 0), ("xDivXSubWXi", 0), ("challenge", 5), ("challenge", 6)]
        else: kinds += [("x", 0), ("Z", False), ("Z", True), ("challenge", 1), ("challenge", 2)]
        acc = None
        ops = ["add", "sub", "mul", "muladd"]
        for i, k in enumerate(kinds):
            op = ops[i % 4] if acc is not None else "copy"
            if op == "mul" and i % 8 == 6: op = "muladd"
            src = [k] if op == "copy" else [acc, k] if op != "muladd" else [k, kinds[(i + 3) % len(kinds)], acc]
            if op == "sub" and i % 3 == 0: src = src[::-1]
            acc = ("tmp", self.nt); self.nt += 1
            self.secs.append((op, acc, src))
    def value(self):
        def n(k):
            t, v = k
            kw = dict(type_=StrObj(t), id=0, value=M.none(), dim=1, prime=False, tree_pos=0, p=0, exp_id=0)
            if t == "number": kw["value"] = M.some(StrObj(v))
            elif t.startswith("tree"): kw["tree_pos"], kw["dim"] = v
            elif t == "Z": kw["prime"] = v
            else: kw["id"] = v
            return self.S.obj(SG + "Node", **kw)
        secs = Vec([self.S.obj(SG + "Section", op=StrObj(op), dest=n(d), src=Vec([n(s) for s in src])) for op, d, src in self.secs])
        return self.S.obj(SG + "Segment", first=secs, i=Vec([]), last=Vec([]), tmp_used=self.nt)
    def run(self, env):
        tmp = {}
        for op, d, src in self.secs:
            s = [tmp[k[1]] if k[0] == "tmp" else env(k) for k in src]
            tmp[d[1]] = s[0] if op == "copy" else fadd(s[0], s[1]) if op == "add" else fsub(s[0], s[1]) if op == "sub" else fmul(s[0], s[1]) if op == "mul" else fadd(fmul(s[0], s[1]), s[2])
        return tmp[self.secs[-1][1][1]]

CH = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 7: 5, 5: 6, 6: 7}   # slot of the context -> number of the draw
class Case:
    """A symbolic proof for one arrangement of steps, queries and quotient pieces."""
    def __init__(self, S, nbits, ext, steps, ys, qdeg, qs):
        self.S = S; I = S.I
        self.nbits, self.bx, self.steps, self.ys, self.qdeg, self.qs = nbits, nbits + ext, steps, ys, qdeg, qs
        S.perms = ys
        self.dims = {1: [(0, 1), (1, 1)], 2: [(0, 3), (3, 1)], 3: [(0, 3)], 4: [(1, 1), (2, 3)]}
        self.width = {t: max(p + d for p, d in l) for t, l in self.dims.items()}
        self.vp, self.qp = Prog(S, False, self.dims), Prog(S, True, self.dims)
        self.roots = {}
        n = lambda k: self.roots.setdefault(k, S.node(k))[0]
        self.publics = [S.m.emb(S.fresh("pub0")), S.m.emb(S.fresh("pub1"))]
        self.evals = [S.ext3("ev%d" % i) for i in range(3 + max(qs) + 1)]
        self.path = {}; self.row = {}
        def opening(root, q, idx, w, depth):
            k = (root, q)
            self.path[k] = [[S.fresh("s_%s_%d_%d_%d" % (root, q, d, j)) for j in range(4)] for d in range(depth)]
            self.row[k] = [S.fresh("v_%s_%d_%d" % (root, q, j)) for j in range(w)]
            return Agg(None, 0, [Vec(list(self.row[k])), Vec([Vec(list(p)) for p in self.path[k]])])
        self.idx = []; cur = list(ys)
        for s in range(len(steps)):
            self.idx.append(list(cur))
            if s + 1 < len(steps): cur = [y % (1 << steps[s + 1]) for y in cur]
        names = ("root1", "root2", "root3", "root4", "rootC")
        widths = (self.width[1], self.width[2], self.width[3], self.width[4], 2)
        Q = "starky::fri::Query"
        queries = []
        for s in range(len(steps)):
            pq = []
            for q in range(len(ys)):
                if s == 0: pq.append(Vec([opening(r, q, self.idx[0][q], w, steps[0]) for r, w in zip(names, widths)]))
                else: pq.append(Vec([opening("fri%d" % s, q, self.idx[s][q], 3 << (steps[s - 1] - steps[s]), steps[s])]))
            queries.append(S.obj(Q, pol_queries=Vec(pq), root=n("fri%d" % s)))
        self.last = [S.ext3("last%d" % i) for i in range(1 << steps[-1])]
        fri = S.obj("starky::fri::FRIProof", queries=Vec(queries), last=Vec(list(self.last)))
        self.proof = S.obj("starky::stark_gen::StarkProof", root1=n("root1"), root2=n("root2"), root3=n("root3"), root4=n("root4"), fri_proof=fri, evals=Vec(list(self.evals)), publics=Vec(list(self.publics)), rootC=M.none(), prover_addr=StrObj(""))
        st = [S.obj("starky::types::Step", nBits=b) for b in steps]
        self.struct = S.obj("starky::types::StarkStruct", nBits=nbits, nBitsExt=self.bx, nQueries=len(ys), verificationHashType=StrObj("GL"), steps=Vec(st))
        info = S.default("starky::starkinfo::StarkInfo")
        ev = S.get(info, "starky::starkinfo::StarkInfo", "ev_idx")
        cell = [ev]
        for i, q in enumerate(qs): self.evset(Ref(cell, 0), q, 3 + i)
        ms = S.get(info, "starky::starkinfo::StarkInfo", "map_sectionsN")
        IX = "starky::starkinfo_codegen::Index"
        ms = S.obj(IX, ms, cm1_n=self.width[1], cm2_n=self.width[2], cm3_n=self.width[3], cm4_n=self.width[4], cm1_2ns=self.width[1], cm2_2ns=self.width[2], cm3_2ns=self.width[3], cm4_2ns=self.width[4])
        evm = [S.default(SG + "Node") for _ in self.evals]
        pub = [S.obj("starky::types::Public", **{n: Opaque("public") for n in S.fields("starky::types::Public")[1]}) for _ in self.publics]
        self.info = S.obj("starky::starkinfo::StarkInfo", info, q_deg=qdeg, qs=Vec(list(qs)), n_publics=2, n_constants=2, publics=Vec(pub), ev_idx=cell[0], map_sectionsN=ms, ev_map=Vec(evm))
        prog = S.default("starky::starkinfo::Program")
        self.prog = S.obj("starky::starkinfo::Program", prog, verifier_code=self.vp.value(), verifier_query_code=self.qp.value())
        self.const_root = n("rootC")
    def evset(self, ref, q, i):
        self.S.I.invoke("starky::starkinfo_codegen::EVIdx::set", [ref, "cm", 0, q, i])
    def verify(self):
        S = self.S; S.ev = []; S.nch = 0; S.I.pc = {}
        return S.I.invoke("starky::stark_verify::stark_verify", [Ref([self.proof], 0), Ref([self.const_root], 0), Ref([self.info], 0), Ref([self.struct], 0), Ref([self.prog], 0)], [TREE, TRANS])
    # -- reference
    def ch(self, slot): return self.S.m.ext("ch%d" % CH[slot])
    def env(self, q=None):
        S = self.S; E = S.E; xi = self.ch(7); w = E.const(S.MG[self.nbits])
        def z(x): return fsub(fpow(x, 1 << self.nbits), E.one)
        def e(k):
            t, v = k
            if t == "eval": return self.evals[v]
            if t == "number": return E.const(int(v))
            if t == "public": return self.publics[v]
            if t == "challenge": return self.ch(v)
            if t == "x": return xi
            if t == "Z": return z(fmul(xi, w)) if v else z(xi)
            if t == "const": return S.m.emb(self.row[("rootC", q)][v])
            if t.startswith("tree"):
                row = self.row[("root" + t[4], q)]; pos, d = v
                return S.m.emb(row[pos]) if d == 1 else S.m.vec([S.m.emb(x) for x in row[pos:pos + 3]])
            x = E.const(S.SHIFT * pow(S.MG[self.bx], self.ys[q], P))
            return fmul(x, finv(fsub(x, xi if t == "xDivXSubXi" else fmul(xi, w))))
        return e
    def required(self):
        """(description, condition) that acceptance must imply."""
        S = self.S; E = S.E; out = []
        xi = self.ch(7); xn = fpow(xi, 1 << self.nbits)
        q = E.zero; a = E.one
        for i in range(self.qdeg):
            q = fadd(q, fmul(a, self.evals[3 + i])); a = fmul(a, xn)
        res = self.vp.run(self.env())
        out.append(("the constraint identity at the out-of-domain point", feq(res, fmul(q, fsub(xn, E.one)))))
        names = ("root1", "root2", "root3", "root4", "rootC")
        inv = lambda x: pow(x, P - 2, P)
        bits = self.bx; shift = S.SHIFT
        for s, nb in enumerate(self.steps):
            red = bits - nb
            for qn in range(len(self.ys)):
                y = self.idx[s][qn]
                for r in (names if s == 0 else ("fri%d" % s,)):
                    out.append(("the opening of %s for query %d" % (r, qn), S.opened(self.roots[r][1], self.path[(r, qn)], y, self.row[(r, qn)])))
                if s == 0: group = [self.qp.run(self.env(qn))]
                else:
                    row = self.row[("fri%d" % s, qn)]
                    group = [S.m.vec([S.m.emb(x) for x in row[i:i + 3]]) for i in range(0, len(row), 3)]
                n = len(group); w = S.MG[n.bit_length() - 1]
                x0 = shift * pow(S.MG[bits], y, P) % P; sx = S.m.ext("ch%d" % (8 + s))
                ev = E.zero
                for k in range(n):
                    c = E.zero
                    for j, v in enumerate(group): c = fadd(c, fscale(v, inv(n) * pow(inv(w), j * k, P)))
                    ev = fadd(ev, fscale(fmul(c, fpow(sx, k)), pow(inv(x0), k, P)))
                if s + 1 < len(self.steps):
                    nb2 = self.steps[s + 1]; g = y >> nb2
                    row = self.row[("fri%d" % (s + 1), qn)][3 * g:3 * g + 3]
                    want = S.m.vec([S.m.emb(x) for x in row])
                else: want = self.last[y]
                out.append(("folding of layer %d for query %d" % (s, qn), feq(ev, want)))
            shift = pow(shift, 1 << red, P); bits = nb
        n = len(self.last); w = S.MG[n.bit_length() - 1]
        bl = self.bx - self.nbits
        deg = 0 if bits < bl else 1 << (bits - bl)
        for k in range(deg + 1, n):
            c = E.zero
            for j, v in enumerate(self.last): c = fadd(c, fscale(v, inv(n) * pow(inv(w), j * k, P)))
            out.append(("coefficient %d of the final polynomial" % k, feq(c, E.zero)))
        return out

def accept(I, v):
    """The condition under which a Result<bool> is Ok(true)."""
    v = I.resolve(v)
    if isinstance(v, Phi): return t_ite(v.c, accept(I, v.a), accept(I, v.b))
    if v.v != 0: return False
    b = I.resolve(v.f[0])
    if isinstance(b, Phi): return t_ite(b.c, accept(I, M.ok(b.a)), accept(I, M.ok(b.b)))
    if isinstance(b, (bool, int)): return bool(b)
    if isinstance(b, Term): return b
    raise Undecided("verdict %s" % short(b))
BOOL = ("not", "and", "xor", "ite")
def atoms(t, out=None, seen=None):
    out = {} if out is None else out; seen = set() if seen is None else seen
    if not isinstance(t, Term) or t.id in seen: return out
    seen.add(t.id)
    if t.op in BOOL:
        for x in t.args: atoms(x, out, seen)
    else: out[t.id] = t
    return out
def assign(t, val, memo=None):
    """t with the atoms of val ({id: bool}) replaced."""
    memo = {} if memo is None else memo
    if not isinstance(t, Term): return t
    if t.id in memo: return memo[t.id]
    if t.op not in BOOL: r = val.get(t.id, t)
    else:
        a = [assign(x, val, memo) for x in t.args]
        r = t_not(a[0]) if t.op == "not" else t_and(*a) if t.op == "and" else t_xor(*a) if t.op == "xor" else t_ite(*a)
    memo[t.id] = r
    return r
def cleared(e):
    """Numerator of a rational expression."""
    F = e.F
    for _ in range(32):
        inv = max((t for m in e.d for t, x in F.monos[m] if F.atoms[t].op == "inv"), default=None)
        if inv is None: break
        by = {}
        for m, c in e.d.items():
            d = dict(F.monos[m]); x = d.pop(inv, 0)
            by.setdefault(x, {})[F.intern(tuple(sorted(d.items())))] = c
        k = max(by); Tm = F.atoms[inv].args[0]; Tm = FE(F, Tm.d); r = F.zero
        for x, d in by.items(): r = fadd(r, fmul(FE(F, d), fpow_expand(Tm, k - x)))
        e = r
    if not e.d: return e
    return fscale(e, pow(e.d[min(e.d)], -1, F.p))
def same(a, b):
    if a is b: return True
    if a.op != "fzero" or b.op != "fzero": return False
    x, y = cleared(a.args[0]), cleared(b.args[0])
    return x.d == y.d
def verdict(S, acc, req):
    """None if acceptance holds exactly when every requirement does (further requirements allowed), else a message."""
    at = atoms(acc); used = set()
    full = {}
    for what, r in req:
        if r is True: continue
        hit = [t for t in at.values() if same(t, r)]
        if not hit: return "is accepted without %s (no such condition guards acceptance)" % what
        for t in hit: used.add(t.id)
        left = assign(acc, {t.id: False for t in hit})
        if left is False: continue
        rest = atoms(left)
        if left is True or assign(left, {i: True for i in rest}) is True: return "is accepted although %s does not hold" % what
        raise Undecided("acceptance condition without %s: %s" % (what, short(left)))
    left = assign(acc, {i: True for i in used})
    if left is False: return "a proof that satisfies every check is refused"
    return None
