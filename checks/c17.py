import itertools
from dom import *
from aeval import *
import models as M, fieldmodels as FM, iomodels as IO, wtns as W, serdemodels as S
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR: the parser on a file of symbolic values, every section order, every truncation point and every corrupted header word"
RULE = ("from_reader, evaluated on constraint files whose coefficients, labels and counts are symbolic, must return every header field, constraint term, wire label and custom gate exactly as stored, for every order of the sections; every proper prefix, every single-bit change of "
        "magic number, version, field size and modulus, every missing section, an inconsistent section size and a non-canonical coefficient must give an error. The loaders derive the counts from the header and keep constraints and mapping.")
ASSUME = ["numbers of constraints, terms, wires and gates: the enumerated shapes", "order of the terms inside one linear combination is immaterial (terms are compared as a multiset)"]
class File:
    """Contents of a constraint file."""
    def __init__(self, R, shape, gates=True):
        self.R = R; k = [0]
        def s(w):
            k[0] += 1; return bvar("x%d" % k[0], w)
        def f():
            k[0] += 1; return R.F.var("c%d" % k[0])
        self.nwires, lcs, self.ng = shape[0], shape[1], gates
        self.hdr = dict(n_pub_out=s(32), n_pub_in=s(32), n_prv_in=s(32), n_labels=s(64))
        self.cons = [[[(w, f()) for w in lc] for lc in c] for c in lcs]
        self.map = [0] + [s(64) for _ in range(self.nwires - 1)]
        self.gates = [("poseidon", [f(), f()]), ("x", []), ("cMul", [f()])]
        self.uses = [(s(32), [s(64), s(64)]), (2, []), (0, [s(64)])]
        self.prime = R.F.p; self.fsize = R.n
    def sections(self, gates):
        R = self.R
        h = W.le(self.fsize, 4) + W.le(self.prime, R.n) + W.le(self.nwires, 4) + W.le(self.hdr["n_pub_out"], 4) + W.le(self.hdr["n_pub_in"], 4) + W.le(self.hdr["n_prv_in"], 4) + W.le(self.hdr["n_labels"], 8) + W.le(len(self.cons), 4)
        c = []
        for con in self.cons:
            for lc in con:
                c += W.le(len(lc), 4)
                for w, e in lc: c += W.le(w, 4) + (W.felt(e, R.n) if isinstance(e, FE) else W.le(e, R.n))
        m = sum((W.le(x, 8) for x in self.map), [])
        out = {1: h, 2: c, 3: m}
        if gates:
            g = W.le(len(self.gates), 4)
            for n, ps in self.gates:
                g += list(n.encode()) + [0] + W.le(len(ps), 4)
                for e in ps: g += W.felt(e, R.n)
            u = W.le(len(self.uses), 4)
            for i, sg in self.uses:
                u += W.le(i, 4) + W.le(len(sg), 4)
                for x in sg:
                    b = W.le(x, 8); u += b[:4] + b[4:]
            out[4], out[5] = g, u
        return out
    def bytes(self, order, magic=b"r1cs", version=1, sizes={}, extra=(), drop=(), nsec=None):
        secs = self.sections(5 in order or 4 in order)
        for t, d in extra: secs[t] = d
        order = [t for t in order if t not in drop]
        out = list(magic) + W.le(version, 4) + W.le(len(order) if nsec is None else nsec, 4)
        for t in order: out += W.le(t, 4) + W.le(sizes.get(t, len(secs[t])), 8) + secs[t]
        return out
def bvar(n, w): return bv(tuple((T("sym", n, w=w), i) for i in range(w)))
def eqi(I, a, b, w=64):
    a, b = I.resolve(a), I.resolve(b)
    return list(bits_of(a, w)) == list(bits_of(b, w))
def lcsame(I, g, w):
    g = [(M.conc(I, x.f[0]), FM.fe(x.f[1], I=I)) for x in map(I.unphi, M.items(g))]
    if len(g) != len(w): return "%d terms instead of %d" % (len(g), len(w))
    key = lambda t: (t[0], sorted(map(repr, t[1].d.items())))
    for a, b in zip(sorted(g, key=key), sorted(w, key=key)):
        if a[0] != b[0] or a[1].d != b[1].d: return "the term of wire %d is not the stored one" % b[0]
def named(I, path):
    t = next(t for t in I.types if t.get("p") == path and t.get("v"))
    return [f["n"] if isinstance(f, dict) else f[0] for f in t["v"][0]["f"]]
SHAPES = [(5, [[[3, 1], [2], [4, 0, 1]], [[], [1], [1]], [[4, 2, 0], [0], []]]), (1, []), (2, [[[0], [1], [1, 0]]]), (7, [[[6, 5, 4, 3, 2, 1, 0], [1], [2]], [[0], [], [3]], [[], [], []], [[5], [5], [5]]]),
    (4, [[[2, 2], [3, 1, 3], [1]], [[0, 0, 0], [2, 1, 2, 1], [3, 3]]])]
def run(ctx):
    I = ctx.interp(("SBLS", "EBN", "EBLS", "GL"), "wrap"); S.install(I)
    Rs = W.readers(I) + [W.Rd(I, "algebraic", "GL", "fields::field_gl::GL", 8)]
    for R in Rs:
        where = R.file + "r1cs_file.rs from_reader"; path = R.c + "::r1cs_file::from_reader"
        FN, HN = named(I, R.c + "::r1cs_file::R1CSFile"), named(I, R.c + "::r1cs_file::Header")
        def read(data): return W.outcome(lambda: I.unphi(I.invoke(path, [R.h(data)], ["std::fs::File", R.engine])))
        def faithful(F, order, **kw):
            o, v = read(F.bytes(order, **kw))
            if o != "ok": return "a well-formed file is refused" + (": " + v if v else "")
            return compare(F, v, 4 in order, 5 in order)
        def compare(F, v, gl, gu):
            v = I.unphi(v); g = lambda n: v.f[FN.index(n)]
            h = I.unphi(g("header")); hd = lambda n: h.f[HN.index(n)]
            if not eqi(I, g("version"), 1, 32): return "the version is not the stored one"
            for n, w, k in [(n, F.hdr[n], 64 if n == "n_labels" else 32) for n in F.hdr] + [("n_wires", F.nwires, 32), ("n_constraints", len(F.cons), 32), ("field_size", F.fsize, 32)]:
                if not eqi(I, hd(n), w, k): return "header field %s is not the stored one" % n
            if [M.conc(I, x) for x in M.items(hd("prime_size"))] != W.le(F.prime, R.n): return "the modulus returned is not the stored one"
            if bool(I.resolve(hd("use_custom_gates"))) != (gl and gu): return "use_custom_gates is %s" % hd("use_custom_gates")
            cs = [I.unphi(x) for x in M.items(g("constraints"))]
            if len(cs) != len(F.cons): return "%d constraints instead of %d" % (len(cs), len(F.cons))
            for i, (c, w) in enumerate(zip(cs, F.cons)):
                for j in range(3):
                    r = lcsame(I, c.f[j], w[j])
                    if r: return "constraint %d, side %s: %s" % (i, "ABC"[j], r)
            m = M.items(g("wire_mapping"))
            if len(m) != len(F.map) or not all(eqi(I, a, b) for a, b in zip(m, F.map)): return "the wire mapping is not the stored one"
            cg = [I.unphi(x) for x in M.items(g("custom_gates"))]
            N = named(I, R.c + "::circom_circuit::CustomGates"); U = named(I, R.c + "::circom_circuit::CustomGatesUses")
            want = F.gates if gl else []
            if len(cg) != len(want): return "%d custom gates instead of %d" % (len(cg), len(want))
            for c, (n, ps) in zip(cg, want):
                if M.cstr(c.f[N.index("template_name")]) != n: return "gate %s is read as %s" % (n, c.f[N.index("template_name")])
                if [FM.fe(x, I=I).d for x in M.items(c.f[N.index("parameters")])] != [x.d for x in ps]: return "the parameters of gate %s are not the stored ones" % n
            cu = [I.unphi(x) for x in M.items(g("custom_gates_uses"))]
            want = F.uses if gu else []
            if len(cu) != len(want): return "%d gate uses instead of %d" % (len(cu), len(want))
            for c, (n, sg) in zip(cu, want):
                if not eqi(I, c.f[U.index("id")], n): return "a gate use has another gate"
                l = M.items(c.f[U.index("signals")])
                if len(l) != len(sg) or not all(eqi(I, a, b) for a, b in zip(l, sg)): return "the signals of a gate use are not the stored ones"
        for si, sh in enumerate(SHAPES):
            F = File(R, sh)
            for o in itertools.permutations((1, 2, 3)): ctx.ob(where, "%s: shape %d, sections %s" % (R.fname, si, o), faithful, F, o)
        F = File(R, SHAPES[0])
        perms = list(itertools.permutations((1, 2, 3, 4, 5)))
        for o in perms if ctx.tier != "quick" else perms[::5]: ctx.ob(where, "%s: sections %s" % (R.fname, o), faithful, F, o)
        for o in ((1, 9, 2, 3), (9, 3, 1, 2), (2, 1, 3, 9), (7, 3, 2, 9, 1)): ctx.ob(where, "%s: unknown section, %s" % (R.fname, o), lambda o: faithful(F, o, extra=[(9, [1, 2, 3]), (7, [])]), o)
        for o in ((1, 2, 3, 4), (1, 2, 3, 5)): ctx.ob(where, "%s: sections %s" % (R.fname, o), faithful, F, o)
        def refuse(data, what):
            o, v = read(data)
            if o == "ok": return "%s is read without complaint" % what
            if o == "panic": return "%s makes the reader panic (%s)" % (what, v)
        for o in ((1, 2, 3), (3, 2, 1), (2, 1, 3)) if ctx.tier == "quick" else list(itertools.permutations((1, 2, 3))) + [(1, 2, 3, 4, 5)]:
            full = F.bytes(o)
            for cut in range(0, len(full), 1 if o == (1, 2, 3) or ctx.tier != "quick" else 5):
                ctx.ob(where + " truncated", "%s: sections %s, first %d of %d bytes" % (R.fname, o, cut, len(full)), refuse, full[:cut], "a file cut after %d bytes" % cut)
        full = F.bytes((1, 2, 3, 4, 5)); n4 = len(F.bytes((1, 2, 3)))
        for cut in range(n4, len(full), 3): ctx.ob(where + " truncated", "%s: custom gates, first %d of %d bytes" % (R.fname, cut, len(full)), refuse, full[:cut], "a file cut after %d bytes" % cut)
        for i in range(4):
            for b in range(8):
                m = bytearray(b"r1cs"); m[i] ^= 1 << b
                ctx.ob(where + " magic", "%s: byte %d bit %d" % (R.fname, i, b), refuse, F.bytes((1, 2, 3), magic=bytes(m)), "a wrong magic number")
        for b in range(32): ctx.ob(where + " version", "%s: bit %d" % (R.fname, b), refuse, F.bytes((1, 2, 3), version=1 ^ (1 << b)), "version %d" % (1 ^ (1 << b)))
        def withf(**kw):
            G = File(R, SHAPES[0]); G.__dict__.update(kw); return G
        for b in range(32):
            v = R.n ^ (1 << b)
            if v < 4096: ctx.ob(where + " field size", "%s: %d" % (R.fname, v), refuse, withf(fsize=v).bytes((1, 2, 3)), "field size %d" % v)
        for b in range(8 * R.n): ctx.ob(where + " modulus", "%s: bit %d" % (R.fname, b), refuse, withf(prime=R.F.p ^ (1 << b)).bytes((1, 2, 3)), "a modulus differing in bit %d" % b)
        for q in (FM.BN_P, FM.BLS_P, FM.BN_Q):
            if q != R.F.p and R.n == 32: ctx.ob(where + " modulus", "%s: another field's" % R.fname, refuse, withf(prime=q).bytes((1, 2, 3)), "another field's modulus")
        for d in (1, 2, 3): ctx.ob(where + " sections", "%s: section %d missing" % (R.fname, d), refuse, F.bytes((1, 2, 3), drop=(d,)), "a file without section %d" % d)
        ctx.ob(where + " sections", R.fname + ": none", refuse, F.bytes(()), "a file without sections")
        for t, n in ((1, 32 + R.n), (3, 40)):
            for dlt in (-8, -1, 1, 8): ctx.ob(where + " section size", "%s: section %d announced with %d bytes" % (R.fname, t, n + dlt), refuse, F.bytes((2, 3, 1) if t == 1 else (1, 2, 3), sizes={t: n + dlt}), "section %d of %d bytes" % (t, n + dlt))
        for v in (1, 2**32, 2**63):
            G = withf(); G.map = [v] + G.map[1:]
            ctx.ob(where + " wire 0", "%s: mapped to %d" % (R.fname, v), refuse, G.bytes((1, 2, 3)), "wire 0 mapped to %d" % v)
        for k in (1, 4):
            G = withf(); G.map = [1] + [0 if i == k else 7 + i for i in range(1, 5)]
            ctx.ob(where + " wire 0", "%s: mapped to 1, wire %d to 0" % (R.fname, k), refuse, G.bytes((1, 2, 3)), "wire 0 mapped to 1")
        G = withf(); G.nwires = 0; G.map = []
        ctx.ob(where + " wire 0", R.fname + ": no wires", refuse, G.bytes((1, 2, 3)), "a file without wire 0")
        for i, j in ((0, 0), (0, 1), (0, 2), (2, 0)):
            for v in (R.F.p, 2**(8 * R.n) - 1, R.F.p + 1):
                G = withf(); G.cons = [[list(l) for l in c] for c in G.cons]; G.cons[i][j][-1] = (G.cons[i][j][-1][0], v)
                ctx.ob(where + " coefficient", "%s: constraint %d side %d" % (R.fname, i, j), refuse, G.bytes((1, 2, 3)), "a coefficient not below the modulus")
        # loaders
        w3 = R.file + "reader.rs load_r1cs"
        RN = named(I, R.c + "::circom_circuit::R1CS")
        def counts(r, nin, nw, nout):
            for n, x in (("num_inputs", nin), ("num_variables", nw), ("num_aux", nw - nin), ("num_outputs", nout)):
                if M.conc(I, r.f[RN.index(n)]) != x: return "%s is %s instead of %d" % (n, r.f[RN.index(n)], x)
        def cons(r, want):
            cs = [I.unphi(x) for x in M.items(r.f[RN.index("constraints")])]
            if len(cs) != len(want): return "%d constraints instead of %d" % (len(cs), len(want))
            for i, (c, w) in enumerate(zip(cs, want)):
                for j in range(3):
                    x = lcsame(I, c.f[j], w[j])
                    if x: return "constraint %d, side %s: %s" % (i, "ABC"[j], x)
        def load(pi, po, gates):
            G = withf(); G.hdr = dict(G.hdr, n_pub_in=pi, n_pub_out=po)
            data = G.bytes((1, 2, 3, 4, 5) if gates else (3, 1, 2))
            IO.fs(I).clear()
            if R.fname == "GL":
                v = I.unphi(I.invoke(R.c + "::reader::load_r1cs_from_bin", [R.h(data)], ["std::fs::File", R.engine]))
                r, m = I.unphi(v.f[0]), M.items(v.f[1])
                if len(m) != len(G.map) or not all(eqi(I, a, b) for a, b in zip(m, G.map)): return "the wire mapping is not the stored one"
            else:
                IO.fs(I)["a.r1cs"] = IO.FileObj(data)
                r = I.unphi(I.invoke(R.c + "::reader::load_r1cs", [Ref([M.StrObj("a.r1cs")], 0)], [R.engine]))
            x = counts(r, 1 + pi + po, G.nwires, po) or cons(r, G.cons)
            if x: return x
            if len(M.items(r.f[RN.index("custom_gates")])) != (3 if gates else 0) or len(M.items(r.f[RN.index("custom_gates_uses")])) != (3 if gates else 0): return "custom gates are not kept"
        for pi, po in ((0, 0), (1, 0), (0, 1), (2, 1), (1, 3)):
            for gates in (False, True): ctx.ob(w3, "%s: %d inputs, %d outputs%s" % (R.fname, pi, po, ", custom gates" if gates else ""), load, pi, po, gates)
        if R.fname == "GL": continue
        def js(pi, po, nv):
            k = [R.F.var("j%d" % i) for i in range(9)]
            want = [[[(0, k[0]), (3, k[1])], [(10, k[2])], [(2, k[3]), (1, k[4])]], [[], [(1, k[5])], []], [[(4, k[6])], [(4, k[7])], [(4, k[8])]]]
            doc = S.Obj([("constraints", [[S.Obj(sorted([(str(w), S.dec(FM.canon(e))) for w, e in lc])) for lc in c] for c in want]), ("nPubInputs", pi), ("nOutputs", po), ("nVars", nv)])
            IO.fs(I).clear(); IO.fs(I)["a.json"] = IO.FileObj([S.to_text(doc)])
            r = I.unphi(I.invoke(R.c + "::reader::load_r1cs", [Ref([M.StrObj("a.json")], 0)], [R.engine]))
            return counts(r, 1 + pi + po, nv, po) or cons(r, want)
        for pi, po, nv in ((0, 0, 1), (2, 1, 11), (1, 4, 11)): ctx.ob(w3, "%s: text, %d inputs, %d outputs, %d wires" % (R.fname, pi, po, nv), js, pi, po, nv)
