from dom import *
from aeval import *
import models as M, fieldmodels as FM, hashing as H, serdemodels as S
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR: conversions on symbolic scalars, (de)serialisation against an abstract document"
RULE = ("The conversions between curve scalars, four-limb digests and base fields are evaluated on symbolic elements and must be mutually inverse, limb by limb and in order. Every Serialize implementation of digests, extension and field "
        "elements and whole proofs is evaluated into an abstract document, whose content is prescribed, and the matching Deserialize implementation on that document must give back every component, in its own place.")
ASSUME = ["decimal rendering of an integer and its parsing are inverse (num-bigint, core)", "proofs: the enumerated numbers of rounds, queries, columns and path lengths"]
FILE = "starky/src/digest.rs "
def run(ctx):
    I = ctx.interp(("GL", "BN", "BLS"), "wrap"); gl = I.F["GL"]; tape = S.install(I)
    un = lambda v: H.digest(I, v)
    def lim(F, x): return FM.limbs_of(F, FM.raw(x))
    def same(a, b, w=64): return list(bits_of(a, w)) == list(bits_of(b, w))
    for n in ("BN", "BLS"):
        F = I.F[n]
        for src in (n,):
            def fs():
                x = F.var("x")
                d = un(I.invoke(H.ED + "from_scalar", [Ref([x], 0)], ["4", H.FR[src], H.FR[n]]))
                for i, (g, w) in enumerate(zip(d, lim(F, x))):
                    if not same(FM.canon(g), w): return "limb %d is not limb %d of the scalar's representation" % (i, i)
            ctx.ob(FILE + "from_scalar", "%s digest of a %s scalar" % (src, n), fs)
            def asf():
                l = [gl.var("e%d" % i) for i in range(4)]
                d = H.mkdigest(I, src, l)
                r = I.invoke(H.ED + "as_scalar", [Ref([d], 0)], ["4", H.FR[src], H.FR[n]])
                r = I.unphi(r)
                while isinstance(r, (Agg, Arr)) and len(r.f) == 1: r = I.unphi(r.f[0])
                for i, (g, w) in enumerate(zip(M.items(r) if not isinstance(r, BV) else [bv(bits_of(r, 256)[64 * k:64 * k + 64]) for k in range(4)], l)):
                    if not same(I.resolve(g), FM.canon(w)): return "limb %d of the representation is not limb %d of the digest" % (i, i)
            ctx.ob(FILE + "as_scalar", "%s digest as a %s representation" % (src, n), asf)
        def pack():
            l = [gl.var("e%d" % i) for i in range(4)]
            r = FM.fe(I.invoke("starky::digest::to_" + {"BN": "bn128", "BLS": "bls12381"}[n], [Ref([Arr(list(l))], 0)]), I=I)
            w = FM.from_int(F, FM.join_limbs([FM.canon(x) for x in l]))[1]
            if r.d != w.d: return "the scalar is not the four canonical limbs, least significant first"
        ctx.ob(FILE + "to_" + {"BN": "bn128", "BLS": "bls12381"}[n], "packs four limbs", pack)
        tree, ty = {"BN": ("starky::merklehash_bn128::MerkleTreeBN128", "merklehash_bn128"), "BLS": ("starky::merklehash_bls12381::MerkleTreeBLS12381", "merklehash_bls12381")}[n]
        def bf():
            x = F.var("x")
            d = I.invoke("<%s as starky::traits::MerkleTree>::from_basefield" % tree, [Ref([x], 0)])
            l = M.items(I.invoke("<%s as starky::traits::MerkleTree>::to_basefield" % tree, [Ref([d], 0)]))
            if len(l) != 1 or FM.fe(l[0], I=I).d != x.d: return "a scalar does not survive as a tree node"
            for i, (g, w) in enumerate(zip(un(d), lim(F, x))):
                if not same(FM.canon(g), w): return "limb %d of the node is not that of the scalar" % i
        ctx.ob("starky/src/%s.rs to_basefield" % ty, "inverse of from_basefield", bf)
        def total():
            # the first limb of this scalar's representation is not below the 64-bit prime
            x = F.const((2**64 - 1) * F.Ri)
            try: I.invoke(H.ED + "from_scalar", [Ref([x], 0)], ["4", H.FR[n], H.FR[n]])
            except Panic as e: return "a scalar with a representation limb not below the 64-bit prime makes the conversion panic"
        ctx.ob(FILE + "from_scalar total " + n, "every scalar", total)
    def gbf():
        x = gl.var("x"); tree = "<starky::merklehash::MerkleTreeGL as starky::traits::MerkleTree>::"
        d = I.invoke(tree + "from_basefield", [Ref([x], 0)])
        l = M.items(I.invoke(tree + "to_basefield", [Ref([d], 0)]))
        if len(l) != 1 or FM.fe(l[0], I=I).d != x.d or [e.d for e in un(d)[1:]] != [{}] * 3: return "an element does not survive as a tree node"
    ctx.ob("starky/src/merklehash.rs to_basefield", "inverse of from_basefield", gbf)
    for n in ("GL", "BN", "BLS"):
        def new():
            l = [gl.var("e%d" % i) for i in range(6)]
            d = un(H.mkdigest(I, n, l))
            if [x.d for x in d] != [x.d for x in l[:4]]: return "the digest is not the first four elements in order"
            e = H.fes(I, I.invoke(H.ED + "as_elements", [Ref([H.mkdigest(I, n, l[:4])], 0)], ["4", H.FR[n]]))
            if [x.d for x in e] != [x.d for x in l[:4]]: return "as_elements does not return the four elements in order"
        ctx.ob(FILE + "new", n, new)
        def short_():
            try: H.mkdigest(I, n, [gl.var("e")] * 3)
            except Panic: return
            return "a digest is made of three elements"
        ctx.ob(FILE + "new", n + " refuses three elements", short_)
        def dflt():
            d = un(I.invoke("<starky::digest::ElementDigest<N, F> as core::default::Default>::default", [], ["4", H.FR[n]]))
            if any(x.d for x in d): return "the default digest is not zero"
        ctx.ob(FILE + "default", n, dflt)
    # serialisation
    x, y, z = gl.var("x"), gl.var("y"), gl.var("z"); k = gl.const
    dec = lambda e: S.dec(FM.canon(e) if not e.is_const() else e.cval())
    shapes = [[x, gl.zero, gl.zero, gl.zero], [gl.zero] * 4, [x, k(5), k(7), y], [x, k(5), k(5), k(5)], [x, gl.zero, k(5), gl.zero], [x, k(5), gl.zero, gl.zero], [x, gl.zero, gl.zero, k(5)], [gl.zero, k(1), k(2), k(gl.p - 1)], [x, k(3), k(4), z]]
    def ser_gl(l):
        doc = tape.write("ser_digest_gl", H.mkdigest(I, "GL", l))
        one = not any(e.d for e in l[1:])
        w = dec(l[0]) if one else [dec(e) for e in l]
        if doc != w: return "the digest %s is written as %s" % (l, doc)
        d = tape.read("de_digest_gl", doc)
        if d is None or [e.d for e in un(d)] != [e.d for e in l]: return "the digest %s is read back as %s" % (l, None if d is None else un(d))
    for l in shapes: ctx.ob(FILE + "Serialize", "64-bit digest %s" % (l,), ser_gl, l)
    def dim1(l):
        g = I.resolve(I.invoke("starky::digest::ElementDigest::<N, F>::is_dim_1", [Ref([H.mkdigest(I, "GL", l)], 0)], ["4", H.FR["GL"]]))
        if bool(g) != (not any(e.d for e in l[1:])): return "is_dim_1 of %s is %s" % (l, g)
    for l in shapes: ctx.ob(FILE + "is_dim_1", "%s" % (l,), dim1, l)
    for n, lo in (("BN", "bn"), ("BLS", "bls")):
        F = I.F[n]
        def ser_c(e):
            doc = tape.write("ser_digest_" + lo, H.scalar_digest(I, n, e))
            if doc != dec(e): return "the digest of a scalar is written as %s" % (doc,)
            d = tape.read("de_digest_" + lo, doc)
            if d is None: return "the digest is not read back"
            for g, w in zip(un(d), lim(F, e)):
                if not same(FM.canon(g), w): return "the digest is not read back unchanged"
        for e in (F.var("s"), F.const(0), F.const(1), F.const(F.p - 1), F.const(12345678901234567890123456789)): ctx.ob(FILE + "Serialize", "%s digest %s" % (n, e), ser_c, e)
        def ser_f(e):
            doc = tape.write("ser_" + lo, e)
            if doc != dec(e): return "the scalar is written as %s" % (doc,)
            d = tape.read("de_" + lo, doc)
            if d is None or FM.fe(d, I=I).d != e.d: return "the scalar is not read back unchanged"
        for e in (F.var("s"), F.const(0), F.const(F.p - 1)): ctx.ob("starky/src/field_%s.rs Serialize" % ({"BN": "bn128", "BLS": "bls12381"}[n]), "%s" % e, ser_f, e)
    for nm, path, n in (("f3", "starky::f3g::F3G", 3), ("f5", "starky::f5g::F5G", 5)):
        tr = lambda m: "<%s as starky::traits::FieldExtension>::%s" % (path, m)
        def ext(kind):
            l = [gl.var("c%d" % i) for i in range(n)]
            if kind == 1: v = I.invoke("<%s as core::convert::From<fields::field_gl::Fr>>::from" % path, [l[0]]); l = l[:1]
            else:
                if kind == 2: l = l[:1] + [gl.zero] * (n - 1)
                v = I.invoke(tr("from_vec"), [Vec(list(l))])
            doc = tape.write("ser_" + nm, v)
            if doc != (dec(l[0]) if kind == 1 else [dec(e) for e in l]): return "the element is written as %s" % (doc,)
            r = tape.read("de_" + nm, doc)
            if r is None: return "the element is not read back"
            if I.resolve(I.invoke(tr("dim"), [Ref([r], 0)])) != (1 if kind == 1 else n): return "the element read back has another dimension"
            if [e.d for e in H.fes(I, I.invoke(tr("as_elements"), [Ref([r], 0)]))] != [e.d for e in l]: return "the element is not read back unchanged"
        for kind, w in ((1, "one coefficient"), (n, "%d coefficients" % n), (2, "%d coefficients, the higher ones zero" % n)): ctx.ob("starky/src/serializer.rs Serialize", "%s, %s" % (path.split("::")[-1], w), ext, kind)
    # whole proofs
    for n, lo in (("GL", "gl"), ("BN", "bn"), ("BLS", "bls")):
        for rounds, nq, withC in ((2, 2, True), (1, 1, True), (4, 3, False), (0, 1, True)):
            ctx.ob("starky/src/serializer.rs StarkProof", "%s: %d folding rounds, %d queries%s" % (n, rounds, nq, "" if withC else ", no constant root"), proof, I, tape, n, lo, rounds, nq, withC)
def proof(I, tape, n, lo, rounds, nq, withC):
    gl = I.F["GL"]; F = I.F[n]; cnt = [0]
    def b():
        cnt[0] += 1; return gl.var("g%d" % cnt[0])
    def node():
        cnt[0] += 1; return F.var("n%d" % cnt[0])
    dec = lambda e: S.dec(FM.canon(e))
    env = {}
    def val(): e = b(); return dec(e)
    def nd():
        e = node(); return dec(e)
    def ext3():
        return [val(), val(), val()]
    kv = []
    if withC: kv.append(("rootC", nd()))
    for i in (1, 2, 3, 4): kv.append(("root%d" % i, nd()))
    kv.append(("evals", [ext3() for _ in range(3)]))
    arity = {"GL": 4, "BN": 16, "BLS": 16}[n]
    def sib(d): return [[nd() for _ in range(2)] for _ in range(d)]
    for i in range(1, rounds + 1):
        kv += [("s%d_root" % i, nd()), ("s%d_vals" % i, [[val() for _ in range(3)] for _ in range(nq)]), ("s%d_siblings" % i, [sib(i) for _ in range(nq)])]
    for j in "1234C": kv.append(("s0_vals" + j, [[val() for _ in range(2 if j != "2" else 0)] for _ in range(nq)]))
    for j in "1234C": kv.append(("s0_siblings" + j, [sib(2) for _ in range(nq)]))
    kv += [("finalPol", [ext3() for _ in range(4)]), ("publics", [val() for _ in range(3)])]
    if n != "GL": kv.append(("proverAddr", S.Str("0xabc")))
    doc = S.Obj(kv)
    r = tape.read("de_sp_" + lo, doc)
    if r is None: return "a well-formed proof is refused"
    out = tape.write("ser_sp_" + lo, r)
    if out is None: return "a proof read is not written"
    d1, d2 = dict(doc.kv), dict(out.kv)
    if len(out.kv) != len(d2): return "an entry is written twice"
    for k in d1:
        if k == "publics":
            continue
        if k not in d2: return "%s is not written" % k
        if d1[k] != d2[k]: return "%s is not written as it was read: %s instead of %s" % (k, short(d2[k], 200), short(d1[k], 200))
    extra = set(d2) - set(d1)
    if extra: return "%s written but not read" % sorted(extra)
    # fields in their own place
    t = next(t for t in I.types if t.get("p") == "starky::stark_gen::StarkProof" and t.get("v"))
    fields = [f["n"] if isinstance(f, dict) else f[0] for f in t["v"][0]["f"]]
    r = I.unphi(r)
    for fn, key in (("root1", "root1"), ("root2", "root2"), ("root3", "root3"), ("root4", "root4")):
        g = H.digest(I, r.f[fields.index(fn)])
        w = d1[key].s.pieces[0].args[0]
        if n == "GL": okk = bits_of(FM.canon(g[0]), 64) == bits_of(w, 64)
        else: okk = FM.canon(H.digest_scalar(I, F, r.f[fields.index(fn)])) == w or bits_of(FM.canon(H.digest_scalar(I, F, r.f[fields.index(fn)])), 256) == bits_of(w, 256)
        if not okk: return "field %s does not hold entry %s" % (fn, key)
