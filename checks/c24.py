from dom import *
from aeval import *
import models as M, iomodels as IO, serdemodels as S, gnark as G
from gnark import Q, R, Pt, El
Str, Obj = S.Str, S.Obj
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR: the serde implementations evaluated on documents whose coordinates are pairwise distinct residues, curve and subgroup membership being an oracle of the analysis"
RULE = ("every key of the exchanged documents holds the point of that name and every coordinate its own place, in both directions (decimal numbers, snarkjs layout); points at infinity survive; a point that is off the curve, on the curve outside the prime-order subgroup, of the wrong shape or not numeric is an error, in every field of the key "
        "and the proof and in every entry of the input bases; binary points are read as Montgomery residues in the order x, y (each c0, c1), with the same rejection; a truncated input is an error.")
ASSUME = ["the curve library decides membership and normalises Jacobian coordinates as documented", "coordinates are the enumerated, pairwise distinct values"]
g1s = lambda x, y, z=1: [Str(str(x)), Str(str(y)), Str(str(z))]
g2s = lambda x, y, z=(1, 0): [[Str(str(v)) for v in t] for t in (x, y, z)]
def run(ctx):
    I = ctx.interp((), "wrap"); tape = S.install(I); G.install(I)
    n = [100]
    def fresh(): n[0] += 7919; return n[0] * 0x1f3d5b79ace13579 * 2**240 % Q
    def pt1(kind="good"):
        p = (fresh(), fresh()); {"good": I.good, "curve": I.oncurve}.get(kind, set()).add(p); return p
    def pt2(kind="good"):
        p = ((fresh(), fresh()), (fresh(), fresh())); {"good": I.good, "curve": I.oncurve}.get(kind, set()).add(p); return p
    J = "recursion-gnark/ffi/src/json_util.rs "; T = "recursion-gnark/ffi/src/traits.rs "
    def same(d, e, at=""):
        """None or where two documents differ"""
        if isinstance(d, Obj) and isinstance(e, Obj):
            a, b = dict(d.kv), dict(e.kv)
            if set(a) != set(b): return "%s has keys %s instead of %s" % (at or "the document", sorted(a), sorted(b))
            return next((r for r in (same(a[k], b[k], "%s.%s" % (at, k)) for k in b) if r), None)
        if isinstance(d, list) and isinstance(e, list):
            if len(d) != len(e): return "%s has %d entries instead of %d" % (at, len(d), len(e))
            return next((r for r in (same(x, y, "%s[%d]" % (at, i)) for i, (x, y) in enumerate(zip(d, e))) if r), None)
        x, y = (d.s if isinstance(d, Str) else d), (e.s if isinstance(e, Str) else e)
        if isinstance(x, str) == isinstance(y, str) and (M.cstr(x) if isinstance(x, str) else x) == y: return
        return "%s is %s instead of %s" % (at, x, y)
    def fields(v):
        t = I.types[v.ty]; fs = t["v"][0]["f"]
        return {(f["n"] if isinstance(f, dict) else f[0]): M.deref(x) for f, x in zip(fs, v.f)}
    def point(v):
        if isinstance(v, Pt): return None if v.x is None else (v.x, v.y)
        raise Undecided("point %s" % (v,))
    def read(root, doc):
        """("ok", value), ("err", None) or ("panic", message)"""
        try: r = I.unphi(tape.read(root, doc))
        except Panic as e: return "panic", str(e)
        if r is None: return "err", None
        if isinstance(r, Agg) and r.ty is not None and "Result" not in I.types[r.ty]["s"].split("<")[0]: return "ok", r
        return ("ok", r.f[0]) if r.v == 0 else ("err", None)
    # the verifying key
    def key(nic=3, sub=None):
        d = {"alpha_1": pt1(), "beta_2": pt2(), "gamma_2": pt2(), "delta_2": pt2(), "ic": [pt1() for _ in range(nic)], "gt": [[[fresh(), fresh()] for _ in range(3)] for _ in range(2)]}
        for k, v in (sub or {}).items():
            if k[0] == "ic": d["ic"][k[1]] = v
            else: d[k] = v
        o1 = lambda p: g1s(*p) if p else g1s(0, 1, 0); o2 = lambda p: g2s(*p) if p else g2s((0, 0), (1, 0), (0, 0))
        doc = Obj([("protocol", Str("groth16")), ("nPublic", nic - 1), ("vk_alpha_1", o1(d["alpha_1"])), ("vk_beta_2", o2(d["beta_2"])), ("vk_gamma_2", o2(d["gamma_2"])), ("vk_delta_2", o2(d["delta_2"])),
            ("vk_alphabeta_12", [[[Str(str(v)) for v in t] for t in s] for s in d["gt"]]), ("IC", [o1(p) for p in d["ic"]])])
        return d, doc
    def key_in(nic, sub=None):
        d, doc = key(nic, sub); o, v = read("de_vk", doc)
        if o != "ok": return "a well-formed key is refused (%s)" % (v or o)
        f = fields(v)
        for k in ("alpha_1", "beta_2", "gamma_2", "delta_2"):
            if k not in f: raise Undecided("no field %s" % k)
            if point(f[k]) != d[k]: return "%s is read as %s instead of %s" % (k, f[k], d[k])
        g = [point(M.deref(x)) for x in M.items(f["ic"])]
        if g != d["ic"]: return "the input bases are read as %s instead of %s" % (g, d["ic"])
        t = G.plain(f["alpha_beta_gt"])
        if t != tuple(tuple(tuple(x) for x in s) for s in d["gt"]): return "the pairing value is read as %s instead of %s" % (t, d["gt"])
        if M.cstr(f["protocol"]) != "groth16" or I.resolve(f["n_public"]) != nic - 1: return "protocol or number of inputs is lost"
        w = tape.write("ser_vk", v)
        r = same(w, doc)
        if r: return "written back, " + r
    for nic in (0, 1, 3): ctx.ob(J + "JsonVerificationKey", "%d input bases" % nic, key_in, nic) if nic else None
    for k in ("alpha_1", "beta_2", "gamma_2", "delta_2", ("ic", 0), ("ic", 2)): ctx.ob(J + "JsonVerificationKey", "%s at infinity" % (k,), key_in, 3, {k: None})
    def bad(root, mk, k, v, what):
        o, r = read(root, mk(k, v))
        if o == "panic": return "%s makes the decoder panic (%s)" % (what, r)
        if o == "ok": return "%s is accepted" % what
    def vkdoc(k, v): return key(3, {k: v})[1]
    kinds = [("off", "a point off the curve"), ("curve", "a point of the curve outside the subgroup")]
    for k in ("alpha_1", "beta_2", "gamma_2", "delta_2", ("ic", 0), ("ic", 1), ("ic", 2)):
        for kind, w in kinds: ctx.ob(J + "JsonVerificationKey", "%s as %s" % (w, k), bad, "de_vk", vkdoc, k, (pt2 if "_2" in str(k) else pt1)(kind), w)
    # the proof
    def proof(sub=None):
        d = {"pi_a": pt1(), "pi_b": pt2(), "pi_c": pt1()}; d.update(sub or {})
        o1 = lambda p: g1s(*p) if p else g1s(0, 1, 0); o2 = lambda p: g2s(*p) if p else g2s((0, 0), (1, 0), (0, 0))
        return d, Obj([("pi_a", o1(d["pi_a"])), ("pi_b", o2(d["pi_b"])), ("pi_c", o1(d["pi_c"])), ("protocol", Str("groth16")), ("curve", Str("bls12381"))])
    def proof_in(sub=None):
        d, doc = proof(sub); o, v = read("de_pf", doc)
        if o != "ok": return "a well-formed proof is refused (%s)" % (v or o)
        f = fields(v)
        for k in d:
            if point(f[k]) != d[k]: return "%s is read as %s instead of %s" % (k, f[k], d[k])
        if M.cstr(f["protocol"]) != "groth16" or M.cstr(f["curve"]) != "bls12381": return "protocol or curve is lost"
        r = same(tape.write("ser_pf", v), doc)
        if r: return "written back, " + r
    ctx.ob(J + "Groth16Proof", "round trip", proof_in)
    for k in ("pi_a", "pi_b", "pi_c"):
        ctx.ob(J + "Groth16Proof", "%s at infinity" % k, proof_in, {k: None})
        for kind, w in kinds: ctx.ob(J + "Groth16Proof", "%s as %s" % (w, k), bad, "de_pf", lambda k, v: proof({k: v})[1], k, (pt2 if k == "pi_b" else pt1)(kind), w)
    # malformed documents
    def doc_with(doc, k, v): return Obj([(a, v if a == k else b) for a, b in doc.kv if not (a == k and v is KeyError)])
    def refuse(root, doc, what):
        o, r = read(root, doc)
        if o == "panic": return "%s makes the decoder panic (%s)" % (what, r)
        if o == "ok": return "%s is accepted" % what
    shapes1 = lambda: [("two coordinates", g1s(*pt1())[:2]), ("four coordinates", g1s(*pt1()) + [Str("1")]), ("no coordinate", []), ("an empty coordinate", [Str(""), Str("1"), Str("1")]), ("a coordinate that is no number", [Str("1"), Str("0x12"), Str("1")]), ("a z that is no number", g1s(*pt1())[:2] + [Str("one")]), ("a number for a text", [1, 2, 1])]
    def shapes2():
        p = g2s(*pt2()); return [("two coordinates", p[:2]), ("four coordinates", p + [[Str("1"), Str("0")]]), ("an x of one component", [p[0][:1], p[1], p[2]]), ("a y of three components", [p[0], p[1] + [Str("1")], p[2]]), ("a z of no component", [p[0], p[1], []]), ("a component that is no number", [[p[0][0], Str("q")], p[1], p[2]])]
    for k in ("vk_alpha_1", "vk_beta_2", "vk_gamma_2", "vk_delta_2"):
        for w, v in (shapes2() if k.endswith("_2") and "alpha" not in k else shapes1()): ctx.ob(J + "JsonVerificationKey", "%s with %s" % (k, w), refuse, "de_vk", doc_with(key()[1], k, v), "%s with %s" % (k, w))
    for w, v in shapes1(): ctx.ob(J + "JsonVerificationKey", "IC with %s" % w, refuse, "de_vk", doc_with(key()[1], "IC", [g1s(*pt1()), v]), "an input base with " + w)
    gt = key()[1].kv[6][1]
    for w, v in (("one half", gt[:1]), ("three halves", gt + gt[:1]), ("a half of two", [gt[0][:2], gt[1]]), ("a half of four", [gt[0], gt[1] + gt[0][:1]]), ("a pair of one", [gt[0], [gt[1][0], gt[1][1], gt[1][2][:1]]]), ("a component that is no number", [gt[0], [gt[1][0], gt[1][1], [Str("1"), Str("")]]])):
        ctx.ob(J + "JsonVerificationKey", "pairing value with %s" % w, refuse, "de_vk", doc_with(key()[1], "vk_alphabeta_12", v), "a pairing value with " + w)
    for k, _ in key()[1].kv: ctx.ob(J + "JsonVerificationKey", "without %s" % k, refuse, "de_vk", doc_with(key()[1], k, KeyError), "a key without " + k)
    for k, _ in proof()[1].kv: ctx.ob(J + "Groth16Proof", "without %s" % k, refuse, "de_pf", doc_with(proof()[1], k, KeyError), "a proof without " + k)
    for k in ("pi_a", "pi_b", "pi_c"):
        for w, v in (shapes2() if k == "pi_b" else shapes1()): ctx.ob(J + "Groth16Proof", "%s with %s" % (k, w), refuse, "de_pf", doc_with(proof()[1], k, v), "%s with %s" % (k, w))
    # Jacobian coordinates
    def scaled(k):
        z = 0x123456789abcdef if k != "pi_b" else (0x1234, 0x98765)
        p = pt2() if k == "pi_b" else pt1(); z2 = G.fmulq(z, z)
        x, y = G.fmulq(p[0], z2), G.fmulq(p[1], G.fmulq(z2, z))
        o, v = read("de_pf", doc_with(proof()[1], k, g2s(x, y, z) if k == "pi_b" else g1s(x, y, z)))
        if o != "ok": return "a point in projective coordinates is refused"
        if point(fields(v)[k]) != p: return "%s in projective coordinates is read as another point" % k
    for k in ("pi_a", "pi_b", "pi_c"): ctx.ob(T + "projective coordinates", k, scaled, k)
    # public inputs
    def inputs(vs):
        doc = [Str(str(v)) for v in vs]; o, v = read("de_pi", doc)
        if o != "ok": return "public inputs are refused"
        g = [x.v for x in M.items(fields(v)["values"])]
        if g != vs: return "inputs %s are read as %s" % (vs, g)
        r = same(tape.write("ser_pi", v), doc)
        if r: return "written back, " + r
    for vs in ([], [0], [1, R - 1, 2**64, 2**128 + 5, 7], list(range(20))): ctx.ob(J + "JsonPublicInput", "%d inputs" % len(vs), inputs, vs)
    for w, d in (("a text that is no number", [Str("1"), Str("abc")]), ("an empty text", [Str("")]), ("a number for a text", [5]), ("an object", Obj([]))): ctx.ob(J + "JsonPublicInput", w, refuse, "de_pi", d, w)
    # the other proof systems' record
    def record(kind):
        d = Obj([("public_inputs", [Str("first"), Str("second")]), ("encoded_proof", Str("encoded")), ("raw_proof", Str("raw")), (kind.lower() + "_vkey_hash", list(range(32)))])
        o, v = read("de_pbn", Obj([(kind, d)]))
        if o != "ok": return "a record is refused"
        return same(tape.write("ser_pbn", v), Obj([(kind, d)]))
    for k in ("Plonk", "Groth16"): ctx.ob("recursion-gnark/ffi/src/proof.rs ProofBn254", k, record, k)
    # binary points
    V = "vroots::gk::"
    yes, no = (I.invoke(V + x, []) for x in ("yes", "no"))
    mont = lambda v: [(v * 2**384 % Q >> (8 * i)) & 255 for i in range(48)]
    enc = lambda p: sum(((mont(c) if isinstance(c, int) else mont(c[0]) + mont(c[1])) for c in p), []) if p else []
    def call(fn, *a):
        try: r = I.unphi(I.invoke(V + fn, list(a)))
        except Panic as e: return "panic", str(e)
        return ("ok", r.f[0]) if r.v == 0 else ("err", None)
    def h(b): o = IO.fs(I)["b"] = IO.FileObj(list(b)); return IO.FileH(o, "b")
    def b1(fn, p, chk, want, pad=0):
        b = enc(p) if p else [0] * (96 if "1" in fn else 192)
        o, v = call(fn, M.SRef(b, 0, len(b)) if fn.endswith("bytes") else h(b + [9] * pad), chk)
        if o != want: return "%s is %s" % ("a point" if want == "ok" else "an invalid point", {"ok": "accepted", "err": "refused", "panic": "a panic: %s" % v}[o])
        if o == "ok" and point(v) != p: return "the point is read as %s" % v
    for g, pt in (("g1", pt1), ("g2", pt2)):
        for fn in (g + "_bytes", g + "_reader"):
            ctx.ob(T + fn, "valid point", b1, fn, pt(), yes, "ok"); ctx.ob(T + fn, "valid point, unchecked", b1, fn, pt(), no, "ok"); ctx.ob(T + fn, "infinity", b1, fn, None, yes, "ok")
            for kind, w in kinds: ctx.ob(T + fn, w, b1, fn, pt(kind), yes, "err")
            ctx.ob(T + fn, "an unchecked point keeps its coordinates", b1, fn, pt("off"), no, "ok")
        ctx.ob(T + g + "_reader", "following data", b1, g + "_reader", pt(), yes, "ok", 50)
        def vec(ps, n, cut, want):
            b = sum((enc(p) if p else [0] * (96 if g == "g1" else 192) for p in ps), [])
            o, v = call(g + "_vec", h(b[:len(b) - cut]), n, yes)
            if o != want: return "%d points in a file of %d bytes: %s" % (n, len(b) - cut, {"ok": "accepted", "err": "refused", "panic": "a panic: %s" % v}[o])
            if o == "ok" and [point(M.deref(x)) for x in M.items(v)] != ps[:n]: return "the points are read as %s" % v
        ctx.ob(T + g + "_vec_from_reader", "three points", vec, [pt(), None, pt()], 3, 0, "ok")
        ctx.ob(T + g + "_vec_from_reader", "two of three points", vec, [pt(), pt(), pt()], 2, 0, "ok")
        ctx.ob(T + g + "_vec_from_reader", "no point", vec, [pt()], 0, 0, "ok")
        ctx.ob(T + g + "_vec_from_reader", "truncated", vec, [pt(), pt()], 2, 1, "err")
        for kind, w in kinds: ctx.ob(T + g + "_vec_from_reader", w + " at the end", vec, [pt(), pt(), pt(kind)], 3, 0, "err")
        def cut(fn, n):
            o, v = call(fn, h([1] * n), yes)
            return None if o == "err" else "a truncated point is %s" % o
        ctx.ob(T + g + "_reader", "truncated", cut, g + "_reader", 95 if g == "g1" else 191); ctx.ob(T + g + "_reader", "empty", cut, g + "_reader", 0)
    def strs(fn, p, kind, z):
        a = [M.StrObj(str(v)) for v in (p[0], p[1], 1)] if fn == "g1_str" else [Arr([M.StrObj(str(v)) for v in t]) for t in (p[0], p[1], (1, 0))]
        o, v = call(fn, *a, yes)
        want = "ok" if kind == "good" else "err"
        if o != want: return "a point that is %s is %s" % (kind, {"ok": "accepted", "err": "refused", "panic": "a panic: %s" % v}[o])
        if o == "ok" and point(v) != p: return "read as %s" % v
    for fn, pt in (("g1_str", pt1), ("g2_str", pt2)):
        for kind in ("good", "off", "curve"): ctx.ob(T + fn[:2] + "_from_strings_projective", kind, strs, fn, pt(kind), kind, 1)
    # field elements from bytes
    def elem(fn, q, nb, f, v):
        b = [(v >> (8 * i)) & 255 for i in range(nb)]; o, x = call(fn, h(b + [7, 7]))
        if o != "ok": return "refused"
        if x != El(f(v), q): return "%d is read as %s instead of %d" % (v, x, f(v) % q)
    for nm, q, nb in (("fq", Q, 48), ("fr", R, 32)):
        Ri = pow(2**(8 * nb), -1, q)
        for v in (0, 1, q - 1, 2**64, 2**200 + 12345, q >> 1):
            ctx.ob(T + nm + " from_reader", "%d" % v, elem, nm + "_reader", q, nb, lambda v: v, v); ctx.ob(T + nm + " montgomery_bigint_from_reader", "%d" % v, elem, nm + "_mont", q, nb, lambda v: v * Ri, v); ctx.ob(T + nm + " from_reader_for_groth16_zkey", "%d" % v, elem, nm + "_zkey", q, nb, lambda v: v * Ri * Ri, v)
        ctx.ob(T + nm + " from_reader", "non-canonical", elem, nm + "_reader", q, nb, lambda v: v, q + 5)
        def short(fn):
            o, x = call(fn, h([1] * (nb - 1))); return None if o == "err" else "a truncated element is %s" % o
        for fn in ("_reader", "_mont", "_zkey"): ctx.ob(T + nm + fn, "truncated", short, nm + fn)
    ctx.ob(T + "get_arkworks_name", "name", lambda: None if M.cstr(I.invoke(V + "name", [])) == "bls12381" else "another curve's name")
