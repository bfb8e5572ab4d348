from dom import *
from aeval import *
import models as M, fieldmodels as FM, hashing as H, iomodels as IO, starkp as SP
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR: the verifier on a fully symbolic proof, its acceptance condition compared with the required one; the prover's output as an effect guarded by the verdict"
RULE = ("stark_verify (with FRI::verify inlined) is evaluated on proofs whose every element is symbolic, for programs using every reference and operation kind and for several arrangements of folding steps, queries and quotient pieces; the condition under which it returns Ok(true) must imply "
        "the constraint identity, the opening of each of the five trees for each query, every folding equality, every layer opening, the final polynomial's lookup and its degree bound, and must hold when all of them do. Proofs of a different shape must not be accepted. stark_prove may write its outputs only where the verdict on that very proof is known to be true.")
ASSUME = ["F3G is the cubic extension (C02), a Merkle opening binds (C07), challenges bind the absorbed values (C08)", "arrangements (steps, queries, quotient pieces) are the enumerated ones; proof elements and challenges are symbolic"]
FILE = "starky/src/stark_verify.rs"
CASES = [  # nbits, blowup bits, steps, query rows, quotient pieces
 (2, 1, [3, 1], [5, 2], 1, [7]), (2, 1, [3, 2], [7], 2, [3, 9]), (3, 1, [4, 2, 1], [13, 6], 1, [4]), (2, 2, [4, 2], [9, 15], 2, [1, 0]), (2, 1, [3, 0], [6], 1, [0]), (3, 1, [4, 3, 2], [0, 15], 3, [2, 5, 8]), (2, 1, [3], [4], 1, [2]), (3, 2, [5, 3, 1], [30, 7, 17], 1, [5]), (3, 1, [4, 2, 1], [13, 13, 5], 1, [3])]
MORE = [(3, 1, [4, 3, 2, 1], [10, 5, 3], 2, [6, 1]), (4, 1, [5, 2], [31, 16, 1, 0], 1, [3]), (3, 3, [6, 3], [63, 40], 1, [3]), (3, 1, [4, 1], [0], 1, [1]), (4, 2, [6, 4, 2], [45, 62, 3], 2, [2, 4])]
def name(c): return "2^%d rows, blowup 2^%d, steps %s, queries %s, %d quotient pieces" % (c[0], c[1], c[2], c[3], c[4])
def verify_case(ctx, c):
    S = SP.St(ctx); k = SP.Case(S, *c); res = []
    def run(): res.append(SP.accept(S.I, k.verify()))
    if ctx.ob(FILE + " stark_verify", name(c) + ": has a verdict", run) is not True: return
    req = k.required()
    for i, r in enumerate(req): ctx.ob(FILE + " stark_verify", "%s: rejects when %s fails" % (name(c), r[0]), SP.verdict, S, res[0], [r])
    ctx.ob(FILE + " stark_verify", name(c) + ": accepts what satisfies every check", SP.verdict, S, res[0], req)
def tampered(ctx, c):
    """the same proof with another shape"""
    S = SP.St(ctx); I = S.I
    SG = "starky::stark_gen::StarkProof"; FP = "starky::fri::FRIProof"; Q = "starky::fri::Query"
    def go(edit, can=False):
        k = SP.Case(S, *c); p = k.proof
        fri = S.get(p, SG, "fri_proof"); edit(k, p, fri)
        n0 = len(I.assumed); I.pc = {}
        try: acc = SP.accept(I, k.verify())
        except Panic: return None
        for cond, *_ in I.assumed[n0:]: acc = t_and(acc, cond)
        if acc is False: return None
        left = SP.assign(acc, {i: True for i in SP.atoms(acc)})
        if left is True: return "is accepted when every remaining check holds"
        raise Undecided("acceptance of a malformed proof: %s" % short(acc))
    def qs(S, fri, s): return S.get(S.get(fri, FP, "queries").f[s], Q, "pol_queries")
    def last(fri): return S.get(fri, FP, "last").f
    tests = [("final polynomial one element longer", lambda k, p, f: last(f).append(S.ext3("x"))), ("final polynomial twice as long", lambda k, p, f: last(f).extend([S.E.zero] * len(last(f)))), ("final polynomial empty", lambda k, p, f: last(f).clear()),
             ("last query dropped from layer 0", lambda k, p, f: qs(S, f, 0).f.pop()), ("last layer dropped", lambda k, p, f: S.get(f, FP, "queries").f.pop()), ("one evaluation less", lambda k, p, f: S.get(p, SG, "evals").f.pop()),
             ("one public less", lambda k, p, f: S.get(p, SG, "publics").f.pop()), ("one public more", lambda k, p, f: S.get(p, SG, "publics").f.append(S.E.one)), ("fixed-column opening dropped", lambda k, p, f: qs(S, f, 0).f[0].f.pop()),
             ("leaf of the first tree one element wider", lambda k, p, f: qs(S, f, 0).f[0].f[0].f[0].f.append(S.fresh("x"))), ("leaf of the first tree one element narrower", lambda k, p, f: qs(S, f, 0).f[0].f[0].f[0].f.pop()),
             ("leaf of the fixed columns wider", lambda k, p, f: qs(S, f, 0).f[0].f[4].f[0].f.append(S.fresh("x"))), ("path of the first tree shorter", lambda k, p, f: qs(S, f, 0).f[0].f[0].f[1].f.pop()), ("path of the fixed columns longer", lambda k, p, f: qs(S, f, 0).f[0].f[4].f[1].f.append(Vec([S.fresh("x%d" % i) for i in range(4)])))]
    if len(c[2]) > 1:
        tests += [("last query dropped from layer 1", lambda k, p, f: qs(S, f, 1).f.pop()), ("leaf of layer 1 empty", lambda k, p, f: qs(S, f, 1).f[0].f[0].f[0].f.clear()), ("leaf of layer 1 twice as wide", lambda k, p, f: qs(S, f, 1).f[0].f[0].f[0].f.extend([S.fresh("y%d" % i) for i in range(len(qs(S, f, 1).f[0].f[0].f[0].f))])),
                  ("path of layer 1 shorter", lambda k, p, f: qs(S, f, 1).f[0].f[0].f[1].f.pop()), ("path of layer 1 empty", lambda k, p, f: qs(S, f, 1).f[0].f[0].f[1].f.clear())]
    for what, e in tests: ctx.ob(FILE + " stark_verify (shape)", "%s: a proof with %s" % (name(c), what), go, e)
def writer(ctx, kind):
    """stark_prove writes only what its verifier accepted"""
    I = ctx.interp(("GL",), "expand"); seen = {}
    SV, SGEN = "starky::stark_verify::stark_verify", "starky::stark_gen::StarkProof::stark_gen"
    V, E = T("var", "B", "verdict"), T("var", "B", "verifier_error")
    proof = Agg(None, 0, [Opaque("proof")] * 9); setup = {}
    def obj(path):
        ts = [(i, t) for i, t in enumerate(I.types) if t.get("p") == path and t.get("v")]
        tid, t = ts[0]; return Agg(tid, 0, [Opaque(f["n"] if isinstance(f, dict) else f[0]) for f in t["v"][0]["f"]])
    def deep(v):
        while type(v) is Ref: v = v.get()
        return v
    st = obj("starky::types::StarkStruct"); sn = SP.St.fields
    names = [f["n"] if isinstance(f, dict) else f[0] for f in I.types[st.ty]["v"][0]["f"]]
    st.f[names.index("verificationHashType")] = StrObj(kind)
    prf = obj("starky::stark_gen::StarkProof")
    def load(J, a, c):
        s = J.types[c["a"][0]]["s"]
        return M.ok(st if "StarkStruct" in s else obj("starky::types::PIL"))
    I.hooks["starky::types::load_json"] = load
    I.hooks["starky::polsarray::PolsArray::new"] = lambda J, a, c: obj("starky::polsarray::PolsArray")
    I.hooks["starky::polsarray::PolsArray::load"] = lambda J, a, c: M.ok(unit())
    def mkt(J, c): return tuple(J.types[x]["s"] for x in c.get("a", []) if isinstance(x, int))
    def new(J, a, c):
        seen["setup"] = mkt(J, c); seen["root"] = s = obj("starky::stark_setup::StarkSetup"); return M.ok(s)
    I.hooks["starky::stark_setup::StarkSetup::<M>::new"] = I.hooks["starky::stark_setup::StarkSetup::new"] = new
    def gen(J, a, c): seen["gen"] = mkt(J, c); return M.ok(prf)
    I.hooks["starky::stark_gen::StarkProof::<M>::stark_gen"] = I.hooks[SGEN] = gen
    def ver(J, a, c):
        seen["verify"] = mkt(J, c)
        if deep(a[0]) is not prf: seen["other"] = "another proof is verified"
        sf = [f["n"] if isinstance(f, dict) else f[0] for f in J.types[seen["root"].ty]["v"][0]["f"]]
        if deep(a[1]) is not seen["root"].f[sf.index("const_root")]: seen["other"] = "the proof is verified against another commitment of the fixed columns"
        if deep(a[2]) is not seen["root"].f[sf.index("starkinfo")] or deep(a[4]) is not seen["root"].f[sf.index("program")]: seen["other"] = "the proof is verified for another circuit"
        if deep(a[3]) is not st: seen["other"] = "the proof is verified under other parameters"
        return Phi(E, M.err(Agg(None, 0, [StrObj("e")])), M.ok(V))
    I.hooks[SV] = ver
    I.hooks["starky::pil2circom::pil2circom"] = lambda J, a, c: M.ok(StrObj("CIRCOM"))
    def ser(J, a, c):
        seen.setdefault("ser", []).append(deep(a[0]) is prf); return M.ok(StrObj("ZKIN" if deep(a[0]) is prf else "OTHER"))
    for n in ("serde_json::ser::to_string", "serde_json::ser::to_string_pretty"): I.hooks[n] = ser
    for n in ("serde_json::ser::to_writer", "serde_json::ser::to_writer_pretty"):
        def tw(J, a, c): write(J, a, c); seen.setdefault("ser", []).append(deep(a[1]) is prf); return M.ok(unit())
        I.hooks[n] = tw
    seen["bad"] = []; seen["n"] = 0
    def write(J, a, c):
        seen["n"] += 1
        if J.cond_known(V) is not True or J.cond_known(E) is not False: seen["bad"].append(1)
        return M.ok(unit())
    for n in ("Write::write_all", "Write::write_fmt", "Write::write"): I.models[n] = write if n != "Write::write" else (lambda J, a, c: (write(J, a, c), M.ok(1))[1])
    I.prefix.append(("<std::fs::File as std::io::Write>::", lambda J, a, c: M.ok(unit()) if (c.get("r") or c["p"]).endswith("flush") else write(J, a, c)))
    for n in ("std::fs::write", "std::fs::rename", "std::fs::copy"): I.hooks[n] = write
    def go():
        a = [StrObj("s"), StrObj("p"), False, False, False, StrObj("c"), StrObj("m"), StrObj("circom"), StrObj("zkin"), StrObj("addr")]
        f = I.mir.find("starky::prove::stark_prove", None)
        try: I.invoke("starky::prove::stark_prove", ["s", "p", False, False, False, "c", "m", "circom", "zkin", "addr"])
        except Panic as e: raise Undecided("panics: %s" % e)
        if "verify" not in seen: return "the proof is not verified"
        if seen.get("other"): return seen["other"]
        if seen["bad"]: return "an output is written although the verification of the proof has not succeeded there"
        if not seen["n"]: raise Undecided("no output seen")
        if False in seen.get("ser", []): return "what is written is not the proof that was verified"
        ts = {k: seen[k] for k in ("setup", "gen", "verify")}
        if seen["gen"][:1] != seen["verify"][:1] or seen["setup"][:1] != seen["gen"][:1] or seen["gen"][-1] != seen["verify"][-1]: return "setup, prover and verifier use different commitments or transcripts: %s" % ts
    ctx.ob("starky/src/prove.rs stark_prove", "hash type %s: outputs are written only after acceptance" % kind, go)
def job(ctx, j):
    k, c = j
    {"v": verify_case, "t": tampered, "w": writer}[k](ctx, c)
def run(ctx):
    cs = CASES + (MORE if ctx.tier == "thorough" else [])
    ctx.parallel(job, [("v", c) for c in cs] + [("t", c) for c in (CASES[:1] + CASES[2:3] if ctx.tier == "quick" else CASES)] + [("w", k) for k in ("GL", "BN128", "BLS12381")])
