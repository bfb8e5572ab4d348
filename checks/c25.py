from dom import *
from aeval import *
import json
import models as M, serdemodels as S, iomodels as IO
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR on a virtual file system; the proof system's operations are replaced by recorders that note the curve they are instantiated at and every operand"
RULE = ("for each curve and notation: setup hands the circuit of circuit_file to parameter generation, writes the parameters to pk_file and every coordinate of their verifying key under its name to vk_file; prove hands the parameters of pk_file and the circuit with the witness, in order, to the prover and writes "
        "the proof and the public wires; verify hands exactly the key, proof and inputs read to the verification and succeeds iff that answers true; every operation is instantiated at the named curve; numbers that are not reduced field elements and other curve names are refused")
ASSUME = ["bellman's setup, prover and verifier, and its binary format of the parameters", "the circuit reader (C18), witness calculator (C20) and public input selection (C19) are decided separately"]
FC = "franklin_crypto::bellman::"
CUR = {"BN128": ("bn256", "Bn256", 21888242871839275222246405745257275088548364400416034343698204186575808495617, 21888242871839275222246405745257275088696311157297823662689037894645226208583),
    "BLS12381": ("bls12_381", "Bls12", 52435875175126190479447740508185965837690552500527637822603658699938581184513, 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787)}
STUB = {FC + "groth16::VerifyingKey<": "alpha_g1 beta_g1 beta_g2 gamma_g2 delta_g1 delta_g2 ic".split(), FC + "groth16::Proof<": ["a", "b", "c"], FC + "groth16::Parameters<": ["vk"]}
class El:
    def __init__(self, t, v): self.t = t; self.v = v
    def __eq__(self, o): return isinstance(o, El) and (self.t, self.v) == (o.t, o.v)
    def __hash__(self): return hash((self.t, self.v))
    def __repr__(self): return "%s:%d" % (self.t[-2:], self.v)
class Pt:
    def __init__(self, t, c): self.t = t; self.c = c          # coordinates, flat
    def __eq__(self, o): return isinstance(o, Pt) and (self.t, self.c) == (o.t, o.c)
    def __hash__(self): return hash((self.t, tuple(self.c)))
    def __repr__(self): return "(%s)" % ", ".join(str(x.v) for x in self.c)
class Log: pass
def modulus(t):
    for m, _, r, q in CUR.values():
        if "::%s::" % m in t: return (r if t.endswith("Fr") else q), m + "::" + t[-2:]
    raise Undecided("field " + t)
def struct(I, s):
    """the fields of a structure type by its printed name"""
    for p, f in STUB.items():
        if s.startswith(p): return f
    for t in I.types:
        if t["s"] == s and t.get("v"): return [n for n, _ in t["v"][0]["f"]]
    raise Undecided("type " + s)
def mk(I, s, d):
    f = struct(I, s)
    if set(f) - set(d): raise Undecided("fields of " + s)
    return Agg(None, 0, [d[n] for n in f])
def flds(I, s, a):
    a = I.unphi(M.deref(a)); return {n: I.unphi(M.deref(x)) if not isinstance(x, (int, bool)) else x for n, x in zip(struct(I, s), a.f)}
def install(I):
    H = I.hooks
    def tn(J, c, k=0):
        a = [x for x in c.get("a", []) if isinstance(x, int)]
        return J.types[a[k]]["s"] if len(a) > k else ""
    def eng(J, c, k=0):
        s = tn(J, c, k)
        for n, (m, e, _, _) in CUR.items():
            if s.endswith("::" + e): return n
        raise Undecided("engine " + s)
    def fs(J, a, c):
        t = tn(J, c)
        if "franklin" not in t: return NotImplemented
        p, n = modulus(t); s = M.cstr(M.deref(a[0]))
        if not s or not s.isascii() or not s.isdigit() or (s[0] == "0" and s != "0"): return M.none()
        return M.some(El(n, int(s) % p))
    H["ff_ce::PrimeField::from_str"] = fs
    def ch(J, a, c):
        t = tn(J, c)
        if "franklin" not in t: return NotImplemented
        p, n = modulus(t); return El(n, p)
    H["ff_ce::PrimeField::char"] = ch
    for n, (m, e, _, _) in CUR.items():
        for k in ("fr::Fr", "fq::Fq"):
            t = FC + "pairing::%s::%s" % (m, k); nm = m + "::" + k[-2:]
            H["<%s as ff_ce::PrimeField>::char" % t] = lambda J, a, c, t=t, nm=nm: El(nm, modulus(t)[0])
            H["<%s as ff_ce::PrimeField>::into_repr" % t] = lambda J, a, c: M.deref(a[0])
            H["<%s as ff_ce::Field>::zero" % t] = lambda J, a, c, nm=nm: El(nm, 0)
            H["<%s as ff_ce::PrimeField>::from_str" % t] = lambda J, a, c, t=t: fs(J, a, dict(c, a=[J.mir.tid(t)]))
        for g in ("G1", "G2"):
            t = FC + "pairing::%s::%sAffine" % (m, g); nm = m + "::" + g
            def xy(J, a, c, nm=nm):
                p = M.deref(a[0])
                if not isinstance(p, Pt) or p.t != nm: raise Undecided("coordinates of %r" % (p,))
                n = len(p.c) // 2
                w = (lambda l: l[0]) if n == 1 else (lambda l: Agg(None, 0, list(l)))
                return Agg(None, 0, [w(p.c[:n]), w(p.c[n:])])
            def frxy(J, a, c, nm=nm):
                l = []
                for x in a:
                    x = J.unphi(M.deref(x)); l += [x] if isinstance(x, El) else [J.unphi(M.deref(y)) for y in x.f]
                return Pt(nm, l)
            H["<%s as %spairing::CurveAffine>::into_xy_unchecked" % (t, FC)] = xy
            H["<%s as %spairing::CurveAffine>::from_xy_unchecked" % (t, FC)] = frxy
            def chk(J, a, c, f=frxy):
                p = f(J, a, c); I.log.checked = True; return M.ok(p)
            H["<%s as %spairing::CurveAffine>::from_xy_checked" % (t, FC)] = chk
    old = H.get("alloc::string::ToString::to_string")
    def text(x):
        if isinstance(x, El): return "0x%0*x" % (96 if x.t == "bls12_381::Fq" else 64, x.v)
    def show(J, a, c):
        x = M.deref(a[0])
        while isinstance(x, Ref): x = M.deref(x)
        s = text(x)
        return M.StrObj(s) if s is not None else (old(J, a, c) if old else NotImplemented)
    H["alloc::string::ToString::to_string"] = H["<T as alloc::string::ToString>::to_string"] = show
    H["algebraic::utils::repr_to_big"] = lambda J, a, c: M.StrObj(str(M.deref(a[0]).v)) if isinstance(M.deref(a[0]), El) else NotImplemented
    H["rand::thread_rng"] = lambda J, a, c: M.Opaque("rng")
    def r1cs(J, a, c):
        n = eng(J, c); f = M.cstr(M.deref(a[0])); I.log.r1cs.append((n, f))
        s = "algebraic::circom_circuit::R1CS<%spairing::%s::%s>" % (FC, *CUR[n][:2])
        return mk(I, s, {"num_inputs": I.log.nin, "num_aux": I.log.naux, "num_variables": I.log.nin + I.log.naux, "num_outputs": 0, "constraints": M.Vec([]), "custom_gates": M.Vec([]), "custom_gates_uses": M.Vec([])})
    H["algebraic::reader::load_r1cs"] = r1cs
    def circ(c): return flds(I, next(t["s"] for t in I.types if t["s"].startswith("algebraic::circom_circuit::CircomCircuit<") and t.get("v")), c)
    def wit(w):
        w = I.unphi(w); return None if w.v == 0 else [I.unphi(M.deref(x)) for x in M.items(w.f[0])]
    def pk(n, i): return mk(I, FC + "groth16::Parameters<%spairing::%s::%s>" % (FC, *CUR[n][:2]), {"vk": I.log.vkof(n, i)})
    def gen(J, a, c):
        n = eng(J, c); d = circ(a[0]); I.log.gen.append((n, wit(d["witness"]), I.unphi(d["wire_mapping"]).v, d["aux_offset"], flds_r(d)))
        return M.ok(pk(n, len(I.log.gen)))
    def flds_r(d): return M.conc(I, d["r1cs"].f[struct(I, next(t["s"] for t in I.types if t["s"].startswith("algebraic::circom_circuit::R1CS<") and t.get("v"))).index("num_inputs")])
    H[FC + "groth16::generate_random_parameters"] = gen
    def wr(J, a, c):
        p = I.unphi(M.deref(a[0])); n, i = I.log.name(p)
        IO.writer(I, a[1], list(("PK %s %d" % (n, i)).encode())); return M.ok(unit())
    H[FC + "groth16::Parameters::<E>::write"] = wr
    def rd(J, a, c):
        n = eng(J, c); t = bytes(IO.content(I, IO_all(a[0]))).decode().split()
        I.log.read.append((n, t))
        if len(t) != 3 or t[0] != "PK" or t[1] != n: return M.err(M.Opaque("bad parameters"))
        return M.ok(pk(n, int(t[2])))
    def IO_all(r):
        r = M.deref(r)
        while isinstance(r, Ref): r = M.deref(r)
        if isinstance(r, IO.FileH): return M.Vec(list(r.obj.f))
        raise Undecided("reader %r" % (r,))
    H[FC + "groth16::Parameters::<E>::read"] = rd
    def prove(J, a, c):
        n = eng(J, c); d = circ(a[0]); p = I.log.name(I.unphi(M.deref(a[1])))
        I.log.proofs.append((n, wit(d["witness"]), I.unphi(d["wire_mapping"]).v, d["aux_offset"], flds_r(d), p))
        return M.ok(I.log.proof(n))
    H[FC + "groth16::create_random_proof"] = prove
    H[FC + "groth16::prepare_verifying_key"] = lambda J, a, c: M.Opaque("pvk", [(eng(J, c), I.unphi(M.deref(a[0])))])
    def verify(J, a, c):
        k = M.deref(a[0]); n = eng(J, c)
        I.log.verified.append((n, k.f[0], I.unphi(M.deref(a[1])), [I.unphi(M.deref(x)) for x in M.items(M.deref(a[2]))]))
        return M.err(M.Opaque("synthesis error")) if I.log.answer is None else M.ok(I.log.answer)
    H[FC + "groth16::verify_proof"] = verify
    W = "algebraic::witness::"
    H[W + "witness_calculator::WitnessCalculator::from_file"] = lambda J, a, c: M.ok(M.Opaque("calculator", [M.cstr(M.deref(a[0]))]))
    H[W + "load_input_for_witness"] = lambda J, a, c: M.Opaque("inputs", [M.cstr(M.deref(a[0]))])
    def calc(J, a, c):
        I.log.calc.append((M.deref(a[0]).f[0], M.deref(a[1]).f[0])); return M.ok(M.Vec(list(I.log.wit)))
    H[W + "witness_calculator::WitnessCalculator::calculate_witness"] = calc
NAMES = {"alpha_g1": "vk_alpha_1", "beta_g1": "vk_beta_1", "beta_g2": "vk_beta_2", "gamma_g2": "vk_gamma_2", "delta_g1": "vk_delta_1", "delta_g2": "vk_delta_2"}
def fresh(I, ctx, nic=3, nin=3, naux=3):
    L = I.log = Log(); L.r1cs, L.gen, L.read, L.proofs, L.verified, L.calc = [], [], [], [], [], []
    L.nin, L.naux, L.answer, L.checked = nin, naux, True, False; L.wit = [1] + [10 ** (k * 7 % 60) + k for k in range(1, nin + naux)]
    cnt = [0]
    def coord(n):
        cnt[0] += 1; q = CUR[n][3]; m = CUR[n][0] + "::Fq"
        return El(m, cnt[0] if cnt[0] % 4 == 1 else q - cnt[0] if cnt[0] % 4 == 2 else pow(5, 77 * cnt[0], q))
    def pt(n, g): return Pt("%s::%s" % (CUR[n][0], g), [coord(n) for _ in range(2 if g == "G1" else 4)])
    cache = {}
    def vkof(n, i):
        if (n, i) not in cache:
            cache[n, i] = dict({k: pt(n, k[-2:].upper()) for k in NAMES}, ic=[pt(n, "G1") for _ in range(nic)])
        d = cache[n, i]; return mk(I, FC + "groth16::VerifyingKey<%spairing::%s::%s>" % (FC, *CUR[n][:2]), dict(d, ic=M.Vec(list(d["ic"]))))
    L.vkof = vkof; L.vkd = lambda n, i: (vkof(n, i), cache[n, i])[1]
    def name(p):
        v = I.unphi(M.deref(p.f[0]))
        for (n, i), d in cache.items():
            f = flds(I, FC + "groth16::VerifyingKey<%spairing::%s::%s>" % (FC, *CUR[n][:2]), v)
            if f["alpha_g1"] == d["alpha_g1"]: return n, i
        raise Undecided("parameters")
    L.name = name
    def proof(n):
        L.pd = {"a": pt(n, "G1"), "b": pt(n, "G2"), "c": pt(n, "G1")}
        return mk(I, FC + "groth16::Proof<%spairing::%s::%s>" % (FC, *CUR[n][:2]), L.pd)
    L.proof = proof
    IO.fs(I).clear()
    return L
def num(s): return int(s, 16) if s[:2] in ("0x", "0X") else int(s)
def jdoc(I, f):
    o = IO.fs(I).get(f)
    return None if o is None else json.loads(M.sval(IO.text_of(list(o.f))) if not isinstance(IO.text_of(list(o.f)), str) else IO.text_of(list(o.f)))
def coords(d):
    r = []
    for k in ("x", "y"): r += [num(d[k])] if isinstance(d[k], str) else [num(v) for v in d[k]]
    return r
def enc(p, hexa):
    w = lambda e: ("0x%0*x" % (96 if e.t == "bls12_381::Fq" else 64, e.v)) if hexa else str(e.v)
    c = [w(e) for e in p.c]; n = len(c) // 2
    return {"x": c[0], "y": c[1]} if n == 1 else {"x": c[:2], "y": c[2:]}
def strs(d): return [x for v in d.values() for x in strs(v)] if isinstance(d, dict) else [x for v in d for x in strs(v)] if isinstance(d, list) else [d]
def out(I, f):
    """ok / refused"""
    try: r = I.unphi(f())
    except Panic: return "panic", None
    return ("ok" if r.v == 0 else "err"), r
def vkdoc(d, n, hexa): return dict({NAMES[k]: enc(d[k], hexa) for k in NAMES}, IC=[enc(p, hexa) for p in d["ic"]], protocol="groth16", curve=n)
def cmpvk(v, d):
    for k in NAMES:
        if coords(v[NAMES[k]]) != [e.v for e in d[k].c]: return "the point %s of the key is written as %s" % (k, v[NAMES[k]])
    if [coords(p) for p in v["IC"]] != [[e.v for e in p.c] for p in d["ic"]]: return "the input points of the key are written as %s" % (v["IC"],)
def sobj(s): return M.StrObj(s)
def run(ctx):
    I = ctx.interp((), "wrap"); S.install(I); install(I)
    A = "groth16::api::"; W = "groth16/src/api.rs "
    def files(**k):
        for n, t in k.items(): IO.fs(I)[n] = IO.FileObj(list((t if isinstance(t, str) else json.dumps(t)).encode()))
    def E(n): return FC + "pairing::%s::%s" % CUR[n][:2]
    def circuit_ok(g, n, w):
        if g[0] != n: return "the circuit is instantiated at %s" % g[0]
        if g[1] != w: return "the witness handed over is %s" % (g[1],)
        if (g[2], M.conc(I, g[3])) != (0, 0): return "the wires are remapped"
        if g[4] != I.log.nin: return "the circuit has %d public wires" % g[4]
    def setup(n, hexa, nic, inplace):
        L = fresh(I, ctx, nic)
        if inplace: k, r = out(I, lambda: I.invoke(A + "groth16_setup_inplace", [sobj(n), sobj("c")]))
        else: k, r = out(I, lambda: I.invoke(A + "groth16_setup", [sobj(n), sobj("c"), sobj("pk"), sobj("vk"), hexa]))
        if k != "ok": return "setup fails"
        if L.r1cs != [(n, "c")]: return "the circuits read are %s" % L.r1cs
        if len(L.gen) != 1: return "%d parameter generations" % len(L.gen)
        m = circuit_ok(L.gen[0], n, None)
        if m: return m
        d = L.vkd(n, 1)
        if inplace:
            s = I.unphi(r.f[0]); got = [I.unphi(M.deref(x)) for x in s.f]
            if L.name(got[1]) != (n, 1): return "other parameters are returned"
            f = flds(I, FC + "groth16::VerifyingKey<%s>" % E(n), got[2])
            if any(f[k] != d[k] for k in NAMES) or [M.deref(x) for x in M.items(f["ic"])] != d["ic"]: return "another key is returned"
            return
        o = IO.fs(I).get("pk")
        if o is None or bytes(o.f) != b"PK %s 1" % n.encode(): return "the parameters are not written to pk_file"
        v = jdoc(I, "vk")
        if v is None: return "no key is written to vk_file"
        m = cmpvk(v, d)
        if m: return m
        if v["curve"] != n: return "the key is labelled %s" % v["curve"]
        if any(x.startswith("0x") != hexa for k in v if k not in ("curve", "protocol") for x in strs(v[k])): return "to_hex=%s is not followed" % hexa
        # what is written is read back
        files(proof=pdoc(n, L), pub=["1", "2"]); 
        k, _ = out(I, lambda: I.invoke(A + "groth16_verify", [sobj(n), sobj("vk"), sobj("pub"), sobj("proof")]))
        if k != "ok" or len(L.verified) != 1: return "the key written is not accepted by verify"
        return samevk(n, L.verified[0][1], d)
    def pdoc(n, L, hexa=False):
        L.proof(n); return dict(pi_a=enc(L.pd["a"], hexa), pi_b=enc(L.pd["b"], hexa), pi_c=enc(L.pd["c"], hexa), protocol="groth16", curve=n)
    def samevk(n, k, d):
        if k[0] != n: return "the key is prepared for the curve " + k[0]
        f = flds(I, FC + "groth16::VerifyingKey<%s>" % E(n), k[1])
        for x in NAMES:
            if f[x] != d[x]: return "the verification uses %s = %s instead of %s" % (x, f[x], d[x])
        if [M.deref(x) for x in M.items(f["ic"])] != d["ic"]: return "the verification uses other input points"
    def verify(n, hexa, pubs, answer, inplace):
        L = fresh(I, ctx, len(pubs) + 1); d = L.vkd(n, 1); L.answer = answer
        files(vk=vkdoc(d, n, hexa), proof=pdoc(n, L, hexa), pub=[("0x%064x" % v) if hexa else str(v) for v in pubs])
        if inplace: k, r = out(I, lambda: I.invoke(A + "groth16_verify_inplace", [L.vkof(n, 1), sobj("pub"), sobj("proof")], [E(n)]))
        else: k, r = out(I, lambda: I.invoke(A + "groth16_verify", [sobj(n), sobj("vk"), sobj("pub"), sobj("proof")]))
        if k == "panic" and answer is not True: k = "err"
        if (k == "ok") != (answer is True): return "verification %s when the pairing check %s" % ("succeeds" if k == "ok" else "fails", {True: "holds", False: "does not hold", None: "reports an error"}[answer])
        if not L.verified: return "no pairing check is made"
        g = L.verified[-1]
        if g[0] != n: return "the pairing check is made on %s" % g[0]
        m = samevk(n, g[1], d)
        if m: return m
        f = flds(I, FC + "groth16::Proof<%s>" % E(n), g[2])
        for x in "abc":
            if f[x] != L.pd[x]: return "the pairing check uses %s = %s instead of %s" % (x, f[x], L.pd[x])
        fr = CUR[n][0] + "::Fr"
        if g[3] != [El(fr, v) for v in pubs]: return "the pairing check uses the inputs %s instead of %s" % (g[3], pubs)
    def unreduced(n, hexa, where):
        L = fresh(I, ctx, 2); d = L.vkd(n, 1); v = vkdoc(d, n, hexa); p = pdoc(n, L, hexa); pub = ["5"]
        r, q = CUR[n][2:]; w = lambda x: ("0x%x" % x) if hexa else str(x)
        bump = lambda s: w(num(s) + q)
        if where == "input": pub = [w(r + 5)]
        elif where == "input = order": pub = [w(r)]
        elif where == "proof": p["pi_a"]["y"] = bump(p["pi_a"]["y"])
        elif where == "proof G2": p["pi_b"]["x"][1] = bump(p["pi_b"]["x"][1])
        else: v["vk_beta_2"]["y"][0] = bump(v["vk_beta_2"]["y"][0])
        files(vk=v, proof=p, pub=pub)
        k, _ = out(I, lambda: I.invoke(A + "groth16_verify", [sobj(n), sobj("vk"), sobj("pub"), sobj("proof")]))
        if k == "ok": return "a number that is not a reduced field element (%s) is taken as another number" % where
    def prove(n, hexa, nin, inplace):
        L = fresh(I, ctx, nin, nin); files(pk="PK %s 1" % n, other="PK %s 2" % n); L.vkof(n, 1); L.vkof(n, 2)
        L.wit[-1] = 0; L.wit[1] = CUR[n][2] - 1
        if inplace:
            c = mk(I, "algebraic::circom_circuit::CircomCircuit<%s>" % E(n), {"r1cs": I.hooks["algebraic::reader::load_r1cs"](I, [sobj("c")], {"a": [I.mir.tid(E(n))]}), "witness": M.none(), "wire_mapping": M.none(), "aux_offset": 0})
            pkv = mk(I, FC + "groth16::Parameters<%s>" % E(n), {"vk": L.vkof(n, 1)})
            k, r = out(I, lambda: I.invoke(A + "groth16_prove_inplace", [sobj(n), c, sobj("w"), pkv, sobj("i"), sobj("pub"), sobj("proof"), hexa], [E(n)]))
        else: k, r = out(I, lambda: I.invoke(A + "groth16_prove", [sobj(n), sobj("c"), sobj("w"), sobj("pk"), sobj("i"), sobj("pub"), sobj("proof"), hexa]))
        if k != "ok": return "proving fails"
        if L.r1cs != [(n, "c")]: return "the circuits read are %s" % L.r1cs
        if L.calc != [("w", "i")]: return "the witness is computed by %s" % L.calc
        if len(L.proofs) != 1: return "%d proofs are made" % len(L.proofs)
        fr = CUR[n][0] + "::Fr"
        m = circuit_ok(L.proofs[0], n, [El(fr, v) for v in L.wit])
        if m: return m
        if L.proofs[0][5] != (n, 1): return "the proof is made with other parameters"
        p = jdoc(I, "proof")
        if p is None: return "no proof is written"
        for x in "abc":
            if coords(p["pi_" + x]) != [e.v for e in L.pd[x].c]: return "the point %s of the proof is written as %s" % (x, p["pi_" + x])
        if any(x.startswith("0x") != hexa for k in p if k.startswith("pi_") for x in strs(p[k])): return "to_hex=%s is not followed" % hexa
        if p["curve"] != n: return "the proof is labelled %s" % p["curve"]
        u = jdoc(I, "pub")
        if u is None or [num(x) for x in u] != L.wit[1:nin]: return "the public inputs written are %s" % (u,)
        fs = dict(IO.fs(I)); L.verified = []; files(vk=vkdoc(L.vkd(n, 1), n, hexa))
        k, _ = out(I, lambda: I.invoke(A + "groth16_verify", [sobj(n), sobj("vk"), sobj("pub"), sobj("proof")]))
        if k != "ok" or len(L.verified) != 1: return "the proof written is not read back"
        f = flds(I, FC + "groth16::Proof<%s>" % E(n), L.verified[0][2])
        if any(f[x] != L.pd[x] for x in "abc"): return "the proof written is read back as another"
        if L.verified[0][3] != [El(fr, v) for v in L.wit[1:nin]]: return "the public inputs written are read back as %s" % (L.verified[0][3],)
    def unknown(fn, args, c):
        L = fresh(I, ctx); files(pk="PK BN128 1", vk=vkdoc(L.vkd("BN128", 1), "BN128", True), proof=pdoc("BN128", L), pub=["1", "2"])
        before = set(IO.fs(I)); norm = "".join(x for x in c.upper() if x.isalnum())
        k, r = out(I, lambda: I.invoke(A + fn, [sobj(c)] + [sobj(a) if isinstance(a, str) else a for a in args]))
        if k == "ok":
            used = {x[0] for x in L.gen + L.proofs + L.verified}
            if used != {norm}: return "the curve name %r is accepted and %s is used" % (c, sorted(used))
    def foreign(n, o):
        """parameters of another curve are refused"""
        L = fresh(I, ctx); files(pk="PK %s 1" % o); L.vkof(o, 1)
        k, r = out(I, lambda: I.invoke(A + "groth16_prove", [sobj(n), sobj("c"), sobj("w"), sobj("pk"), sobj("i"), sobj("pub"), sobj("proof"), True]))
        if k == "ok": return "parameters of another curve are used"
    for n in CUR:
        for hexa in (True, False):
            h = "hexadecimal" if hexa else "decimal"
            for nic in (1, 2, 5): ctx.ob(W + "groth16_setup", "%s, %s, %d input points" % (n, h, nic), setup, n, hexa, nic, False)
            for nin in (1, 2, 4): ctx.ob(W + "groth16_prove", "%s, %s, %d public wires" % (n, h, nin - 1), prove, n, hexa, nin, False)
            ctx.ob(W + "groth16_prove_inplace", "%s, %s" % (n, h), prove, n, hexa, 3, True)
            r = CUR[n][2]
            for pubs in ([], [0], [1, r - 1, 2**64], [r - 2, 0, 7, 10**20, 255]):
                for ans in (True, False, None):
                    ctx.ob(W + "groth16_verify", "%s, %s, %d inputs, answer %s" % (n, h, len(pubs), ans), verify, n, hexa, pubs, ans, False)
                    ctx.ob(W + "groth16_verify_inplace", "%s, %s, %d inputs, answer %s" % (n, h, len(pubs), ans), verify, n, hexa, pubs, ans, True)
            for w in ("input", "input = order", "proof", "proof G2", "key"): ctx.ob("groth16/src/json_utils.rs render_str_to_scalar", "%s, %s, %s" % (n, h, w), unreduced, n, hexa, w)
        ctx.ob(W + "groth16_setup_inplace", n, setup, n, True, 3, True)
        ctx.ob(W + "groth16_prove", "%s, parameters of another curve" % n, foreign, n, next(x for x in CUR if x != n))
    for c in ("", "BN", "BLS12377", "BLS", "bn128", "BN254", "GOLDILOCKS", "BLS12381 ", "PLONK"):
        for fn, args in (("groth16_setup", ["c", "pk2", "vk2", True]), ("groth16_setup_inplace", ["c"]), ("groth16_prove", ["c", "w", "pk", "i", "pub2", "proof2", True]), ("groth16_verify", ["vk", "pub", "proof"])):
            ctx.ob(W + fn, "curve name %r" % c, unknown, fn, args, c)
