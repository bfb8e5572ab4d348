from dom import *
from aeval import *
import re, json
import models as M, serdemodels as S, iomodels as IO, sol
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR of the exporter on a virtual file system, then syntax tree interpretation of the emitted Solidity over formal curve points (precompiled contracts modelled by their specification)"
RULE = ("for every enumerated number of public inputs and both coordinate notations, the emitted contract parses; verifyTx takes exactly one word per public input; it returns true exactly when the pairing precompile answers 1; that precompile is called once with, "
        "up to a common sign, (A,B), (-(IC0 + sum in_i IC_{i+1}), gamma), (-C, delta), (-alpha, beta), every G2 coordinate pair imaginary part first; every input must be below the scalar field order; a failing precompile call reverts; a key of another curve is refused.")
ASSUME = ["the Solidity compiler and the EVM precompiles 6, 7, 8 behave as specified", "contracts stay within the interpreted subset of Solidity", "key coordinates are pairwise distinct, so every occurrence is attributed to one coordinate"]
P = "vroots::g16::"
def rx(I):
    """the regex crate's interface, patterns translated to Python's"""
    def new(J, a, c):
        try: return M.ok(M.Opaque(("regex", re.compile(M.cstr(M.deref(a[0]))))))
        except re.error: return M.err(M.Opaque("bad pattern"))
    def rep(n):
        def f(J, a, c):
            r = M.deref(a[0]).name[1]; t = M.cstr(M.deref(a[1])); w = M.deref(a[2])
            if not isinstance(w, (M.StrObj, str)) and not hasattr(w, "l"): raise Undecided("replacement by a function")
            w = M.cstr(w)
            def sub(m):
                def g(k):
                    k = k[1] or k[2] or k[0]
                    if k == "$$": return "$"
                    try: return m.group(int(k) if k.isdigit() else k) or ""
                    except (IndexError, KeyError): return ""
                return re.sub(r"\$\$|\$\{([^}]*)\}|\$(\w+)", g, w)
            return M.StrObj(r.sub(sub, t, n))
        return f
    for p in ("regex::regex::string::Regex::", "regex::Regex::"):
        I.hooks[p + "new"] = new; I.hooks[p + "replace"] = rep(1); I.hooks[p + "replace_all"] = rep(0)
    for p in ("into_owned", "to_string"): pass
def key(n, hexa, curve="BN128"):
    """a key document with distinct coordinates, and what each coordinate is"""
    known, c = {}, [0]
    def w(tok):
        c[0] += 1; v = pow(3, 100 + c[0], sol.Q)
        known[v] = tok
        return ("0x%064x" % v) if hexa else str(v)
    def g1(name):
        p = sol.Point({name: {1: 1}}); return {"x": w(("x", p)), "y": w(("y", p))}
    def g2(name): return {"x": [w(("g2", name, 0)), w(("g2", name, 1))], "y": [w(("g2", name, 2)), w(("g2", name, 3))]}
    d = {"protocol": "groth16", "curve": curve, "vk_alpha_1": g1("alpha"), "vk_beta_1": g1("beta1"), "vk_beta_2": g2("beta"), "vk_gamma_2": g2("gamma"), "vk_delta_1": g1("delta1"),
        "vk_delta_2": g2("delta"), "IC": [g1("ic%d" % i) for i in range(n)]}
    return d, known
def export(I, doc):
    IO.fs(I).clear(); IO.fs(I)["vk.json"] = IO.FileObj(list(json.dumps(doc).encode()))
    r = I.unphi(I.invoke("groth16::api::generate_verifier", [M.StrObj("vk.json"), M.StrObj("out.sol")]))
    o = IO.fs(I).get("out.sol")
    return M.is_ok(r) if hasattr(M, "is_ok") else r.v == 0, None if o is None else IO.text_of(list(o.f))
def contract(I, n, hexa, ctx):
    ok, text = export(I, key(n, hexa)[0])
    if not ok or text is None: return "no contract is written for %d public inputs" % (n - 1)
    text = M.cstr(text) if not isinstance(text, str) else text
    known = key(n, hexa)[1]
    if "<%" in text: return "the placeholder %s is left in the contract" % re.search(r"<%[^%]*%>", text)[0]
    try: u = sol.P(text).unit()
    except sol.Bad as e: return "the contract does not parse: %s" % e
    f = u.get("Verifier", {"fns": {}})["fns"].get("verifyTx")
    if not f: return "no verifyTx"
    want = [("Proof", ())] + ([("uint", (n - 1,))] if n > 1 else [])
    got = [(t[0].replace("uint256", "uint"), t[1]) for _, t in f[0][0]]
    if got != want: return "verifyTx takes %s" % got
    ins = [sol.Sym("in%d" % i) for i in range(n - 1)]
    pt = lambda s: sol.Point({s: {1: 1}})
    def proof():
        s = lambda x: sol.Struct("G1Point", {"X": ("x", pt(x)), "Y": ("y", pt(x))})
        return sol.Struct("Proof", {"a": s("A"), "b": sol.Struct("G2Point", {"X": [("g2", "B", 0), ("g2", "B", 1)], "Y": [("g2", "B", 2), ("g2", "B", 3)]}), "c": s("C")})
    def go(result, bad=None, failing=None):
        def below(s, c):
            if c != sol.R: raise sol.Bad("the input %s is compared with %d instead of the scalar field order" % (s, c))
            seen.add(s); return s is not bad
        seen = set(); e = sol.Ev(u, known, below, result, failing)
        try: v = e.run("Verifier", "verifyTx", [proof()] + ([list(ins)] if n > 1 else []))
        except sol.Revert: v = "revert"
        return v, e, seen
    x = sol.Point({"ic0": {1: 1}})
    for i, s in enumerate(ins): x = x.add(pt("ic%d" % (i + 1)).mul(s))
    want = {"B": pt("A"), "gamma": x.mul(-1), "delta": pt("C").mul(-1), "beta": pt("alpha").mul(-1)}
    try:
        for result in (1, 0):
            v, e, seen = go(result)
            if v != bool(result): return "verifyTx returns %s when the pairing check answers %d" % (v, result)
            if len(e.pairings) != 1: return "%d pairing checks" % len(e.pairings)
            got = {}
            for a, b in e.pairings[0]: got[b] = got.get(b, sol.Point({})).add(a)
            got = {k: p for k, p in got.items() if p.d}
            if got != want and got != {k: p.mul(-1) for k, p in want.items()}:
                k = next((k for k in list(want) + list(got) if got.get(k) != want.get(k)), None)
                return "the point paired with %s is %s instead of %s" % (k, got.get(k), want.get(k))
            for s in ins:
                if s not in seen: return "%s is not checked against the scalar field order" % s
        for s in ins[:3] + ins[-1:]:
            v, _, _ = go(1, bad=s)
            if v is True: return "an unreduced input %s is accepted" % s
        for k in range(e.calls if ctx.tier != "quick" or n < 6 else 12):
            v, _, _ = go(1, failing=k)
            if v is True: return "the contract accepts although precompile call %d fails" % k
    except sol.Bad as e: return str(e)
    except sol.Unsup as e: raise Undecided("Solidity: %s" % e)
    ctx.count("precompiled contract calls interpreted", go(1)[1].calls)
def run(ctx):
    where = "groth16/src/api.rs generate_verifier"
    sizes = (1, 2, 3, 5, 11, 17) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 33, 64, 101)
    I = ctx.interp((), "wrap"); S.install(I); rx(I)
    for hexa in (True, False):
        for n in sizes: ctx.ob(where, "%d public inputs, %s coordinates" % (n - 1, "hexadecimal" if hexa else "decimal"), contract, I, n, hexa, ctx)
    def other(curve):
        ok, text = export(I, key(2, True, curve)[0])
        if ok and text is not None: return "a key of the curve %s is exported into a contract of the curve BN128" % curve
    for c in ("BLS12381",): ctx.ob(where, "a key of the curve " + c, other, c)
