from dom import *
from aeval import *
import models as M, fieldmodels as FM, pil
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR with symbolic coefficients: the polynomial of every emitted gate over the wires, additions eliminated, compared with the polynomial A*B-C of every constraint"
RULE = ("r1cs2plonk is evaluated on constraints whose coefficients are symbolic (generic, with the zero and constant patterns enumerated). Each addition must be defined by a gate over earlier wires and equal its record; after eliminating the added wires the remaining gates must be, up to a non-zero factor, "
        "exactly the polynomials A*B-C over the wires (trivial 0=0 gates may be added); no gate may depend on the value of the unused wire 0. The arithmetisation set up for circuits with 0 to 37 public wires exposes each of them once, in order.")
ASSUME = ["symbolic coefficients are generic: a tested expression that is not identically zero is taken as non-zero (patterns with zero, unit and equal coefficients are enumerated separately)", "shapes of linear combinations: the enumerated ones (up to five wires)"]
def run(ctx):
    I = ctx.interp(("GL",), "expand"); F = I.F["GL"]
    def eq(J, a, c):
        x, y = M.deref(M.deref(a[0])), M.deref(M.deref(a[1]))
        if isinstance(x, FE) or isinstance(y, FE):
            r = not fsub(FM.fe(x, I=I), FM.fe(y, I=I)).d
            return r if c["p"].endswith("eq") else not r
        return NotImplemented
    I.hooks["core::cmp::PartialEq::eq"] = I.hooks["core::cmp::PartialEq::ne"] = eq
    R1 = "algebraic::circom_circuit::R1CS"; 
    def r1cs(nv, cons, nin=1, nout=0):
        t = next(i for i, t in enumerate(I.types) if t.get("p") == R1 and t.get("v"))
        n = [f["n"] if isinstance(f, dict) else f[0] for f in I.types[t]["v"][0]["f"]]
        kw = dict(num_inputs=nin, num_aux=nv - nin, num_variables=nv, num_outputs=nout, constraints=M.Vec([Agg(None, 0, [M.Vec([Agg(None, 0, [w, e]) for w, e in lc]) for lc in c]) for c in cons]), custom_gates=M.Vec([]), custom_gates_uses=M.Vec([]))
        if set(n) != set(kw): raise Undecided("fields of R1CS are %s" % n)
        return Agg(t, 0, [kw[x] for x in n])
    where = "recursion/src/r1cs2plonk.rs r1cs2plonk"
    def conv(nv, cons):
        r = I.invoke("recursion::r1cs2plonk::r1cs2plonk", [Ref([r1cs(nv, cons)], 0)])
        gates = [[M.conc(I, x) for x in g.f[:3]] + [FM.fe(x, I=I) for x in g.f[3:8]] for g in map(M.deref, M.items(r.f[0]))]
        adds = [[M.conc(I, x) for x in g.f[:2]] + [FM.fe(x, I=I) for x in g.f[2:4]] for g in map(M.deref, M.items(r.f[1]))]
        wire = [F.var("unused wire 0")] + [F.var("w%d" % i) for i in range(1, nv)]
        for a, b, ca, cb in adds:
            if a >= len(wire) or b >= len(wire): return "an addition refers to wire %d before it is defined" % max(a, b)
            wire.append(fadd(fmul(ca, wire[a]), fmul(cb, wire[b])))
        polys = []
        for a, b, o, qm, ql, qr, qo, qc in gates:
            if max(a, b, o) >= len(wire): return "a gate refers to wire %d which nothing defines" % max(a, b, o)
            x, y, z = wire[a], wire[b], wire[o]
            e = fadd(fadd(fadd(fmul(qm, fmul(x, y)), fmul(ql, x)), fadd(fmul(qr, y), fmul(qo, z))), qc)
            polys.append((e, (a, b, o), (qo, o)))
        # every added wire needs a defining gate
        for k in range(nv, len(wire)):
            ok = False
            for a, b, o, qm, ql, qr, qo, qc in gates:
                # gate with the added wire left free
                v = F.var("free"); sub = lambda i: v if i == k else wire[i]
                e = fadd(fadd(fadd(fmul(qm, fmul(sub(a), sub(b))), fmul(ql, sub(a))), fadd(fmul(qr, sub(b)), fmul(qo, sub(o)))), qc)
                d = fsub(v, wire[k])
                if e.d and (e.d == d.d or e.d == fneg(d).d): ok = True; break
            if not ok: return "added wire %d is not tied to its definition by any gate" % k
        one = F.one
        def lin(lc):
            e = F.zero
            for w, c in lc: e = fadd(e, c if w == 0 else fmul(c, wire[w]))
            return e
        want = [fsub(fmul(lin(c[0]), lin(c[1])), lin(c[2])) for c in cons]
        got = [e for e, _, _ in polys if e.d]
        if any("unused wire 0" in pil.names(e) for e in got): return "a gate depends on the value of the unused wire"
        want = [e for e in want if e.d]
        for x in want:
            i = next((i for i, g in enumerate(got) if pil.prop(x, g)), None)
            if i is None: return "constraint %s = 0 has no gate%s" % (x, "; instead %s = 0" % got[0] if got else "")
        for g in got:
            if not any(pil.prop(x, g) for x in want): return "gate %s = 0 is not a constraint" % g
    k = [0]
    def v():
        k[0] += 1; return F.var("c%d" % k[0])
    def lc(ws, mode="gen"):
        f = {"gen": lambda i: v(), "zero": lambda i: F.zero, "one": lambda i: F.one, "first0": lambda i: F.zero if i == 0 else v(), "minus": lambda i: F.const(F.p - 1), "last0": lambda i: F.zero if i == len(ws) - 1 else v()}[mode]
        return [(w, f(i)) for i, w in enumerate(ws)]
    SH = {"0": [], "k": [0], "w": [1], "w+k": [0, 2], "2w": [1, 3], "3w": [2, 4, 1], "3w+k": [3, 0, 1, 2], "5w+k": [1, 2, 3, 4, 5, 0], "7w": [1, 2, 3, 4, 5, 6, 7]}
    names = list(SH)
    def one(a, b, c, m): return conv(8, [[lc(SH[a], m[0]), lc(SH[b], m[1]), lc(SH[c], m[2])]])
    for a in names:
        for b in names:
            for c in names if ctx.tier != "quick" else ("0", "k", "w", "3w+k", "5w+k") if a in ("0", "k", "w", "w+k", "3w+k") and b in ("0", "k", "w", "2w", "5w+k") else ("w+k", "7w"):
                ctx.ob(where, "A %s, B %s, C %s" % (a, b, c), one, a, b, c, ("gen",) * 3)
    for m in (("first0", "gen", "gen"), ("gen", "first0", "gen"), ("gen", "gen", "first0"), ("zero", "gen", "gen"), ("gen", "zero", "gen"), ("gen", "gen", "zero"), ("one", "one", "one"), ("minus", "gen", "one"), ("last0", "last0", "last0")):
        for a, b, c in (("3w+k", "2w", "w"), ("2w", "k", "3w"), ("k", "2w", "3w+k"), ("k", "k", "k"), ("w+k", "w+k", "w+k"), ("w", "w", "w"), ("5w+k", "7w", "3w+k")):
            ctx.ob(where, "A %s, B %s, C %s, coefficients %s" % (a, b, c, "/".join(m)), one, a, b, c, m)
    def many(*t): return conv(8, [[lc(SH[a]), lc(SH[b]), lc(SH[c])] for a, b, c in t])
    ctx.ob(where, "several constraints", many, ("3w", "w", "2w"), ("k", "w", "7w"), ("5w+k", "5w+k", "5w+k"), ("0", "0", "3w+k"), ("w", "w", "w"))
    ctx.ob(where, "no constraint", many)
    def cancel():
        x, y = v(), v()
        return conv(8, [[[(0, F.one)], [(1, x), (2, y)], [(1, x), (3, y)]]])
    ctx.ob(where, "constant A, a wire cancels", cancel)
    def cancel2():
        x, y = v(), v()
        return conv(8, [[[(1, x), (2, y)], [(0, F.const(F.p - 1))], [(1, fneg(x)), (3, y)]]])
    ctx.ob(where, "constant B, a wire cancels", cancel2)
    # every public wire is exposed exactly once by the arithmetisation
    import comp12 as C12, c22
    J = ctx.interp(("GL",), "expand"); C12.install(J)
    for n, c, nb in c22.circuits(ctx.tier):
        if "public wires" in n: ctx.ob("recursion/src/compressor12/plonk_setup.rs", n, C12.meaning, J, c, nb)
