from dom import *
from aeval import *
import models as M, fieldmodels as FM, wtns as W, c17, serdemodels as S
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR: synthesis on symbolic coefficients and witnesses into a recording constraint system with linear-combination normal forms"
RULE = ("synthesize is evaluated with symbolic coefficients and witness values; the recorded allocations must be the public wires 1.. in order and then every remaining wire in order, each with its own (possibly mapped) witness value, and the recorded constraints must be exactly the "
        "constraint system's, each side the stored linear combination over the wires; only constraints that are identically 0*B=0 or A*0=0 may be absent. get_public_inputs must return the values of exactly the public wires in order.")
ASSUME = ["linear-combination and variable types of bellperson / bellman behave as sums over variables", "shapes of constraint systems: the enumerated ones"]
class LC:
    def __init__(self, d=None): self.f = [d or {}]
    def __deepcopy__(self, memo): return LC(dict(self.f[0]))
def install(I):
    def key(v):
        v = I.unphi(M.deref(v))
        ix = I.unphi(v.f[0])
        return ("Input" if ix.v == 0 else "Aux", M.conc(I, ix.f[0]))
    def terms(x):
        x = M.deref(x)
        if isinstance(x, LC): return [(k, e) for k, e in x.f[0].items()]
        if isinstance(x, Agg) and len(x.f) == 2:
            e = FM.fe(x.f[0], I=I); y = M.deref(x.f[1])
            if isinstance(y, LC): return [(k, fmul(e, g)) for k, g in y.f[0].items()]
            return [(key(y), e)]
        return [(key(x), None)]
    def comb(sign):
        def f(J, a, c):
            l = M.deref(a[0])
            if not isinstance(l, LC): return NotImplemented
            if aeval_J(): raise Undecided("constraint built under an undecided condition")
            d = dict(l.f[0])
            for k, e in terms(a[1]):
                if e is None: e = J.cs_field.one
                if sign < 0: e = fneg(e)
                d[k] = fadd(d[k], e) if k in d else e
            r = LC(d)
            if (c.get("r") or c["p"]).endswith("_assign"): a[0].set(r); return unit()
            return r
        return f
    I.hooks["core::ops::arith::Add::add"] = comb(1); I.hooks["core::ops::arith::Sub::sub"] = comb(-1)
    I.hooks["core::ops::arith::AddAssign::add_assign"] = comb(1); I.hooks["core::ops::arith::SubAssign::sub_assign"] = comb(-1)
    for k, path in (("gpu", "bellpepper_core::"), ("gpu", "bellperson::"), ("cpu", "franklin_crypto::bellman::")):
        for m_ in ("lc::LinearCombination::<Scalar>::zero", "LinearCombination::<E>::zero", "LinearCombination::<Scalar>::zero", "lc::LinearCombination::zero"): I.hooks[path + m_] = lambda J, a, c: LC()
        for m_ in ("lc::Variable::new_unchecked", "Variable::new_unchecked"): I.hooks[path + m_] = lambda J, a, c: Agg(None, 0, [a[0]])
        for m_ in ("lc::Variable::get_unchecked", "Variable::get_unchecked"): I.hooks[path + m_] = lambda J, a, c: M.deref(a[0]).f[0]
    def zero_any(J, a, c): return LC()
    P = "vroots::cs::"
    def guard():
        if aeval_J(): raise Undecided("circuit built under an undecided condition")
    def alloc(J, a, c):
        guard(); k = bool(I.resolve(a[0])); I.cs_n[k] += 1; I.cs_log.append(("in" if k else "aux", I.cs_n[k] - 1)); return I.cs_n[k] - 1
    def value(J, a, c):
        guard(); I.cs_val.append(("in" if I.resolve(a[0]) else "aux", FM.fe(a[1], I=I))); return unit()
    def enf(J, a, c):
        guard(); I.cs_con.append(tuple({k: e for k, e in M.deref(x).f[0].items() if e.d} for x in a)); return unit()
    I.hooks[P + "cs_alloc"] = alloc; I.hooks[P + "cs_value"] = value; I.hooks[P + "cs_enforce"] = enf
    I.hooks[P + "cs_witness"] = lambda J, a, c: I.cs_wit
def aeval_J():
    import aeval
    return aeval.J
def mk(I, R, nin, naux, cons, wit, mapping, off=0, nout=0):
    """CircomCircuit value"""
    def agg(path, **kw):
        t = next(t for t in I.types if t.get("p") == path and t.get("v"))
        n = [f["n"] if isinstance(f, dict) else f[0] for f in t["v"][0]["f"]]
        if set(n) != set(kw): raise Undecided("fields of %s are %s" % (path, n))
        return Agg(I.types.index(t), 0, [kw[x] for x in n])
    P = R.c + "::circom_circuit::"
    cs = M.Vec([Agg(None, 0, [M.Vec([Agg(None, 0, [w, e]) for w, e in lc]) for lc in c]) for c in cons])
    r = agg(P + "R1CS", num_inputs=nin, num_aux=naux, num_variables=nin + naux, num_outputs=nout, constraints=cs, custom_gates=M.Vec([]), custom_gates_uses=M.Vec([]))
    return agg(P + "CircomCircuit", r1cs=r, witness=M.none() if wit is None else M.some(M.Vec(list(wit))), wire_mapping=M.none() if mapping is None else M.some(M.Vec(list(mapping))), aux_offset=off)
SH = [(1, 0, []), (1, 3, [[[0, 1], [2], [3]]]), (3, 4, [[[3, 1], [2], [4, 0, 1]], [[], [1], [1]], [[4, 2, 0], [0], []], [[], [], [6]]]), (4, 0, [[[1], [2], [3]], [[3], [], [0]]]), (2, 5, [[[6, 5, 4, 3, 2, 1, 0], [1], [2]], [[0], [], [3]], [[], [], []], [[5], [5], [5]], [[1], [], []], [[], [4], []]])]
def run(ctx):
    I = ctx.interp(("SBLS", "EBN", "EBLS"), "wrap"); install(I); S.install(I)
    for R, root in zip(W.readers(I), ("gpu::synth_gpu", "cpu::synth_bn", "cpu::synth_bls")):
        F = R.F; where = R.file + "circom_circuit.rs "
        def data(nin, naux, cons, tag=""):
            k = [0]
            def f():
                k[0] += 1; return F.var("c%s%d" % (tag, k[0]))
            return [[[(w, f()) for w in lc] for lc in c] for c in cons], [F.var("w%d" % i) for i in range(nin + naux)]
        def synth(nin, naux, cons, mapping, off, keygen, special=None):
            I.cs_field = F
            cs, w = data(nin, naux, cons)
            if special: cs = special(cs)
            n = nin + naux
            m = None if mapping is None else [mapping(i, n) for i in range(n)]
            I.cs_n = {True: 1, False: off}; I.cs_log = []; I.cs_val = []; I.cs_con = []; I.cs_wit = not keygen
            r = I.unphi(I.invoke("vroots::cs::" + root, [mk(I, R, nin, naux, cs, None if keygen else w, m, off)]))
            if r.v: return "synthesis fails"
            if I.cs_log != [("in", i) for i in range(1, nin)] + [("aux", off + i) for i in range(naux)]:
                return "wires are allocated as %s" % I.cs_log
            if not keygen:
                want = [w[i if m is None else m[i]] for i in range(1, n)]
                for i, ((_, g), x) in enumerate(zip(I.cs_val, want)):
                    if g.d != x.d: return "wire %d is given the value of another wire: %s" % (i + 1, g)
                if len(I.cs_val) != len(want): return "%d values for %d wires" % (len(I.cs_val), len(want))
            def side(lc):
                d = {}
                for wi, e in lc:
                    k = ("Input", wi) if wi < nin else ("Aux", wi - nin + off)
                    d[k] = fadd(d[k], e) if k in d else e
                return {k: e for k, e in d.items() if e.d}
            def show(c): return tuple(tuple(sorted((k, repr(e)) for k, e in s.items())) for s in c)
            want = [tuple(side(lc) for lc in c) for c in cs]
            triv = lambda c: (not c[0] or not c[1]) and not c[2]
            g, x = sorted(show(c) for c in I.cs_con if not triv(c)), sorted(show(c) for c in want if not triv(c))
            if g != x:
                miss = [c for c in x if c not in g]; ext = [c for c in g if c not in x]
                return "constraint %s is not enforced%s" % (miss[0], "; instead %s" % (ext[0],) if ext else "") if miss else ("constraint %s is enforced %d times" % (ext[0] if ext else "", len(g) - len(x)))
        maps = {"no mapping": None, "reversed mapping": lambda i, n: 0 if i == 0 else n - i, "identity mapping": lambda i, n: i, "one wire for all": lambda i, n: 0}
        for si, (nin, naux, cons) in enumerate(SH):
            for mn, mp in maps.items(): ctx.ob(where + "synthesize", "%s: shape %d, %s" % (R.fname, si, mn), synth, nin, naux, cons, mp, 0, False)
            ctx.ob(where + "synthesize", "%s: shape %d, without witness" % (R.fname, si), synth, nin, naux, cons, None, 0, True)
            ctx.ob(where + "synthesize", "%s: shape %d, offset 5" % (R.fname, si), synth, nin, naux, cons, None, 5, False)
        def zero(cs): return [[[(w, F.zero if j == 0 and k == 0 else e) for k, (w, e) in enumerate(lc)] for j, lc in enumerate(c)] for c in cs]
        def dup(cs): return [[lc + lc[:1] for lc in c] for c in cs]
        def one(cs): return [[[(w, F.one) for w, e in lc] for lc in c] for c in cs]
        def opp(cs): return [[lc + [(w, fneg(e)) for w, e in lc[:1]] for lc in c] for c in cs]
        for nm, f in (("a zero coefficient", zero), ("a wire named twice", dup), ("unit coefficients", one), ("opposite coefficients of one wire", opp)):
            for si in (2, 4): ctx.ob(where + "synthesize", "%s: shape %d, %s" % (R.fname, si, nm), synth, *SH[si], None, 0, False, f)
        def pub(nin, naux, mp):
            n = nin + naux; w = [F.var("w%d" % i) for i in range(n)]
            m = None if mp is None else [mp(i, n) for i in range(n)]
            r = I.unphi(I.invoke(R.c + "::circom_circuit::CircomCircuit::<E>::get_public_inputs", [Ref([mk(I, R, nin, naux, [], w, m)], 0)], [R.engine]))
            if r.v != 1: return "no public inputs are reported"
            g = [FM.fe(x, I=I).d for x in M.items(r.f[0])]
            if g != [w[i if m is None else m[i]].d for i in range(1, nin)]: return "the public inputs reported are not the values of wires 1 to %d" % (nin - 1)
        for nin, naux in ((1, 0), (1, 4), (2, 0), (3, 4), (6, 2)):
            for mn, mp in maps.items(): ctx.ob(where + "get_public_inputs", "%s: %d public, %d others, %s" % (R.fname, nin - 1, naux, mn), pub, nin, naux, mp)
        def nowit():
            r = I.unphi(I.invoke(R.c + "::circom_circuit::CircomCircuit::<E>::get_public_inputs", [Ref([mk(I, R, 2, 1, [], None, None)], 0)], [R.engine]))
            if r.v != 0: return "public inputs without a witness"
        ctx.ob(where + "get_public_inputs", R.fname + ": no witness", nowit)
        def js(vals):
            w = [F.const(1)] + [F.const(v) for v in vals] + [F.const(99)]
            r = I.unphi(I.invoke(R.c + "::circom_circuit::CircomCircuit::<E>::get_public_inputs_json", [Ref([mk(I, R, 1 + len(vals), 1, [], w, None)], 0)], [R.engine]))
            d = S.from_text(M.sval(r))
            if d != [S.Str(str(v)) for v in vals]: return "public inputs %s are written as %s" % (vals, d)
        for vals in ([], [0], [1], [10, 16, 255, 256], [F.p - 1], [F.p - 2, 0, 7], [2**64, 2**128, 2**192 + 5], [0xabcdef << 100, 12345678901234567890]): ctx.ob(where + "get_public_inputs_json", "%s: %s" % (R.fname, vals), js, vals)
