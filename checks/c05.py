from dom import *
from aeval import *
import models as M, posref
import os
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over symbolic field elements, compared with the permutation regenerated from the Grain LFSR"
RULE = ("For both curve scalar fields and all 16 widths the MIR of the optimised and of the plain permutation, including the loading of their tables, is evaluated on fully symbolic inputs and "
        "initial state in linear-combination-of-S-box normal form, and every output is compared with the plain Poseidon permutation whose round constants and mixing matrix are regenerated from the Grain LFSR; "
        "all other input counts up to 20 must be refused.")
ASSUME = ["the curve scalar fields of ff_ce and blstrs are exact"]
IMPL = [("BN", "BN", "starky::poseidon_bn128_opt::Poseidon", 0, "starky/src/poseidon_bn128_opt.rs"),
        ("BLS", "BLS", "starky::poseidon_bls12381_opt::Poseidon", 1, "starky/src/poseidon_bls12381_opt.rs"),
        ("BN", "BN", "starky::poseidon_bn128::Poseidon", 0, "starky/src/poseidon_bn128.rs"),
        ("BLS", "BLSPLAIN", "starky::poseidon_bls12381::Poseidon", 0, "starky/src/poseidon_bls12381.rs")]
def obligations(ctx, job):
    name, curve, P, oi, file = job
    I = ctx.interp(("BN", "BLS"), "wrap"); F = I.F[name]
    try: me = Ref([I.invoke(P + "::new", [])], 0)
    except LookupError: me = Ref([Agg(None, [])], 0)
    def call(fn, inp, st, *a):
        return I.unphi(I.invoke(P + "::" + fn, [me, SRef(list(inp), 0, len(inp)), Ref([st], 0), *a]))
    opt = "opt" in file
    for n in range(1, 17):
        xs = [F.var("x%d" % i) for i in range(n)]; s0 = F.var("s")
        ref = []
        def want():
            if not ref: ref.extend(posref.curve(F, curve, [s0] + xs))
            return ref
        def one():
            r = call("hash", xs, s0)
            if r.v != 0: return "%d inputs are refused" % n
            k = oi
            if r.f[0].d != want()[k].d: return "the digest of %d inputs is not the plain permutation's output %d" % (n, k)
        ctx.ob(file + " hash", "%d inputs, symbolic initial state" % n, one)
        def ex(out):
            r = call("hash_ex", xs, s0, iconst(out, 64) if False else out)
            if r.v != 0: return "%d inputs are refused" % n
            l = M.items(r.f[0])
            if len(l) != out: return "%d outputs instead of %d" % (len(l), out)
            for i in range(out):
                if l[i].d != want()[i].d: return "output %d of %d inputs is not the plain permutation's" % (i, n)
        for out in sorted({1, n + 1}):
            ctx.ob(file + " hash_ex", "%d inputs, %d outputs" % (n, out), ex, out)
    for n in (0, 17, 18, 20):
        def bad():
            for f, a in (("hash", ()), ("hash_ex", (1,))):
                if call(f, [F.var("x%d" % i) for i in range(n)], F.var("s"), *a).v == 0: return "%d inputs are accepted" % n
        ctx.ob(file + " hash", "%d inputs are refused with an error" % n, bad)
def run(ctx):
    ctx.parallel(obligations, IMPL)
