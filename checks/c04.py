from dom import *
from aeval import *
import models as M, posref
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over symbolic field elements, compared with a specification normal form"
RULE = ("The permutation's MIR is evaluated on a fully symbolic 12-element state in linear-combination-of-S-box normal form and every output is compared with the plain "
        "4+22+4-round permutation built from the published round constants and matrix; input lengths and output counts are enumerated.")
ASSUME = ["the 64-bit base field is exact (decided by C01)"]
PATH = "starky::poseidon_opt::Poseidon::hash"
def run(ctx):
    I = ctx.interp(("GL",), "wrap"); F = I.F["GL"]
    st = [F.var("s%d" % i) for i in range(12)]
    ref = posref.gl(F, st)
    W = "starky/src/poseidon_opt.rs hash"
    me = Ref([I.invoke("starky::poseidon_opt::Poseidon::new", [])], 0)
    def call(inp, cap, out):
        return I.unphi(I.invoke(PATH, [me, SRef(list(inp), 0, len(inp)), SRef(list(cap), 0, len(cap)), out]))
    def t(out):
        r = call(st[:8], st[8:], out)
        if r.v != 0: return "returns an error for a well-formed block"
        l = M.items(r.f[0])
        if len(l) != out: return "%d outputs instead of %d" % (len(l), out)
        for i in range(out):
            if l[i].d != ref[i].d: return "output %d differs from the plain permutation" % i
    for out in (1, 4, 12): ctx.ob(W, "first %d outputs of the permutation of a symbolic block and capacity" % out, t, out)
    def order():
        p = [st[(5 * i + 3) % 12] for i in range(12)]
        r = call(p[:8], p[8:], 12)
        w = posref.gl(F, p)
        if any(a.d != b.d for a, b in zip(M.items(r.f[0]), w)): return "a permuted block is not hashed as such"
    ctx.ob(W, "second state with the lanes permuted", order)
    for k in list(range(0, 8)) + [9, 12, 16]:
        def e():
            if call([F.var("x%d" % i) for i in range(k)], st[8:], 4).v == 0: return "accepts %d inputs" % k
        ctx.ob(W, "%d inputs are refused" % k, e)
    for k in (0, 1, 3, 5, 8):
        def e2():
            if call(st[:8], [F.var("x%d" % i) for i in range(k)], 4).v == 0: return "accepts %d capacity elements" % k
        ctx.ob(W, "capacity of %d elements is refused" % k, e2)
