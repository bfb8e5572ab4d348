import random
from dom import *
from aeval import *
import models as M, comp12 as C12, pil as PL
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR: the setup is evaluated on enumerated circuits down to its files, the generated text is parsed, and the polynomial each row imposes on symbolic wires is compared with the constraint system"
RULE = ("the text rendered for every (size, publics) declares the committed, constant and public columns, exposes each public wire once and imposes besides that the same identities as every other size; for circuits with every gate kind the rows of the generated arithmetisation impose, polynomial for polynomial, "
        "exactly the constraints, the additions, the extension multiply-add, evaluation, folding and permutation equations and the public wires (no more, no less), and the permutation columns connect exactly the cells holding the same wire.")
ASSUME = ["the polynomial identity language means what engine/pil.py implements", "the circuits are the enumerated ones; wires are symbolic"]
GATES = {"CMulAdd": 12, "EvPol4": 21, "FFT4": 24, "Poseidon12": 372}
def circuits(tier):
    """name, circuit, forced size"""
    base = [([(1, 3)], [(2, 1)], [(3, 5)])]
    sg = lambda n, k, nw: [1 + (7 * k + 3 * i) % (nw - 1) for i in range(n)] if n < 30 else [1 + (k + i) % (nw - 1) for i in range(n)]
    for npub in (1, 2, 11, 12, 13, 24, 25, 37, 0):
        for nout in sorted({0, npub // 2, npub}):
            yield "%d public wires, %d outputs" % (npub, nout), C12.Circ(nout, npub - nout, npub + 5, [([(1, 3)], [(2, 1)], [(3, 5)]), ([], [], [(npub + 1, 2), (npub + 2, 7), (npub + 3, 1), (0, 9), (npub + 4, 1)])]), 0
    # rows are shared by gates with equal coefficients: two pairs in each half
    def rows(ms):
        out = []
        for k in ms: out.append(([(1 + k % 3, 2 + k)], [(2, 1)], [(4 + (k + len(out)) % 7, 5)]))
        return C12.Circ(0, 3, 16, out)
    pats = [[0], [0, 0], [0] * 3, [0] * 4, [0] * 5, [0, 1], [0, 0, 1], [0, 0, 1, 1], [0, 0, 1, 1, 1], [0, 0, 1, 2, 2, 1], [0, 1, 0, 1, 2, 2, 0, 1], [0, 0, 1, 1, 2, 2, 3, 3, 4], [0, 1, 2, 0, 1, 2, 0, 1, 2, 0], [3, 0, 0, 3, 3, 0, 0, 3, 3, 1], [0, 0, 0, 1, 1, 0, 0]]
    rnd = random.Random(22)
    for _ in range(60 if tier == "thorough" else 12): pats.append([rnd.randrange(5) for _ in range(rnd.randrange(4, 24))])
    for p in pats: yield "gates with coefficient patterns %s" % "".join(map(str, p)), rows(p), 0
    # custom gates, alone and together, in every order of declaration
    F4 = [3, 5, 7, 4]; F2 = [11, 13, 17, 2]
    one = [[("CMulAdd", [])], [("EvPol4", [])], [("FFT4", F4)], [("FFT4", F2)], [("Poseidon12", [])], [("FFT4", [1, 1, 1, 2])], [("FFT4", [2**63, 2**40 + 1, -1, 4])]]
    for gs in one:
        nw = 20 if gs[0][0] == "CMulAdd" else 400 if gs[0][0] == "Poseidon12" else 40
        n = GATES[gs[0][0]]
        yield "one %s%s" % (gs[0][0], gs[0][1] or ""), C12.Circ(0, 2, nw, base, gs, [(0, sg(n, 0, nw))]), 0
        yield "three %s%s" % (gs[0][0], gs[0][1] or ""), C12.Circ(1, 1, nw, base, gs, [(0, sg(n, k, nw)) for k in range(3)]), 0
        yield "%s%s without other constraints" % (gs[0][0], gs[0][1] or ""), C12.Circ(1, 1, nw, [], gs, [(0, sg(n, 1, nw))]), 0
    allg = [("CMulAdd", []), ("EvPol4", []), ("FFT4", F4), ("FFT4", F2), ("Poseidon12", [])]
    import itertools
    orders = list(itertools.permutations(range(5)))
    for q in (orders if tier == "thorough" else orders[::17]):
        gs = [allg[i] for i in q]
        us = [(i, sg(GATES[gs[i][0]], 3 * i, 400)) for i in (0, 1, 2, 3, 4, 2, 0)]
        yield "gates declared %s" % " ".join(g[0] + str(g[1] and g[1][3] or "") for g in gs), C12.Circ(1, 12, 400, base + [([(k, 1)], [(k + 1, 2)], [(k + 2, 3), (0, k)]) for k in range(4, 9)], gs, us), 0
        k = rnd.sample(range(5), rnd.randrange(2, 4)); gs = [allg[i] for i in k]
        yield "gates declared %s, last used first" % " ".join(g[0] for g in gs), C12.Circ(0, 3, 400, base, gs, [(i, sg(GATES[gs[i][0]], i, 400)) for i in reversed(range(len(gs)))]), 0
    yield "declared gates without use", C12.Circ(0, 3, 40, base, allg, [(1, sg(21, 1, 40))]), 0
    # sizes: exactly a power of two, one more, a larger one on request
    for n in (3, 4, 5, 7, 8, 9): yield "%d multiply-adds" % n, C12.Circ(0, 2, 30, [], [("CMulAdd", [])], [(0, sg(12, k, 30)) for k in range(n)]), 0
    for nb in (4, 6, 9): yield "size 2^%d on request" % nb, C12.Circ(1, 13, 40, base, [("EvPol4", [])], [(0, sg(21, 1, 40)), (0, sg(21, 2, 40))]), nb
def run(ctx):
    I0 = ctx.interp(("GL",), "expand"); C12.install(I0)
    where = "recursion/src/compressor12/plonk_setup.rs"
    def circ(cx, job):
        I = cx.interp(("GL",), "expand"); C12.install(I)
        for n, c, nb in job: cx.ob(where, n, C12.meaning, I, c, nb)
    cs = list(circuits(ctx.tier))
    ctx.parallel(circ, [cs[i::8] for i in range(8)])
    render(ctx, I0)
def render(ctx, I):
    """the rendered text for every size and number of publics"""
    where = "recursion/src/compressor12/compressor12_pil.rs render"; F = I.F["GL"]
    def parse(nb, npub):
        t = M.cstr(I.invoke("recursion::compressor12::compressor12_pil::render", [nb, npub]))
        return PL.Pil(t, F)
    def norm(P, e):
        """keyed by what the columns are called"""
        back = {}
        for q, (k, i0, ln, d) in P.decl.items():
            for j in range(ln or 1): back["%s%d" % (k[0] if k != "commit" else "a", i0 + j)] = "%s %d" % (q, j)
        return PL.pkey(PL.subst(F, e, lambda n: F.var(n if n[0] == ":" else back[n.rstrip("'")] + ("'" if n.endswith("'") else ""))))
    ref = []
    def one(nb, npub):
        try: P = parse(nb, npub)
        except PL.PilError as e: return str(e)
        if P.deg != 2**nb: return "%d rows are declared instead of 2^%d" % (P.deg, nb)
        if sorted(P.publics) != sorted("pub%d" % i for i in range(npub)): return "publics %s" % sorted(P.publics)
        pubs, rest = {}, set()
        for e in P.identities:
            v = [x[1:] for x in PL.names(e) if x[0] == ":"]
            if not v: rest.add(norm(P, e)); continue
            if len(v) != 1: return "an identity mixes publics %s" % v
            pubs.setdefault(v[0], []).append(e)
        cells = set()
        for i in range(npub):
            n = "pub%d" % i
            q, ix, r = P.publics[n]
            if q != "Compressor.a": return "%s is a cell of %s" % (n, q)
            if (ix, r) in cells: return "%s shares the cell of another public" % n
            cells.add((ix, r))
            if r >= 2**nb: return "%s is in row %d of %d" % (n, r, 2**nb)
            if len(pubs.get(n, [])) != 1: return "%s is constrained %d times" % (n, len(pubs.get(n, [])))
            L = P.decl.get("Global.L%d" % (r + 1))
            if not L: return "no selector of row %d is declared" % r
            want = fmul(F.var("c%d" % L[1]), fsub(F.var("a%d" % (P.decl["Compressor.a"][1] + ix)), F.var(":" + n)))
            if PL.pkey(pubs[n][0]) != PL.pkey(want): return "%s is constrained by %s" % (n, pubs[n][0])
        if P.n["commit"] != 12: return "%d committed columns" % P.n["commit"]
        con = [(k, [norm(P, x) for x in l], [norm(P, x) for x in r]) for k, l, r in P.connects]
        a = [PL.pkey(F.var("Compressor.a %d" % i)) for i in range(12)]; s = [PL.pkey(F.var("Compressor.S %d" % i)) for i in range(12)]
        if len(con) != 1 or con[0][0] != "connect" or sorted(zip(map(repr, con[0][1]), map(repr, con[0][2]))) != sorted(zip(map(repr, a), map(repr, s))): return "the copy argument is not one connection of the twelve wire columns with their permutation columns"
        if not ref: ref.append(rest); return
        if rest != ref[0]: return "other identities than at 12 rows and 5 publics: %d missing, %d added" % (len(ref[0] - rest), len(rest - ref[0]))
    ctx.ob(where, "size 5, 5 publics", one, 5, 5)
    for nb in list(range(1, 33)): ctx.ob(where, "size %d, 14 publics" % nb, one, nb, 14 if nb > 1 else 3)
    for npub in list(range(0, 62 if ctx.tier == "quick" else 300)): ctx.ob(where, "size 8, %d publics" % npub, one, 8, npub)
