"""C33: the batched opening polynomial binds every committed column and every opened value."""
from dom import *
from aeval import *
import models as M, prover as PR
import c13
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of the circuit compiler on symbolic circuits; generated opening programs read as polynomials in the batching challenges and matched against the committed columns and opened values"
RULE = ("StarkInfo::new is interpreted on circuits given as documents; the polynomial tested for low degree, read from the generated query program and from the prover's program, is the same; every committed column, "
    "quotient pieces included, enters it alone with a challenge monomial of its own, and every opened value i enters as (column - value) times the quotient factor of its own point (current or next row) with a monomial of its own; "
    "tree nodes refer to the position at which the column is committed; positions in a tree are disjoint and fill it, and columns that hold extension values are three elements wide")
ASSUME = ["challenges vf1 and vf2 are independent symbols", "circuits are those listed for C13"]
LOC = "starky/src/starkinfo_fri_prover.rs generate_fri_polynomial"
SEC = {"tree%d" % k: "cm%d_2ns" % k for k in (1, 2, 3, 4)}
def query(V):
    F = V.F; pos = {}
    for i, p in enumerate(V.cm2): pos[(V.pm[p][0], V.pm[p][1])] = (i, V.pm[p][2])
    def env(n):
        t = n["t"]
        if t in SEC:
            k = (SEC[t], n["pos"])
            if k not in pos: raise PR.Bad("no column is committed at position %d of %s" % (n["pos"], t))
            if pos[k][1] != n["dim"]: raise PR.Bad("column %d is %d wide, %d elements of it are read" % (pos[k] + (n["dim"],)))
            if n["prime"]: raise PR.Bad("a queried column is read on the next row")
            return F.var("a%d" % pos[k][0])
        if t == "const":
            if n["prime"]: raise PR.Bad("a queried constant column is read on the next row")
            return F.var("c%d" % n["id"])
        if t == "eval": return F.var("$ev%d" % n["id"])
        if t in ("xDivXSubXi", "xDivXSubWXi"): return F.var("$" + t)
        return V.common(n)
    return V.G.run(V.G.program("verifier_query_code"), env)
def factors(F, e):
    """e as {(cells, values and quotient factors of a monomial): polynomial in the challenges}."""
    out = {}
    for m, k in e.d.items():
        key, ch = [], []
        for t, q in F.monos[m]:
            nm = F.atoms[t].args[1]
            (ch if nm in ("$vf1", "$vf2") else key).append((nm, q))
        out.setdefault(tuple(sorted(key)), []).append((tuple(sorted(ch)), k))
    return out
def check(V, pol):
    F = V.F; f = factors(F, pol); seen = {}
    other = {x for k in f for x, q in k if x[0] not in "ac" and x not in ("$xDivXSubXi", "$xDivXSubWXi") and not x.startswith("$ev")}
    if other: return "the opening polynomial depends on %s" % sorted(other)[0]
    def own(what, key, coef=1):
        l = f.pop(key, None)
        if not l: return "%s does not enter the opening polynomial" % what, None
        if len(l) != 1 or l[0][1] % F.p != coef % F.p: return "%s enters the opening polynomial with more than one challenge monomial" % what, None
        return None, l[0][0]
    for i in range(V.tot):
        b, mon = own("committed column %d" % i, (("a%d" % i, 1),))
        if b: return b
        if mon in seen: return "committed column %d shares its challenge monomial with %s" % (i, seen[mon])
        seen[mon] = "committed column %d" % i
    for i, x in enumerate(V.ev):
        d = "$xDivXSubWXi" if x["prime"] else "$xDivXSubXi"; c = ("a%d" if x["t"] == "cm" else "c%d") % x["id"] if x["t"] in ("cm", "const") else None
        if c is None: return "opened value %d is of %s" % (i, x["t"])
        what = "opened value %d (%s %d%s)" % (i, x["t"], x["id"], ", next row" if x["prime"] else "")
        b, m1 = own(what, tuple(sorted((("$ev%d" % i, 1), (d, 1)))), -1)
        if b: return b
        b, m2 = own("the column of " + what, tuple(sorted(((c, 1), (d, 1)))))
        if b: return b
        if m1 != m2: return "%s is not subtracted from its column" % what
        # a value at one point may not hide behind another value or a bare column
        if m1 in seen: return "%s shares its challenge monomial with %s" % (what, seen[m1])
        seen[m1] = what
    if f: return "the opening polynomial contains another product: %s" % (sorted(f)[0],)
    return None
def both(V):
    q = query(V)
    if q is None: return "the query program is empty"
    b = check(V, q)
    if b: return b
    out = V.prover("step52ns", "2ns"); p = out.get(("f", 0))
    if p is None or len(out) != 1: return "the prover's program stores %s instead of the opening polynomial" % sorted(out)
    if p.d != q.d: return "the prover tests another polynomial than the verifier recomputes"
    return None
def layout(V):
    G = V.G; w = G.get(G.info, "map_sectionsN")
    for dom, l in (("n", V.cmn), ("2ns", V.cm2)):
        use = {}
        for i, p in enumerate(l):
            s, o, d = V.pm[p]
            if not s.endswith("_" + dom): return "column %d is mapped to %s" % (i, s)
            k = next((j for j in (1, 2, 3, 4) if i < sum(V.cm[:j])), 0)
            if s != "cm%d_%s" % (k, dom): return "column %d of stage %d is committed in %s" % (i, k, s)
            for j in range(o, o + d):
                if (s, j) in use: return "columns %d and %d share position %d of %s" % (use[(s, j)], i, j, s)
                use[(s, j)] = i
        for k in (1, 2, 3, 4):
            s = "cm%d_%s" % (k, dom); n = G.num(G.get(w, s)); got = {j for t, j in use if t == s}
            if got != set(range(n)): return "section %s is %d wide, its columns fill %d positions" % (s, n, len(got))
    for i, (p, q) in enumerate(zip(V.cmn, V.cm2)):
        if V.pm[p][1:] != V.pm[q][1:]: return "column %d lies at different positions on the two domains" % i
    return None
def dims(V):
    """columns computed from challenges, or from columns that are, hold extension values."""
    G = V.G; F = V.F
    def wide(e, te):
        for m in e.d:
            for t, k in F.monos[m]:
                nm = F.atoms[t].args[1]
                if nm[0] == "$" and nm != "$x" and nm != "$Zi": return nm
                if nm[0] == "a" and V.pm[V.cmn[int(nm[1:].rstrip("'"))]][2] == 3: return "column " + nm[1:]
        return None
    for name in ("step2prev", "step3prev", "step3"):
        for (k, i), v in V.prover(name, "n").items():
            p = V.cmn[i] if k == "cm" else V.te[i] if k == "tmpExp" else None
            if p is None: continue
            w = wide(v, None)
            if w and V.pm[p][2] < 3: return "%s %d is one element wide although it depends on %s" % (k, i, w)
    for a, b, z in V.pu:
        if V.pm[V.cmn[z]][2] != 3: return "the accumulator of a lookup is one element wide"
    for z in V.pe + V.ci:
        if V.pm[V.cmn[z]][2] != 3: return "the accumulator of an argument is one element wide"
    for q in V.qs:
        if V.pm[V.cm2[q]][2] != G.n("q_dim"): return "quotient piece %d has another width than the quotient" % q
    if G.n("q_dim") != 3 and any(x for x in [wide(V.verifier(), None)] if x): return "the quotient is one element wide"
    return None
def job(ctx, j):
    mk, ext = j
    I = ctx.interp(("GL",), "expand"); F = I.F["GL"]; C = mk(F)
    what = "%s, extension %d" % (mk.__name__, ext); V = [None]
    def build():
        try: V[0] = c13.View(I, C, ext)
        except PR.Refused: return None
        except (PR.Bad, Panic): raise Undecided("the circuit is not compiled (C13)")
        return None
    ctx.ob(LOC, what + ": compiles", build)
    if V[0] is None: return
    for nm, f in (("opening polynomial", both), ("layout", layout), ("widths", dims)): ctx.ob(LOC, "%s: %s" % (what, nm), lambda: c13.guard(f, V[0]))
def run(ctx):
    ctx.parallel(job, PR.CIRCUITS)
