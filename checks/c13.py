"""C13: the composed constraint polynomial."""
import sys
from dom import *
from aeval import *
import models as M, prover as PR, pil as PL
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of the circuit compiler on symbolic circuits; generated programs read as polynomials and compared with the declared constraints"
RULE = ("StarkInfo::new is interpreted on circuits given as documents; the generated verifier program, read with opened values and challenges as symbols, is a polynomial in the composition "
    "challenge whose coefficients are, after the intermediate columns are resolved one after the other, exactly the declared identities and the constraints of the declared arguments; the prover's "
    "program is the same polynomial times the inverse of the vanishing polynomial; intermediate columns, argument numerators and publics are computed as declared; the quotient has room for the degree")
ASSUME = ["challenges are independent symbols; a circuit is one of the listed shapes (identities up to degree 6, shared and shifted expressions, publics, lookups, permutations and connections with and without selectors, extension factors 2 to 8)",
    "get_ks gives the coset representatives of connections (its distinctness is checked under C02/C01 constants)"]
LOC = "starky/src/starkinfo.rs StarkInfo::new"
def coeffs(F, e, v):
    """Coefficients of e by powers of the variable v."""
    out = {}
    ids = {t for t, x in F.atoms.items() if x.op == "var" and x.args[1] == v} if isinstance(F.atoms, dict) else set()
    for m, k in e.d.items():
        p = 0; rest = []
        for t, q in F.monos[m]:
            if t in ids: p = q
            else: rest.append((t, q))
        d = out.setdefault(p, {}); mm = F.intern(tuple(rest)); d[mm] = (d.get(mm, 0) + k) % F.p
    return {p: FE(F, d) for p, d in out.items() if d}
def cells(e): return {x for x in PL.names(e) if x[0] in "ac"}
def degree(F, e):
    """Degree in the trace (cells and the evaluation point)."""
    r = 0
    for m in e.d:
        r = max(r, sum(k for t, k in F.monos[m] if F.atoms[t].args[1][0] in "ac" or F.atoms[t].args[1] == "$x"))
    return r
class View:
    def __init__(self, I, C, ext):
        self.C = C; F = self.F = C.F; self.G = G = PR.Gen(I, C, ext); self.ext = ext
        if G.err: raise PR.Refused("the circuit is refused")
        self.na = C.na
        self.ev = G.evmap()
        self.pu = [(x["h1_id"], x["h2_id"], x["z_id"]) for x in G.ctxs("pu_ctx")]
        self.pe = [x["z_id"] for x in G.ctxs("pe_ctx")]; self.ci = [x["z_id"] for x in G.ctxs("ci_ctx")]
        self.cm = [G.n("n_cm%d" % i) for i in (1, 2, 3, 4)]
        self.tot = sum(self.cm); self.pm = G.polmap(); self.cm2 = G.nums(G.get(G.info, "cm_2ns")); self.cmn = G.nums(G.get(G.info, "cm_n"))
        self.im0 = self.cm[0] + self.cm[1] + len(self.pu) + len(self.pe) + len(self.ci)
        self.ims = list(range(self.im0, sum(self.cm[:3])))
        self.qs = G.nums(G.get(G.info, "qs")); self.qdeg = G.n("q_deg")
        self.te = G.nums(G.get(G.info, "tmpexp_n"))
    def cell(self, t, i, p):
        if t == "cm": return self.F.var("a%d%s" % (i, "'" if p else ""))
        if t == "const": return self.F.var("c%d%s" % (i, "'" if p else ""))
        raise PR.Bad("an opened value of %s" % t)
    def common(self, n):
        F = self.F; t = n["t"]
        if t == "challenge":
            if n["id"] >= len(PR.CHN): raise PR.Bad("challenge %d" % n["id"])
            return F.var("$" + PR.CHN[n["id"]])
        if t == "public": return F.var(":%d" % n["id"])
        if t == "x": return F.var("$x")
        raise PR.Bad("a reference to %s" % t)
    def verifier(self):
        def env(n):
            if n["t"] == "eval":
                if n["id"] >= len(self.ev): raise PR.Bad("opened value %d of %d" % (n["id"], len(self.ev)))
                x = self.ev[n["id"]]; return self.cell(x["t"], x["id"], x["prime"])
            return self.common(n)
        return self.G.run(self.G.program("verifier_code"), env)
    def where(self, n, dom):
        """The committed column a node of the prover's program refers to."""
        l = self.cmn if dom == "n" else self.cm2
        if n["id"] >= len(l): raise PR.Bad("column %d of %d" % (n["id"], len(l)))
        return self.cell("cm", n["id"], n["prime"])
    def prover(self, name, dom):
        """Values stored by a program of the prover: {(kind, id): polynomial}."""
        out = {}; F = self.F
        def env(n):
            if n["t"] == "cm": 
                k = ("cm", n["id"])
                if k in out and not n["prime"]: return out[k]
                if n["prime"] and k + ("'",) in out: return out[k + ("'",)]
                if n["prime"] and k in out: raise PR.Bad("column %d is read on the next row while it is being computed" % n["id"])
                return self.where(n, dom)
            if n["t"] == "const": return self.cell("const", n["id"], n["prime"])
            if n["t"] == "tmpExp":
                k = ("tmpExp", n["id"])
                if n["prime"]: k = k + ("'",)
                if k not in out: raise PR.Bad("expression column %d is read%s before it is computed" % (n["id"], " on the next row" if n["prime"] else ""))
                return out[k]
            if n["t"] == "Zi": return F.var("$Zi")
            if n["t"] in ("xDivXSubXi", "xDivXSubWXi"): return F.var("$" + n["t"])
            if n["t"] == "eval": return F.var("$ev%d" % n["id"])
            return self.common(n)
        def store(d, v):
            out[(d["t"], d["id"]) + (("'",) if d["prime"] else ())] = v
        self.G.run(self.G.program(name), env, store)
        for k in [k for k in out if len(k) == 3]:
            # a value also stored on the next row must be the next row's own value
            v = out.pop(k)
            if k[:2] not in out: raise PR.Bad("%s %d is only written on the next row" % k[:2])
            if PR._prime(F, out[k[:2]]).d != v.d: raise PR.Bad("%s %d is given another value on the next row than the next row gives itself" % k[:2])
        return out
def show(F, e, k=3):
    out = []
    for m, q in list(e.d.items())[:k]:
        out.append("%d" % (q if q < F.p // 2 else q - F.p) + "".join("*%s%s" % (F.atoms[t].args[1], "" if n == 1 else "^%d" % n) for t, n in F.monos[m]))
    return " + ".join(out) + (" + ..." if len(e.d) > k else "")
def resolve(V, cs):
    """Eliminates the intermediate columns: ({column: its meaning}, remaining coefficients) or raises."""
    F = V.F; left = dict(cs); unk = {"a%d" % i: i for i in V.ims}; known = {}
    def sb(e): return PL.subst(F, e, lambda x: known[x] if x in known else PR._prime(F, known[x[:-1]]) if x.endswith("'") and x[:-1] in known else F.var(x))
    while unk:
        hit = None
        for p, e in sorted(left.items()):
            s = cells(e) ; u = [x for x in s if x in unk or (x.endswith("'") and x[:-1] in unk)]
            if len(u) != 1 or u[0] not in unk: continue
            x = u[0]; co = coeffs(F, e, x)
            if set(co) - {0, 1} or 1 not in co or not co[1].is_const(): continue
            g = fscale(co.get(0, F.zero), F.p - pow(co[1].cval(), -1, F.p))
            hit = (p, x, g); break
        if hit is None: raise PR.Bad("column %s is not determined by a constraint of its own" % ", ".join(sorted(unk)))
        p, x, g = hit; del left[p]; del unk[x]
        try: known[x] = sb(g)
        except PL.PilError: raise PR.Bad("column %s is defined by values two rows away" % x)
        for q in left: left[q] = sb_or(F, left[q], x, known[x])
    return known, left
def sb_or(F, e, x, v):
    try: return PL.subst(F, e, lambda y: v if y == x else PR._prime(F, v) if y == x + "'" else F.var(y))
    except PL.PilError: raise PR.Bad("column %s is used on the next row although its definition already looks ahead" % x)
def declared(V, ks):
    C = V.C
    return C.identities() + C.arguments(V.pu, V.pe, V.ci, ks)
def compare(V, ks):
    F = V.F
    pol = V.verifier(); cs = coeffs(F, pol, "$vc")
    bad = [x for x in PL.names(pol) if x in ("$vf1", "$vf2", "$xi")]
    if bad: return "the constraint polynomial contains the challenge %s" % bad[0]
    V.known, left = resolve(V, cs)
    want = declared(V, ks); keys = {}
    for p, e in left.items(): keys.setdefault(PL.pkey(e), []).append(p)
    used = set()
    for what, e in want:
        if not e.d: continue
        h = keys.get(PL.pkey(e))
        if not h: return "%s does not enter the constraint polynomial with a power of the composition challenge of its own" % what
        if len(h) < 1: return None
        used.update(h[:1] if len([1 for w, x in want if PL.pkey(x) == PL.pkey(e)]) == 1 else h)
    extra = [p for p in left if p not in used and left[p].d]
    if extra: return "the constraint polynomial demands something that was not declared: %s" % show(F, left[extra[0]])
    return None
def ids(V, ks):
    G = V.G; n = V.tot
    zs = [z for x in V.pu for z in x] + V.pe + V.ci
    if len(set(zs)) != len(zs) or any(not V.na <= z < V.im0 for z in zs): return "the columns of the arguments are not separate new columns: %s" % zs
    if any(x[2] < V.cm[0] + V.cm[1] or x[0] >= V.cm[0] + V.cm[1] or x[1] >= V.cm[0] + V.cm[1] for x in V.pu) or any(z < V.cm[0] + V.cm[1] for z in V.pe + V.ci): return "a column of an argument belongs to another stage"
    if V.cm[0] != V.na or len(zs) != V.im0 - V.na: return "%d columns are committed for %d declared and %d of arguments" % (V.im0, V.na, len(zs))
    if len(V.cm2) != n or len(V.cmn) != n: return "%d columns are mapped, %d are committed" % (len(V.cm2), n)
    if V.qs != list(range(sum(V.cm[:3]), n)) or len(V.qs) != V.qdeg: return "the quotient pieces are columns %s of %d" % (V.qs, n)
    return None
def degrees(V):
    d = degree(V.F, V.verifier())
    if d - 1 > V.qdeg: return "the constraint polynomial has degree %d in the trace, its quotient is committed in %d pieces" % (d, V.qdeg)
    if V.qdeg > 1 << V.ext: return "%d quotient pieces do not fit the extended domain" % V.qdeg
    return None
def quotient(V):
    """every piece has an opened value of its own on this row."""
    for q in V.qs:
        k = [i for i, x in enumerate(V.ev) if x["t"] == "cm" and x["id"] == q and not x["prime"]]
        if len(k) != 1: return "quotient piece %d has %d opened values" % (q, len(k))
        I = V.G.I; r = I.unphi(I.invoke("starky::starkinfo_codegen::EVIdx::get", [Ref([V.G.get(V.G.info, "ev_idx")], 0), "cm", 0, q]))
        if r.v == 0 or M.conc(I, M.deref(r.f[0])) != k[0]: return "the opened value of quotient piece %d is not the one the verifier looks up" % q
    seen = set()
    for x in V.ev:
        k = (x["t"], x["id"], x["prime"])
        if k in seen: return "%s %d is opened twice at one point" % k[:2]
        seen.add(k)
    return None
def step4(V):
    pol = V.verifier(); out = V.prover("step42ns", "2ns")
    q = out.get(("q", 0))
    if q is None or len(out) != 1: return "the prover's program stores %s instead of the quotient" % sorted(out)
    if q.d != fmul(pol, V.F.var("$Zi")).d: return "the prover divides another polynomial than the one the verifier evaluates"
    return None
def step3(V):
    out = V.prover("step3", "n"); F = V.F
    compare_known(V)
    for i in V.ims:
        v = out.get(("cm", i))
        if v is None: return "intermediate column %d is not computed" % i
        if v.d != V.known["a%d" % i].d: return "intermediate column %d is filled with %s, its constraint demands %s" % (i, show(F, v), show(F, V.known["a%d" % i]))
    x = [k for k in out if k[0] == "cm" and k[1] not in V.ims] + [k for k in out if k[0] not in ("cm", "tmpExp")]
    if x: return "step3 also writes %s" % (x,)
    return None
def compare_known(V):
    if not hasattr(V, "known"): V.known, _ = resolve(V, coeffs(V.F, V.verifier(), "$vc"))
def prev(V, ks):
    """the columns h1, h2 and z of the arguments are computed from expression columns that hold f, t and numerator, denominator."""
    G, F, C = V.G, V.F, V.C; e2p = G.map("exp2pol"); compare_known(V)
    def full(x): return PL.subst(F, x, lambda y: V.known[y] if y in V.known else PR._prime(F, V.known[y[:-1]]) if y.endswith("'") and y[:-1] in V.known else F.var(y))
    def stored(out, ex):
        if ex not in e2p: raise PR.Bad("expression %d has no column" % ex)
        pp = e2p[ex]
        if pp in V.cmn: k = ("cm", V.cmn.index(pp))
        elif pp in V.te: k = ("tmpExp", V.te.index(pp))
        else: raise PR.Bad("expression %d is kept in an unknown column" % ex)
        if k not in out: return None
        return full(out[k])
    o2, o3 = V.prover("step2prev", "n"), V.prover("step3prev", "n")
    dv, one = C.ch("defVal"), F.one
    for k, ((f, t, sf, st), x) in enumerate(zip(C.lk, G.ctxs("pu_ctx"))):
        T_ = C.sel(C.fold(t), st, dv); f_ = C.sel(C.fold(f), sf, T_)
        for nm, w in (("f", f_), ("t", T_)):
            v = stored(o2, x[nm + "_exp_id"])
            if v is None or v.d != w.d: return "lookup %d: the %s column is computed as %s" % (k, nm, "nothing" if v is None else show(F, v))
    z = C.arguments(V.pu, V.pe, V.ci, ks)
    for k, (x, zc) in enumerate(zip(G.ctxs("pu_ctx") + G.ctxs("pe_ctx") + G.ctxs("ci_ctx"), [p[2] for p in V.pu] + V.pe + V.ci)):
        what, pol = z[2 * k + 1]
        num, den = stored(o3, x["num_id"]), stored(o3, x["den_id"])
        if num is None or den is None: return "%s: numerator or denominator is not computed" % what
        got = fsub(fmul(F.var("a%d'" % zc), den), fmul(F.var("a%d" % zc), num))
        if not PL.prop(got, pol): return "%s: the accumulated quotient is not the one the constraint demands" % what
    return None
def pubs(V):
    G, F, C = V.G, V.F, V.C
    segs = M.items(G.get(G.prog, "publics_code"))
    for i, (kind, pid, ix) in enumerate(C.pub):
        if kind != "imP": continue
        if i >= len(segs): return "public %d (an expression) has no program at its place" % i
        def env(n):
            if n["t"] == "cm": return V.where(n, "n")
            if n["t"] == "const": return V.cell("const", n["id"], n["prime"])
            return V.common(n)
        got = G.run(G.seg(segs[i]), env)
        if got is None or got.d != C.poly(("e", pid)).d: return "public %d is computed as %s" % (i, "nothing" if got is None else show(F, got))
    return None
def ks_of(I, F, n):
    v = I.invoke("starky::helper::get_ks", [n])
    import fieldmodels as FM
    return [1] + [FM.fe(x, I=I).cval() for x in M.items(v)]
def guard(f, *a):
    try: return f(*a)
    except PR.Bad as e: return str(e)
    except Panic as e: return "panics: %s" % e
def job(ctx, j):
    mk, ext = j
    I = ctx.interp(("GL",), "expand"); F = I.F["GL"]; C = mk(F)
    what = "%s, extension %d" % (mk.__name__, ext)
    try: ks = ks_of(I, F, 8)
    except Undecided: ks = None
    V = [None]
    def build():
        try: V[0] = View(I, C, ext)
        except PR.Refused as e: return None if (mk, ext) in PR.REFUSED else str(e)
        except PR.Bad as e: return str(e)
        except Panic as e: return "the circuit cannot be compiled: panics: %s" % e
        return None
    ctx.ob(LOC, what + ": compiles", build)
    if V[0] is None: return
    V = V[0]
    if len({1} | set(ks)) != len(ks) or 0 in ks: ctx.violation("starky/src/helper.rs get_ks", "the coset representatives repeat")
    for nm, f, a in (("columns", ids, (V, ks)), ("declared constraints", compare, (V, ks)), ("room for the quotient", degrees, (V,)), ("opened values", quotient, (V,)), ("the prover divides the same polynomial", step4, (V,)),
            ("intermediate columns", step3, (V,)), ("argument columns", prev, (V, ks)), ("publics", pubs, (V,))):
        ctx.ob(LOC, "%s: %s" % (what, nm), lambda: guard(f, *a))
def run(ctx):
    ctx.parallel(job, PR.CIRCUITS)
