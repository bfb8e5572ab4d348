"""Circuits in the PIL exchange format, their meaning as polynomials over cells, and the meaning of the programs StarkInfo generates for them."""
from dom import *
from aeval import *
import models as M, fieldmodels as FM, serdemodels as SD, pil as PL
from serdemodels import Obj, Str
P = FM.GL_P
GLOBAL = "Global.L1"
class Circ:
    """A circuit: the document handed to the code, and its constraints as polynomials over c<i>, a<i> (next row: '), :<i>."""
    def __init__(self, F, nbits=3, consts=3, commits=4):
        self.F = F; self.nbits = nbits; self.nc, self.na = consts, commits
        self.ex = []; self.val = []; self.ids = []; self.lk = []; self.pm = []; self.cn = []; self.pub = []; self.used_as_next = set()
    # expressions are nested tuples
    def poly(self, e, nx=False):
        F = self.F; o = e[0]
        if o in ("c", "a"):
            p = nx or (len(e) > 2 and e[2])
            return F.var("%s%d%s" % (o, e[1], "'" if p else ""))
        if o == "n": return F.const(int(e[1], 0) if isinstance(e[1], str) else e[1])
        if o == "p": return F.var(":%d" % e[1])
        if o == "e": return self.poly(self.ex[e[1]], nx or (len(e) > 2 and e[2]))
        if o == "neg": return fneg(self.poly(e[1], nx))
        x, y = self.poly(e[1], nx), self.poly(e[2], nx)
        return fadd(x, y) if o == "+" else fsub(x, y) if o == "-" else fmul(x, y)
    def deg(self, e):
        o = e[0]
        if o in ("c", "a"): return 1
        if o in ("n", "p"): return 0
        if o == "e": return self.deg(self.ex[e[1]])
        if o == "neg": return self.deg(e[1])
        x, y = self.deg(e[1]), self.deg(e[2])
        return x + y if o == "*" else max(x, y)
    def doc_of(self, e):
        o = e[0]; d = [("deg", self.deg(e))]
        leaf = lambda n: Obj([("op", Str(n))] + d + [("id", e[1]), ("next", bool(len(e) > 2 and e[2]))])
        if o == "c": return leaf("const")
        if o == "a": return leaf("cm")
        if o == "e": return leaf("exp")
        if o == "n": return Obj([("op", Str("number"))] + d + [("value", Str(str(e[1])))])
        if o == "p": return Obj([("op", Str("public"))] + d + [("id", e[1])])
        op = {"+": "add", "-": "sub", "*": "mul", "neg": "neg"}[o]
        return Obj([("op", Str(op))] + d + [("values", [self.doc_of(x) for x in e[1:]])])
    def e(self, x):
        """A new expression; its number."""
        self.ex.append(x); return len(self.ex) - 1
    def one(self, x): return self.e(x)
    def identity(self, x): self.ids.append(x[1] if x[0] == "e" and len(x) == 2 else self.e(x)); return self
    def lookup(self, f, t, sf=None, st=None):
        g = lambda l: [self.e(x) if isinstance(x, tuple) else x for x in l]
        h = lambda s: None if s is None else self.e(s) if isinstance(s, tuple) else s
        self.lk.append((g(f), g(t), h(sf), h(st))); return self
    def permutation(self, f, t, sf=None, st=None):
        self.lookup(f, t, sf, st); self.pm.append(self.lk.pop()); return self
    def connection(self, pols, con):
        g = lambda l: [self.e(x) if isinstance(x, tuple) else x for x in l]
        self.cn.append((g(pols), g(con))); return self
    def public(self, kind, pid, idx): self.pub.append((kind, pid, idx)); return self
    def doc(self):
        n = 1 << self.nbits
        refs = [("S.c%d" % i if i else GLOBAL, Obj([("type", Str("constP")), ("id", i), ("polDeg", n), ("isArray", False)])) for i in range(self.nc)]
        refs += [("S.a%d" % i, Obj([("type", Str("cmP")), ("id", i), ("polDeg", n), ("isArray", False)])) for i in range(self.na)]
        pos = lambda **k: Obj(list(k.items()) + [("fileName", Str("x.pil")), ("line", 1)])
        lk = lambda l: [pos(f=list(f), t=list(t), selF=sf, selT=st) for f, t, sf, st in l]
        exps = [self.doc_of(x) for x in self.ex]
        return Obj([("nCommitments", self.na), ("nQ", 0), ("nIm", 0), ("nConstants", self.nc),
            ("publics", [Obj([("polType", Str(k)), ("polId", p), ("idx", ix), ("id", i), ("name", Str("pub%d" % i))]) for i, (k, p, ix) in enumerate(self.pub)]),
            ("references", Obj(refs)), ("expressions", exps), ("polIdentities", [pos(e=i) for i in self.ids]),
            ("plookupIdentities", lk(self.lk)), ("permutationIdentities", lk(self.pm)), ("connectionIdentities", [pos(pols=list(p), connections=list(c)) for p, c in self.cn])])
    # -- meaning
    def ch(self, n): return self.F.var("$" + n)
    def fold(self, l):
        r = None
        for j in l:
            x = self.poly(("e", j)); r = x if r is None else fadd(fmul(self.ch("u"), r), x)
        return r
    def sel(self, x, s, d): return x if s is None else fadd(fmul(fsub(x, d), self.poly(("e", s))), d)
    def arguments(self, pu, pe, ci, ks):
        """The constraints of the declared arguments, given the numbers of the columns that carry them: (name, polynomial);
        ks: the coset representatives of connections."""
        F = self.F; out = []; v = F.var; g, b, dv = self.ch("gamma"), self.ch("beta"), self.ch("defVal")
        one = F.one; b1 = fadd(one, b); gb = fmul(g, b1); L1 = v("c0")
        def z(what, z, num, den):
            out.append((what + ": start", fmul(L1, fsub(v("a%d" % z), one))))
            out.append((what + ": step", fsub(fmul(v("a%d'" % z), den), fmul(v("a%d" % z), num))))
        for k, ((f, t, sf, st), (h1, h2, zc)) in enumerate(zip(self.lk, pu)):
            T_ = self.sel(self.fold(t), st, dv); f_ = self.sel(self.fold(f), sf, T_)
            h1n = v("a%d'" % h1); h1, h2 = v("a%d" % h1), v("a%d" % h2)
            num = fmul(fmul(fadd(f_, g), fadd(fadd(T_, fmul(PL.prime(F, T_), b)), gb)), b1)
            den = fmul(fadd(fadd(h1, fmul(h2, b)), gb), fadd(fadd(h2, fmul(h1n, b)), gb))
            z("lookup %d" % k, zc, num, den)
        for k, ((f, t, sf, st), zc) in enumerate(zip(self.pm, pe)):
            z("permutation %d" % k, zc, fadd(self.sel(self.fold(f), sf, dv), b), fadd(self.sel(self.fold(t), st, dv), b))
        for k, ((p, c), zc) in enumerate(zip(self.cn, ci)):
            num = den = one
            for i, (pi, si) in enumerate(zip(p, c)):
                x = self.poly(("e", pi))
                num = fmul(num, fadd(fadd(x, fscale(fmul(b, v("$x")), ks[i])), g))
                den = fmul(den, fadd(fadd(x, fmul(b, self.poly(("e", si)))), g))
            z("connection %d" % k, zc, num, den)
        return out
    def identities(self): return [("identity %d" % k, self.poly(("e", i))) for k, i in enumerate(self.ids)]

def primes(F, e):
    """e on the next row; challenges and publics stay, the evaluation point cannot be shifted."""
    return PL.subst(F, e, lambda n: F.var(n if n[0] in ":$" else n + "'"))
PL_prime = PL.prime
def _prime(F, e):
    def p(n):
        if n.endswith("'"): raise PL.PilError("double shift")
        return F.var(n if n[0] in ":$" else n + "'")
    return PL.subst(F, e, p)
PL.prime = _prime

class Gen:
    """StarkInfo::new on a circuit, and its results as plain data."""
    SI = "starky::starkinfo::StarkInfo"; PR = "starky::starkinfo::Program"; SG = "starky::starkinfo_codegen::"
    def __init__(self, I, circ, ext=1, queries=2):
        self.I = I; self.c = circ; self.ext = ext; F = self.F = circ.F
        self.types = {}
        if not hasattr(I, "tape"): I.tape = SD.install(I)
        doc = circ.doc()
        self.pil = I.tape.read("de_pil", doc)
        if self.pil is None: raise Undecided("the circuit document is not read")
        nb = circ.nbits
        st = Obj([("nBits", nb), ("nBitsExt", nb + ext), ("nQueries", queries), ("verificationHashType", Str("GL")), ("steps", [Obj([("nBits", nb + ext)]), Obj([("nBits", max(1, nb + ext - 2))])])])
        I.tape.cur = st; I.tape.rd = []
        self.st = I.unphi(I.invoke("vroots::sd::de", [], ["starky::types::StarkStruct"])).f[0]
        cell = [self.pil]; sc = [self.st]
        r = I.unphi(I.invoke("starky::starkinfo::StarkInfo::new", [Ref(cell, 0), Ref(sc, 0), M.none()]))
        self.pil = cell[0]; self.err = bool(r.v)
        if self.err: return
        self.info, self.prog = r.f[0].f
    def fields(self, tid):
        r = self.types.get(tid)
        if r is None: r = self.types[tid] = [f["n"] if isinstance(f, dict) else f[0] for f in self.I.types[tid]["v"][0]["f"]]
        return r
    def get(self, v, *path):
        for n in path:
            v = self.I.unphi(M.deref(v)); v = v.f[self.fields(v.ty).index(n)]
        return self.I.unphi(v) if isinstance(v, Phi) else v
    def num(self, v): return M.conc(self.I, v)
    def nums(self, v): return [self.num(x) for x in M.items(v)]
    def s(self, v): return M.cstr(M.deref(v))
    def node(self, v):
        g = lambda n: self.get(v, n)
        val = g("value"); val = self.I.unphi(val)
        return dict(t=self.s(g("type_")), id=self.num(g("id")), value=self.s(val.f[0]) if val.v else None, dim=self.num(g("dim")), prime=bool(self.num(g("prime"))), pos=self.num(g("tree_pos")), p=self.num(g("p")))
    def seg(self, v):
        return [(self.s(self.get(s, "op")), self.node(self.get(s, "dest")), [self.node(x) for x in M.items(self.get(s, "src"))]) for s in M.items(self.get(v, "first"))]
    def program(self, name): return self.seg(self.get(self.prog, name))
    def map(self, name):
        d = self.get(self.info, name)
        return {self.num(k): self.num(v) for k, v in mapitems(d)}
    def evmap(self): return [self.node(x) for x in M.items(self.get(self.info, "ev_map"))]
    def polmap(self):
        return [(self.s(self.get(x, "section")), self.num(self.get(x, "section_pos")), self.num(self.get(x, "dim"))) for x in M.items(self.get(self.info, "var_pol_map"))]
    def n(self, name): return self.num(self.get(self.info, name))
    def ctxs(self, name): return [{k: self.num(self.get(x, k)) for k in self.fields(self.I.unphi(M.deref(x)).ty)} for x in M.items(self.get(self.info, name))]
    def run(self, secs, env, store=None):
        """The meaning of a sequence of instructions: values of the nodes written (by (type, id, prime)) in order; the last value."""
        F = self.F; tmp = {}; last = None
        def rd(n):
            if n["t"] == "tmp":
                if n["id"] not in tmp: raise Bad("temporary %d is used before it is computed" % n["id"])
                return tmp[n["id"]]
            if n["t"] == "number": return F.const(int(n["value"], 0))
            return env(n)
        for op, d, src in secs:
            x = [rd(s) for s in src]
            if len(x) != {"copy": 1, "muladd": 3}.get(op, 2): raise Bad("%s with %d operands" % (op, len(x)))
            last = x[0] if op == "copy" else fadd(*x) if op == "add" else fsub(*x) if op == "sub" else fmul(*x) if op == "mul" else fadd(fmul(x[0], x[1]), x[2])
            if d["t"] == "tmp": tmp[d["id"]] = last
            elif store is not None: store(d, last)
            else: raise Bad("a value is stored to %s" % d["t"])
        return last
class Bad(Exception): pass
class Refused(Bad): pass
CHN = ("u", "defVal", "gamma", "beta", "vc", "vf1", "vf2", "xi")
def mapitems(d):
    o = M.deref(d)
    while type(o) is not MapObj:
        if isinstance(o, Agg) and o.f: o = o.f[0]
        else: raise Undecided("map %s" % short(d))
    return [tuple(x) for x in o.d.values()]
# ------------------------------------------------------------------ circuits
a = lambda i, n=False: ("a", i, n)
c = lambda i, n=False: ("c", i, n)
e = lambda i, n=False: ("e", i, n)
n = lambda v: ("n", v)
pb = lambda i: ("p", i)
def add(*l):
    r = l[0]
    for x in l[1:]: r = ("+", r, x)
    return r
def mul(*l):
    r = l[0]
    for x in l[1:]: r = ("*", r, x)
    return r
def sub(x, y): return ("-", x, y)
def neg(x): return ("neg", x)
def plain(F):
    C = Circ(F)
    C.identity(sub(a(0, True), a(1)))
    C.identity(mul(sub(a(1, True), add(a(0), a(1))), sub(n("1"), c(1))))
    return C
def one_identity(F): return Circ(F, 3, 1, 2).identity(sub(mul(a(0), a(1)), a(1, True)))
def linear(F): return Circ(F, 3, 2, 2).identity(sub(a(0, True), a(1))).identity(sub(a(1), add(a(0), c(1))))
def publics(F):
    C = Circ(F, 3, 3, 3).public("cmP", 0, 0).public("cmP", 2, 7)
    C.identity(mul(c(0), sub(a(0), pb(0)))).identity(mul(c(1), sub(a(2), pb(1)))).identity(sub(mul(a(0), a(1)), a(2, True)))
    return C
def impublics(F):
    C = Circ(F, 3, 3, 3); k = C.e(sub(mul(a(0), a(1)), c(2)))
    C.public("imP", k, 3).public("cmP", 1, 5).public("imP", C.e(add(e(k), a(2, True))), 6)
    return C.identity(mul(c(0), sub(e(k), pb(0)))).identity(mul(c(1), sub(a(1), pb(1)))).identity(mul(a(0), sub(a(2), pb(2))))
def cmfirst(F):
    C = Circ(F, 3, 2, 2); k = C.e(mul(a(0), a(1)))
    return C.public("cmP", 1, 2).public("imP", k, 4).identity(mul(c(0), sub(a(1), pb(0)))).identity(mul(c(1), sub(e(k), pb(1))))
def quartic(F): return Circ(F, 3, 2, 3).identity(sub(mul(a(0), a(1), a(2), c(1)), a(0, True)))
def power5(F):
    C = Circ(F, 3, 2, 2); x2 = C.e(mul(a(0), a(0))); x4 = C.e(mul(e(x2), e(x2)))
    return C.identity(sub(mul(e(x4), a(0)), a(1, True)))
def shared(F):
    """One expression used in several identities, on this and on the next row."""
    C = Circ(F, 3, 2, 4); k = C.e(add(mul(a(0), a(1)), n("7"))); m = C.e(mul(e(k), a(2)))
    return C.identity(sub(e(k, True), e(m))).identity(mul(e(k), a(3))).identity(sub(e(m), add(a(3, True), c(1)))).identity(mul(e(m), e(k)))
def nested(F):
    C = Circ(F, 3, 3, 3); p = C.e(sub(a(0), a(1))); q = C.e(mul(e(p), sub(e(p), n("1")))); r = C.e(mul(e(q), e(p))); s = C.e(add(e(r), neg(mul(a(2), c(2)))))
    return C.identity(e(s)).identity(mul(e(r), e(q))).identity(sub(mul(e(p, True), a(2)), a(1)))
def numbers(F):
    C = Circ(F, 3, 1, 2)
    return C.identity(sub(mul(n("-5"), a(0)), mul(a(1), n("18446744069414584320")))).identity(sub(add(mul(n("0x10"), a(0)), n("9223372036854775808")), a(1, True))).identity(mul(neg(a(0)), neg(a(1))))
def signs(F):
    C = Circ(F, 3, 2, 4); k = C.e(sub(a(0), a(1)))
    return C.identity(sub(mul(a(0), a(1)), mul(a(2), a(3)))).identity(sub(a(3), mul(a(0), a(1)))).identity(sub(e(k), mul(a(2), c(1)))).identity(add(a(3), mul(sub(a(0), a(2)), e(k)))).identity(sub(sub(a(0), a(1)), sub(a(2), a(3))))
def lookup1(F): return Circ(F, 3, 2, 2).identity(sub(mul(a(0), a(0)), a(1))).lookup([a(0)], [c(1)])
def lookup2(F): return Circ(F, 3, 3, 4).lookup([a(0), a(1)], [c(1), c(2)]).identity(sub(mul(a(2), a(3)), a(0)))
def lookupsel(F): return Circ(F, 3, 4, 4).lookup([a(0), add(a(1), a(2))], [c(1), c(2)], a(3), c(3)).identity(mul(a(3), sub(a(3), n("1"))))
def lookupself(F): return Circ(F, 3, 2, 3).lookup([a(0)], [c(1)], a(2), None)
def lookupselt(F): return Circ(F, 3, 3, 3).lookup([a(0), a(1), a(2)], [c(1), c(2), a(2)], None, c(2))
def lookups(F): return Circ(F, 3, 3, 4).lookup([a(0)], [c(1)]).lookup([mul(a(1), a(2))], [c(2)], a(3)).identity(sub(a(0, True), a(1)))
def permut(F): return Circ(F, 3, 2, 3).permutation([a(0)], [a(1)]).identity(mul(a(2), sub(a(0), c(1))))
def permutsel(F): return Circ(F, 3, 3, 6).permutation([a(0), a(1)], [a(2), a(3)], a(4), a(5)).identity(mul(a(4), sub(a(4), n("1")))).identity(mul(a(5), sub(a(5), n("1"))))
def permuts(F): return Circ(F, 3, 2, 4).permutation([a(0)], [a(1)], a(2), None).permutation([mul(a(0), a(1)), a(2)], [a(3), c(1)], None, a(3))
def connect(F): return Circ(F, 3, 4, 3).connection([a(0), a(1), a(2)], [c(1), c(2), c(3)]).identity(sub(mul(a(0), a(1)), a(2)))
def connect2(F): return Circ(F, 3, 5, 4).connection([a(0), a(1)], [c(1), c(2)]).connection([a(2), a(3)], [c(3), c(4)])
def everything(F):
    C = Circ(F, 3, 7, 6).public("cmP", 0, 0); k = C.e(mul(a(0), a(1), a(2)))
    return (C.identity(sub(mul(e(k), a(3)), a(4, True))).lookup([a(0), a(1)], [c(1), c(2)], a(5), c(3)).lookup([a(2)], [c(1)])
        .permutation([a(3)], [a(4)]).permutation([e(k), a(1)], [a(5), a(2)], c(3), None).connection([a(0), a(1), a(2)], [c(4), c(5), c(6)]).identity(mul(c(0), sub(a(0), pb(0)))))
def imargs(F):
    """Arguments together with expressions of a degree that needs intermediate columns."""
    C = Circ(F, 3, 3, 4); k = C.e(mul(a(0), a(1), a(2)))
    return C.lookup([e(k)], [c(1)], a(3), c(2)).permutation([mul(e(k), a(3))], [a(1)]).identity(sub(mul(e(k), e(k)), a(3, True)))
CIRCUITS = [(f, x) for f in (plain, one_identity, linear, publics, quartic, power5, shared, nested, numbers, signs) for x in (1, 2)] + \
    [(f, 1) for f in (impublics, cmfirst, lookup1, lookup2, lookupsel, lookupself, lookupselt, lookups, permut, permutsel, permuts, connect, connect2, everything, imargs)] + [(everything, 2), (imargs, 3), (nested, 3), (lookupsel, 2), (connect, 2)]
REFUSED = ((quartic, 1),)  # a product of four columns written out, and room for degree three: no expression can be split off
