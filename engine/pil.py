"""Polynomial identity language: declarations and identities as polynomials over cells (the subset the generated circuits use)."""
import re
from dom import *
class PilError(Exception): pass
TOK = re.compile(r"\s*(?:(//[^\n]*)|(/\*.*?\*/)|(\d+)|([A-Za-z_%][A-Za-z_0-9]*)|(\*\*|[-+*(){}\[\],;=:'.]))", re.S)
def tokens(s):
    out = []; i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise PilError("unexpected text %r" % s[i:i + 20])
        i = m.end()
        if m.group(3): out.append(int(m.group(3)))
        elif m.group(4) or m.group(5): out.append(m.group(4) or m.group(5))
    return out
class Pil:
    """decls: qualified name -> (kind, length or None, degree); ids; publics: name -> (pol, index, row); ids: list of polynomials; connects"""
    def __init__(self, text, F):
        self.F = F; self.t = tokens(text); self.i = 0; self.ns = None; self.consts = {}; self.deg = None
        self.decl = {}; self.pols = {}; self.publics = {}; self.identities = []; self.connects = []; self.n = {"constant": 0, "commit": 0}
        while self.i < len(self.t): self.stmt()
    def pk(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def nx(self): self.i += 1; return self.t[self.i - 1]
    def ex(self, x):
        if self.pk() != x: raise PilError("expected %r, found %r" % (x, self.t[max(0, self.i - 5):self.i + 3]))
        self.i += 1
    def stmt(self):
        k = self.pk()
        if k == "let" or k == "constant":
            self.nx(); n = self.nx()
            if self.pk() == ":": self.nx(); self.nx()
            self.ex("="); self.consts[n] = self.num(self.expr()); self.ex(";"); return
        if k == "namespace":
            self.nx(); self.ns = self.nx(); self.ex("("); self.deg = self.num(self.expr()); self.ex(")"); self.ex(";"); return
        if k == "pol":
            self.nx()
            if self.pk() in ("constant", "commit"):
                kind = self.nx()
                while True:
                    n = self.nx(); ln = None
                    if self.pk() == "[": self.nx(); ln = self.num(self.expr()); self.ex("]")
                    q = self.ns + "." + n
                    if q in self.decl or q in self.pols: raise PilError("%s is declared twice" % q)
                    self.decl[q] = (kind, self.n[kind], ln, self.deg); self.n[kind] += 1 if ln is None else ln
                    if self.pk() != ",": break
                    self.nx()
                self.ex(";"); return
            n = self.nx(); self.ex("="); e = self.expr(); self.ex(";")
            q = self.ns + "." + n
            if q in self.decl or q in self.pols: raise PilError("%s is declared twice" % q)
            self.pols[q] = e; return
        if k == "public":
            self.nx(); n = self.nx(); self.ex("="); p = self.nx()
            ix = None
            if self.pk() == "[": self.nx(); ix = self.num(self.expr()); self.ex("]")
            self.ex("("); r = self.num(self.expr()); self.ex(")"); self.ex(";")
            if n in self.publics: raise PilError("public %s is declared twice" % n)
            self.publics[n] = (self.ns + "." + p, ix, r); return
        if k in ("[", "{"):
            close = {"[": "]", "{": "}"}[k]
            def lst():
                o = self.nx(); r = []
                while self.pk() != close:
                    r.append(self.expr())
                    if self.pk() == ",": self.nx()
                self.ex(close); return r
            a = lst(); how = self.nx(); b = lst(); self.ex(";")
            self.connects.append((how, a, b)); return
        a = self.expr(); self.ex("="); b = self.expr(); self.ex(";")
        self.identities.append(fsub(a, b))
    def num(self, e):
        if not e.is_const(): raise PilError("number expected")
        return e.cval()
    def expr(self):
        e = self.term()
        while self.pk() in ("+", "-"):
            o = self.nx(); f = self.term(); e = fadd(e, f) if o == "+" else fsub(e, f)
        return e
    def term(self):
        e = self.power()
        while self.pk() == "*":
            self.nx(); e = fmul(e, self.power())
        return e
    def power(self):
        e = self.unary()
        if self.pk() == "**":
            self.nx(); n = self.num(self.unary()); r = self.F.one
            for _ in range(n): r = fmul(r, e)
            return r
        return e
    def unary(self):
        k = self.pk()
        if k == "-": self.nx(); return fneg(self.unary())
        if k == "(":
            self.nx(); e = self.expr(); self.ex(")"); return e
        if isinstance(k, int): self.nx(); return self.F.const(k)
        if k == ":": self.nx(); n = self.nx(); return self.F.var(":" + n)
        if not isinstance(k, str) or not re.match("[A-Za-z_%]", k): raise PilError("unexpected %r" % k)
        n = self.nx()
        if n in self.consts: return self.F.const(self.consts[n])
        if self.pk() == ".": self.nx(); q = n + "." + self.nx()
        else: q = self.ns + "." + n
        if q in self.pols:
            e = self.pols[q]
            if self.pk() == "'": self.nx(); e = prime(self.F, e)
            return e
        if q not in self.decl: raise PilError("unknown %s" % q)
        kind, i0, ln, _ = self.decl[q]; ix = 0
        if self.pk() == "[":
            self.nx(); ix = self.num(self.expr()); self.ex("]")
            if ln is None or ix >= ln: raise PilError("%s[%d] is out of range" % (q, ix))
        elif ln is not None: raise PilError("%s without an index" % q)
        s = ("c%d" if kind == "constant" else "a%d") % (i0 + ix)
        if self.pk() == "'": self.nx(); s += "'"
        return self.F.var(s)
    def doc(self):
        from serdemodels import Obj, Str
        kt = {"constant": "constP", "commit": "cmP"}
        refs = Obj([(q, Obj([("type", Str(kt[k])), ("id", i), ("polDeg", d), ("isArray", ln is not None)] + ([("len", ln)] if ln is not None else []))) for q, (k, i, ln, d) in sorted(self.decl.items())])
        return Obj([("nCommitments", self.n["commit"]), ("nQ", 0), ("nIm", 0), ("nConstants", self.n["constant"]), ("publics", []), ("references", refs), ("expressions", []), ("polIdentities", []), ("plookupIdentities", []), ("permutationIdentities", None), ("connectionIdentities", None)])
def subst(F, e, f):
    """e with every variable v replaced by f(name)"""
    r = F.zero; memo = {}
    for m, c in e.d.items():
        t = F.const(c)
        for v, k in F.monos[m]:
            n = F.atoms[v].args[1]
            if n not in memo: memo[n] = f(n)
            for _ in range(k): t = fmul(t, memo[n])
        r = fadd(r, t)
    return r
def prime(F, e): 
    def p(n):
        if n.endswith("'"): raise PilError("double shift")
        return F.var(n if n.startswith(":") else n + "'")
    return subst(F, e, p)
def names(e):
    """the variables e depends on"""
    return {e.F.atoms[v].args[1] for m in e.d for v, k in e.F.monos[m]}
def prop(x, y):
    """x = k*y for a non-zero constant k"""
    if len(x.d) != len(y.d) or x.d.keys() != y.d.keys(): return False
    if not x.d: return True
    m = next(iter(x.d)); a, b = x.d[m], y.d[m]; p = x.F.p
    return all((x.d[k] * b - y.d[k] * a) % p == 0 for k in x.d)
def pkey(x):
    """equal exactly for proportional polynomials"""
    if not x.d: return frozenset()
    m = max(x.d); i = pow(x.d[m], -1, x.F.p)
    return frozenset((k, c * i % x.F.p) for k, c in x.d.items())
