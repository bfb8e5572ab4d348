"""The cubic extension as one abstract field: an F3G value is a polynomial over atoms of the base field and of the extension
(C02 establishes that the operators are those of the field), so that verifier and prover code is read as algebra over it."""
from dom import *
import aeval as A, models as M, fieldmodels as FM
from aeval import Agg, Arr, Vec, Ref, unit
PATH = "starky::f3g::F3G"
FM.SPECS["E3"] = (FM.GL_P, 1, 64, PATH)

class E3(FM.FieldModels):
    """Shares the atom and monomial tables of the base field."""
    def __init__(self, I, F):
        super().__init__(I, F)
        gl = I.F["GL"] if hasattr(I, "F") and I.F else F.base
        self.gl = gl
        F.monos, F.mtab, F.mm, F.atoms = gl.monos, gl.mtab, gl.mm, gl.atoms
        F.X = self.ext("X")
        F.const_of = self.const
        self.comp = {}
    # -- atoms
    def ext(self, name): return self.F.atom(T("ext", name, w=192))
    def is_ext(self, t, memo={}):
        r = memo.get(t.id)
        if r is None:
            if t.op == "ext": r = True
            elif t.op in ("co", "var", "ofint", "canon"): r = False
            elif t.op in ("inv", "poly"): r = any(self.is_ext(self.F.atoms[a]) for m in t.args[0].d for a, _ in self.F.monos[m])
            else: r = False
            memo[t.id] = r
        return r
    def base_only(self, e): return not any(self.is_ext(self.F.atoms[a]) for m in e.d for a, _ in self.F.monos[m])
    def const(self, I, v):
        l = [x for x in self.flat(v)]
        c = [I.field_const(self.gl, x) for x in l[:3]]
        return self.vec([FE(self.F, x.d) for x in c])
    def flat(self, v):
        while isinstance(v, dict): v = v.get("agg") or v.get("arr")
        c = v[0]
        while isinstance(c, dict): c = c.get("agg") or c.get("arr")
        return c
    # -- coordinates
    def coords(self, e):
        """Three polynomials over base atoms."""
        F, gl = self.F, self.gl
        out = [gl.zero] * 3
        xt = next(iter(F.monos[next(iter(F.X.d))]))[0]
        for m, k in e.d.items():
            b = []; x = []; px = 0
            for a, n in F.monos[m]:
                if a == xt: px = n
                elif self.is_ext(F.atoms[a]): x.append((a, n))
                else: b.append((a, n))
            B = FE(gl, {F.intern(tuple(b)): k})
            if not x:
                v = self.xpow(px)
                for i in range(3):
                    if v[i]: out[i] = fadd(out[i], fscale(B, v[i]))
            else:
                if px: x.append((xt, px))
                mono = FE(F, {F.intern(tuple(sorted(x))): 1})
                for i in range(3): out[i] = fadd(out[i], fmul(B, gl.atom(T("co", mono, i, w=64))))
        return out
    def xpow(self, n):
        v = [1, 0, 0]; p = self.F.p
        for _ in range(n): v = [v[2], (v[0] + v[2]) % p, v[1]]
        return v
    def vec(self, c):
        """c0 + c1 X + c2 X^2, with the coordinates of one element put together again."""
        F = self.F
        c = [dict(x.d) for x in c]; out = F.zero
        for m in list(c[0]):
            for a, n in F.monos[m]:
                t = F.atoms[a]
                if t.op == "co" and t.args[1] == 0 and n == 1:
                    rest = tuple(z for z in F.monos[m] if z[0] != a)
                    mate = []
                    for i in (1, 2):
                        ti = T("co", t.args[0], i, w=64); F.atoms[ti.id] = ti
                        mate.append(F.intern(tuple(sorted(rest + ((ti.id, 1),)))))
                    if c[1].get(mate[0]) == c[0][m] and c[2].get(mate[1]) == c[0][m]:
                        out = fadd(out, fmul(FE(F, {F.intern(rest): c[0][m]}), FE(F, t.args[0].d)))
                        del c[0][m], c[1][mate[0]], c[2][mate[1]]
                    break
        X = F.X
        return fadd(fadd(out, FE(F, c[0])), fadd(fmul(FE(F, c[1]), X), fmul(FE(F, c[2]), fmul(X, X))))
    def build(self, I, ops): return self.vec([self.emb(FM.fe(x, I=I)) for x in M.items(ops[0])])
    def part(self, I, v, i):
        if i == 1: return 1 if self.base_only(v) else 3
        return Arr(self.coords(v))
    def emb(self, x): return FE(self.F, x.d)
    # -- methods
    def f_from_vec(self, I, a, c):
        l = [FM.fe(x, I=I) for x in M.items(a[0])]
        if len(l) != 3: raise Undecided("from_vec of %d" % len(l))
        return self.vec([self.emb(x) for x in l])
    def f_new(self, I, a, c): return self.vec([self.emb(FM.fe(x, I=I)) for x in a[:3]])
    def f_as_elements(self, I, a, c):
        e = FM.fe(a[0], I=I)
        if self.base_only(e): return Vec([FE(self.gl, e.d)])
        return Vec(self.coords(e))
    def f_dim(self, I, a, c): return 1 if self.base_only(FM.fe(a[0], I=I)) else 3
    def f_to_be(self, I, a, c):
        e = FM.fe(a[0], I=I)
        if not self.base_only(e): raise Panic("to_be of an extension element")
        return FE(self.gl, e.d)
    def f_mul_scalar(self, I, a, c): return fscale(FM.fe(a[0], I=I), M.conc(I, a[1]))
    def f__eq(self, I, a, c): return feq(FM.fe(a[0], I=I), FM.fe(a[1], I=I))
    def f_inv(self, I, a, c): return finv(FM.fe(a[0], I=I))
    def f_inverse(self, I, a, c): return M.some(finv(FM.fe(a[0], I=I)))
    def f_div_assign(self, I, a, c):
        a[0].set(fmul(FM.fe(a[0], I=I), finv(FM.fe(a[1], I=I)))); return unit()
    def f_from(self, I, a, c):
        v = a[0]
        while type(v) is Ref: v = v.c[v.k]
        v = I.unphi(v) if not isinstance(v, (int, FE)) else v
        if isinstance(v, FE): return self.emb(v)
        v = I.resolve(v)
        if isinstance(v, int):
            if v < 0 or v >= self.F.p: raise Panic("value not in field")
            return self.F.const(v)
        return NotImplemented
    def f_exp(self, I, a, c):
        n = I.resolve(a[1])
        if not isinstance(n, int): raise Undecided("abstract exponent")
        return fpow(FM.fe(a[0], I=I), n)
    def f_fmt(self, I, a, c): return M.ok(unit())
    def f_as_bytes(self, I, a, c): raise Undecided("bytes of an extension element")
    f_elements_as_bytes = f_as_bytes

def install(I):
    """Turns F3G into an abstract field of the interpreter I (which must know GL)."""
    gl = I.F["GL"]
    n = "E3"; p, l, nb, path = FM.SPECS[n]
    F = Field(n, p, l, nb, path); F.mode = gl.mode; F.base = gl
    I.F[n] = F
    m = E3(I, F); F.m = m
    I.fieldty[path] = F
    I.prefix.append(("starky::traits::FieldExtension::", lambda J, a, c: m.method(J, a, c) if c.get("a") and J.types[c["a"][0]]["s"] == path else NotImplemented))
    # constants live in the shared tables
    F.zero = FE(F, {}); F.one = FE(F, {0: 1})
    return m
