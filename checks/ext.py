"""Shared by C02/C03: operations of a simple extension GF(p)[x]/(x^n - r(x)) against polynomial arithmetic."""
from dom import *
import aeval as A
from aeval import Agg, Arr, Vec, Ref, SRef
import models as M

class Ext:
    def __init__(self, I, path, n, red, F):
        self.I, self.P, self.n, self.red, self.F = I, path, n, red, F   # red: {degree: coeff} with x^n = sum coeff x^degree
    def tr(self, t, m): return "<%s as %s>::%s" % (self.P, t, m)
    def mk(self, l):
        if len(l) == 1:
            return self.I.invoke(self.tr("core::convert::From<fields::field_gl::Fr>", "from"), [l[0]])
        return self.I.invoke(self.tr("starky::traits::FieldExtension", "from_vec"), [Vec(list(l))])
    def el(self, v):
        r = self.I.invoke(self.tr("starky::traits::FieldExtension", "as_elements"), [Ref([v], 0)])
        l = [self.I.resolve(x) for x in M.items(r)]
        if len(l) == 1: l = l + [self.F.zero] * (self.n - 1)
        return l
    # reference arithmetic
    def pad(self, l): return list(l) + [self.F.zero] * (self.n - len(l))
    def rmul(self, a, b):
        n = self.n; F = self.F
        r = [F.zero] * (2 * n - 1)
        for i in range(n):
            for j in range(n): r[i + j] = fadd(r[i + j], fmul(a[i], b[j]))
        for d in range(2 * n - 2, n - 1, -1):
            c = r[d]
            for e, k in self.red.items(): r[d - n + e] = fadd(r[d - n + e], fscale(c, k))
        return r[:n]
    def norm(self, a):
        n = self.n; F = self.F
        cols = []
        for i in range(n):
            b = [F.zero] * n; b[i] = F.one
            cols.append(self.rmul(a, b))
        def det(rows, cs):
            if not rows: return F.one
            r = F.zero
            for k, c in enumerate(cs):
                x = cols[c][rows[0]]
                if not x.d: continue
                t = fmul(x, det(rows[1:], cs[:k] + cs[k + 1:]))
                r = fadd(r, t) if k % 2 == 0 else fsub(r, t)
            return r
        return det(list(range(n)), list(range(n)))
    def rpow(self, a, e):
        r = self.pad([self.F.one])
        base = a
        while e:
            if e & 1: r = self.rmul(r, base)
            e >>= 1
            if e: base = self.rmul(base, base)
        return r
    def eqv(self, got, want):
        for i, (g, w) in enumerate(zip(got, want)):
            d = fsub(g, w)
            if d.d and not reduce_inv(d): return "coefficient %d is %s, expected %s" % (i, short(g, 160), short(w, 160))
        return None

def run(ctx, path, n, red, file):
    I = ctx.interp(("GL",)); F = I.F["GL"]
    E = Ext(I, path, n, red, F)
    one = [F.one]
    xs = [F.var("x%d" % i) for i in range(n)]; ys = [F.var("y%d" % i) for i in range(n)]
    W = lambda m: "%s %s" % (file, m)
    ops = {"add": lambda a, b: [fadd(x, y) for x, y in zip(a, b)], "sub": lambda a, b: [fsub(x, y) for x, y in zip(a, b)], "mul": E.rmul}
    def inv_ok(got, a):      # got * a == 1 for a != 0
        return E.eqv(E.rmul([nz(g, [a]) for g in got], a), E.pad(one))
    def nz(e, els):
        """A zero test of (a multiple of) the norm of a non-zero element is false."""
        norms = [E.norm(x) for x in els]
        def ok(t):
            if not t.d: return False
            for N in norms:
                k = min(N.d)
                if k in t.d and same_fe(fscale(N, t.d[k] * pow(N.d[k], -1, F.p)), t): return True
            return False
        return subst_zero_tests(e, ok)
    for da in (n, 1):
        for db in (n, 1):
            a, b = xs[:da], ys[:db]
            for m, spec in ops.items():
                want = spec(E.pad(a), E.pad(b))
                def t1():
                    return E.eqv(E.el(I.invoke(E.tr("core::ops::arith::" + m.capitalize(), m), [E.mk(a), E.mk(b)])), want)
                ctx.ob(W(m), "dim %d %s dim %d" % (da, m, db), t1)
                def t2():
                    c = [E.mk(a)]
                    I.invoke(E.tr("core::ops::arith::%sAssign" % m.capitalize(), m + "_assign"), [Ref(c, 0), E.mk(b)])
                    return E.eqv(E.el(c[0]), want)
                ctx.ob(W(m + "_assign"), "dim %d %s= dim %d" % (da, m, db), t2)
                def t3():
                    c = [E.mk(a)]; d = [E.mk(b)]
                    I.invoke(E.tr("ff_ce::Field", m + "_assign"), [Ref(c, 0), Ref(d, 0)])
                    return E.eqv(E.el(c[0]), want)
                ctx.ob(W("Field::" + m + "_assign"), "dim %d, dim %d" % (da, db), t3)
            def d1():
                q = E.el(I.invoke(E.tr("core::ops::arith::Div", "div"), [E.mk(a), E.mk(b)]))
                return E.eqv(E.rmul([nz(z, [E.pad(b)]) for z in q], E.pad(b)), E.pad(a))
            ctx.ob(W("div"), "dim %d / dim %d, times the divisor, is the dividend" % (da, db), d1)
            def d2():
                c = [E.mk(a)]
                I.invoke(E.tr("core::ops::arith::DivAssign", "div_assign"), [Ref(c, 0), E.mk(b)])
                return E.eqv(E.rmul([nz(z, [E.pad(b)]) for z in E.el(c[0])], E.pad(b)), E.pad(a))
            ctx.ob(W("div_assign"), "dim %d /= dim %d" % (da, db), d2)
            def eqt():
                # equality of x with a copy / with independent y
                r = I.invoke(E.tr("starky::traits::FieldExtension", "_eq"), [Ref([E.mk(a)], 0), Ref([E.mk(b)], 0)])
                A_, B_ = E.pad(a), E.pad(b)
                w = True
                for x, y in zip(A_, B_): w = t_and(w, feq(x, y))
                return None if same_bool(r, w) else "result is %s, expected %s" % (short(r), short(w, 200))
            ctx.ob(W("_eq"), "dim %d == dim %d compares every coefficient" % (da, db), eqt)
    for da in (n, 1):
        a = xs[:da]; A_ = E.pad(a)
        ctx.ob(W("neg"), "dim %d" % da, lambda: E.eqv(E.el(I.invoke(E.tr("core::ops::arith::Neg", "neg"), [E.mk(a)])), [fneg(x) for x in A_]))
        for m, want in (("square", E.rmul(A_, A_)), ("double", [fscale(x, 2) for x in A_]), ("negate", [fneg(x) for x in A_])):
            def t():
                c = [E.mk(a)]; I.invoke(E.tr("ff_ce::Field", m), [Ref(c, 0)])
                return E.eqv(E.el(c[0]), want)
            ctx.ob(W(m), "dim %d" % da, t)
        def ti():
            r = I.unphi(I.invoke(E.tr("ff_ce::Field", "inverse"), [Ref([E.mk(a)], 0)]))
            if r.v != 1: return "no inverse for a non-zero element"
            return inv_ok(E.el(r.f[0]), A_)
        ctx.ob(W("inverse"), "dim %d: a * inverse(a) = 1" % da, ti)
        ctx.ob(W("inv"), "dim %d: a * inv(a) = 1" % da, lambda: inv_ok(E.el(I.invoke(E.tr("starky::traits::FieldExtension", "inv"), [Ref([E.mk(a)], 0)])), A_))
        for k in (0, 1, 2, 3, 5, 7, 2**31 + 3, 2**32 + 5, 2**62 + 1):
            def tm():
                r = E.el(I.invoke(E.tr("starky::traits::FieldExtension", "mul_scalar"), [Ref([E.mk(a)], 0), k]))
                return E.eqv(r, [fscale(x, k) for x in A_])
            ctx.ob(W("mul_scalar"), "dim %d times %d" % (da, k), tm)
        for k in range(0, 6 if n == 3 else 4):
            ctx.ob(W("exp"), "dim %d to the %d" % (da, k), lambda: E.eqv(E.el(I.invoke(E.tr("starky::traits::FieldExtension", "exp"), [Ref([E.mk(a)], 0), k])), E.rpow(A_, k)))
        def tz():
            r = I.invoke(E.tr("ff_ce::Field", "is_zero"), [Ref([E.mk(a)], 0)])
            w = True
            for x in A_: w = t_and(w, feq(x, F.zero))
            return None if same_bool(r, w) else "result is %s" % short(r, 200)
        ctx.ob(W("is_zero"), "dim %d" % da, tz)
    # large exponents on t*x^i and on t
    for k in (6, 7, 12, 2**16 + 1, 2**31 - 1, 2**32 - 1, 2**32, 2**63, F.p - 2, 0xAAAAAAAAAAAAAAAA & (2**64 - 1)):
        for i in range(n):
            t = F.var("t")
            a = [F.zero] * n; a[i] = t
            ctx.ob(W("exp"), "(t*x^%d)^%d" % (i, k), lambda: E.eqv(E.el(I.invoke(E.tr("starky::traits::FieldExtension", "exp"), [Ref([E.mk(a)], 0), k])), E.rpow(a, k)))
        ctx.ob(W("exp"), "t^%d in the base field" % k, lambda: E.eqv(E.el(I.invoke(E.tr("starky::traits::FieldExtension", "exp"), [Ref([E.mk([F.var("t")])], 0), k])), E.pad([fpow(F.var("t"), k)])))
    # constants
    for m, v in (("zero", F.zero), ("one", F.one)):
        ctx.ob(W(m), "Field::%s()" % m, lambda: E.eqv(E.el(I.invoke(E.tr("ff_ce::Field", m), [])), E.pad([v])))
    for c, v in (("ZERO", 0), ("ONE", 1), ("ZEROS", 0), ("ONES", 1)):
        def tc():
            k = "<%s as starky::traits::FieldExtension>::%s" % (path, c)
            t, cv = I.mir.consts[k]
            return E.eqv(E.el(I.const(cv, t)), E.pad([F.const(v)]))
        if "<%s as starky::traits::FieldExtension>::%s" % (path, c) in I.mir.consts: ctx.ob(W(c), "constant", tc)
    # integer conversions
    for ty, vals in (("u64", (0, 1, 2**32, F.p - 1)), ("u32", (0, 5, 2**32 - 1)), ("usize", (0, 7, F.p - 1)), ("u8", (0, 255)), ("u16", (0, 65535)), ("i32", (0, 1, 2**31 - 1))):
        name = E.tr("core::convert::From<%s>" % ty, "from")
        if not I.mir.find(name): continue
        for v in vals:
            ctx.ob(W("From<%s>" % ty), "of %d" % v, lambda: E.eqv(E.el(I.invoke(name, [v])), E.pad([F.const(v)])))
    # ordering: lexicographic on equal dimensions, the four relations agree
    for da in (n, 1):
        a, b = xs[:da], ys[:da]
        def og():
            call = lambda m: I.invoke(E.tr("starky::traits::FieldExtension", m), [Ref([E.mk(a)], 0), Ref([E.mk(b)], 0)])
            g = False; e = True
            for x, y in zip(a, b):
                gt = M.ordtest(I, M.order(I, x, y), lambda o: o > 0)
                g = t_or(g, t_and(e, gt)); e = t_and(e, feq(x, y))
            return g, e, call
        for m in ("gt", "geq", "lt", "leq"):
            def tt():
                g, e, call = og()
                w = {"gt": g, "geq": t_or(e, g), "lt": t_not(t_or(e, g)), "leq": t_not(g)}[m]
                try: r = call(m)
                except Undecided as ex:
                    if "recursion depth" in str(ex): return "calls itself without end"
                    raise
                return None if same_bool(r, w) else "result is %s, expected %s" % (short(r, 200), short(w, 200))
            ctx.ob(W(m), "dim %d lexicographic" % da, tt)
    # batch inversion
    for cnt in (1, 2, 3, 4):
        def tb():
            f = [i for i in I.mir.find("starky::polutils::batch_inverse") if I.types[I.fns[i]["a"][0]]["s"] == path]
            if not f: raise Undecided("batch_inverse instance")
            ex = n if cnt <= 2 and n == 3 or cnt == 1 else 1
            els = [[F.var("b%d_%d" % (i, j)) for j in range(ex)] for i in range(cnt)]
            l = [E.mk(e) for e in els]
            r = I.run(f[0], [SRef(l, 0, len(l))])
            out = [E.el(x) for x in M.items(r)]
            if len(out) != cnt: return "returns %d elements for %d" % (len(out), cnt)
            for e, o in zip(els, out):
                m = inv_ok(o, E.pad(e))
                if m: return m
        ctx.ob("starky/src/polutils.rs batch_inverse", "%d elements of %s" % (cnt, path), tb)

def same_bool(r, w):
    """Equivalence of two boolean terms by truth table over their atoms (few atoms)."""
    if isinstance(r, (int, bool)) and isinstance(w, (int, bool)): return bool(r) == bool(w)
    atoms = {}
    def coll(t):
        if isinstance(t, (bool, int)): return
        if t.op in ("and", "or", "xor", "not", "ite") and t.w == 1:
            for x in t.args: coll(x)
        else: atoms[t.id] = t
    coll(r); coll(w)
    ids = list(atoms)
    if len(ids) > 18: raise Undecided("condition with too many atoms")
    def ev(t, env):
        if isinstance(t, (bool, int)): return bool(t)
        if t.id in env: return env[t.id]
        if t.op == "not": return not ev(t.args[0], env)
        if t.op == "and": return ev(t.args[0], env) and ev(t.args[1], env)
        if t.op == "or": return ev(t.args[0], env) or ev(t.args[1], env)
        if t.op == "xor": return ev(t.args[0], env) != ev(t.args[1], env)
        if t.op == "ite": return ev(t.args[1], env) if ev(t.args[0], env) else ev(t.args[2], env)
    # impossible rows: x<y with x=y, x<y with y<x
    facts = []
    for i in ids:
        for j in ids:
            a, b = atoms[i], atoms[j]
            if a.op == "flt" and b.op == "flt" and a.args[0] is b.args[1] and a.args[1] is b.args[0]: facts.append((i, j))
            if a.op == "flt" and b.op == "flt" and i < j and same_fe(a.args[0], b.args[1]) and same_fe(a.args[1], b.args[0]): facts.append((i, j))
            if a.op == "flt" and b.op == "fzero" and feq(a.args[0], a.args[1]) is b: facts.append((i, j))
    compl = []   # exactly one of lt, gt, eq
    for n in range(1 << len(ids)):
        env = {x: bool(n >> k & 1) for k, x in enumerate(ids)}
        if any(env[i] and env[j] for i, j in facts): continue
        if tri(atoms, env): continue
        if ev(r, env) != ev(w, env): return False
    return True
def same_fe(a, b): return a.F is b.F and a.d == b.d
def tri(atoms, env):
    """Row excluded because none of x<y, y<x, x=y holds."""
    for i, a in atoms.items():
        if a.op != "flt" or env[i]: continue
        e = feq(a.args[0], a.args[1])
        if not (isinstance(e, Term) and e.id in env and not env[e.id]): continue
        for j, b in atoms.items():
            if b.op == "flt" and same_fe(a.args[0], b.args[1]) and same_fe(a.args[1], b.args[0]) and not env[j]: return True
    return False
