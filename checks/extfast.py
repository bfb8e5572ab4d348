"""Arithmetic of one-dimensional extension elements done on their field element (what C02 / C03 establish); everything else runs the code."""
from dom import *
from aeval import *
import models as M, fieldmodels as FM
F3 = "starky::f3g::F3G"
class Ext1:
    def __init__(self, I, path=F3):
        self.I, self.P, self.F = I, path, I.F["GL"]
        self.n = {F3: 3}.get(path, 5)
        self.ty = self.mk(self.F.var("probe")).ty
        def dim(v): return v.f[1]
        def one(v):
            v = M.deref(v)
            v = I.resolve(v)
            if type(v) is Agg and len(v.f) == 2 and type(v.f[0]) is Arr and v.f[1] == 1:
                x = v.f[0].f[0]
                if type(x) is FE: return x
            return None
        def bin_(op, assign):
            def h(J, a, c):
                x, y = one(a[0]), one(a[1])
                if x is None or y is None: return NotImplemented
                r = self.raw(op(x, y))
                if assign:
                    a[0].c[a[0].k] = r
                    return Agg(None, 0, [])
                return r
            return h
        for nm, op in (("Add", fadd), ("Sub", fsub), ("Mul", fmul)):
            I.hooks["<%s as core::ops::arith::%s>::%s" % (path, nm, nm.lower())] = bin_(op, False)
            I.hooks["<%s as core::ops::arith::%sAssign>::%s_assign" % (path, nm, nm.lower())] = bin_(op, True)
        def frm(J, a, c):
            x = M.deref(a[0])
            return self.raw(x) if type(x) is FE else NotImplemented
        I.hooks["<%s as core::convert::From<fields::field_gl::Fr>>::from" % path] = frm
        def exp(J, a, c):
            x = one(a[0]); e = J.resolve(a[1])
            if x is None or type(e) is not int: return NotImplemented
            return self.raw(fpow(x, e))
        I.hooks["<%s as starky::traits::FieldExtension>::exp" % path] = exp
    def mk(self, x): return self.I.invoke("<%s as core::convert::From<fields::field_gl::Fr>>::from" % self.P, [x])
    def mk3(self, l): return self.I.invoke("<%s as starky::traits::FieldExtension>::from_vec" % self.P, [Vec(list(l))])
    def raw(self, x): return Agg(self.ty, 0, [Arr([x] + [self.F.zero] * (self.n - 1)), 1])
    def el(self, v):
        """Coefficients, through the public accessor when the element is not one-dimensional."""
        v = self.I.resolve(M.deref(v))
        if type(v) is Agg and v.f[1] == 1: return [v.f[0].f[0]]
        return [FM.fe(x, I=self.I) for x in M.items(self.I.invoke("<%s as starky::traits::FieldExtension>::as_elements" % self.P, [Ref([v], 0)]))]
