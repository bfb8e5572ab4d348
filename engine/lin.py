"""Exact integer domain: machine words as integer polynomials over bounded atoms, with an interval and path facts.

A wrapped sum is E - 2^w*H where H is the (memoised) high part of E; a comparison is the sign of a polynomial; a value
joined under a condition is B + ind(c)*(A - B).  Intervals are tightened with the facts of the path condition."""
import aeval as A
from aeval import *
from dom import *

class Lin:
    __slots__ = ("p", "lo", "hi")
    sym_int = True
    def __init__(self, p, lo, hi): self.p, self.lo, self.hi = p, lo, hi
    def __repr__(self): return "Lin(%d terms,[%d,%d])" % (len(self.p), self.lo, self.hi)
    def __deepcopy__(self, m): return self

class PW:
    """Machine word: exclusive-or of the representations of x^i, i in the set."""
    __slots__ = ("s",)
    sym_int = True
    def __init__(self, s): self.s = frozenset(s)
    def __repr__(self): return "PW%s" % sorted(self.s)
    def __deepcopy__(self, m): return self

def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        x = d.get(m, 0) + k * c
        if x: d[m] = x
        else: d.pop(m, None)
    return d
def pmul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            k = tuple(sorted(m + n))
            x = d.get(k, 0) + c * e
            if x: d[k] = x
            else: d.pop(k, None)
    return d
def key(p): return tuple(sorted(p.items()))

class LinInterp(A.Interp):
    def __init__(self, mir):
        super().__init__(mir, [])
        self.names = []; self.rng = []; self.defs = []; self.highs = {}; self.gfacts = []; self.inds = {}; self.polys = {}; self._cases = {}
        A.LIN = self
    # atoms
    def atom(self, name, lo, hi):
        self.names.append(name); self.rng.append((lo, hi)); self.defs.append(("var",))
        return {(len(self.names) - 1,): 1}
    def var(self, name, lo, hi): return Lin(self.atom(name, lo, hi), lo, hi)
    def lift(self, v):
        if isinstance(v, Lin): return v
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return Lin({(): v} if v else {}, v, v)
        if isinstance(v, Term) and v.w == 1:
            return Lin(self.ind(v), 0, 1)
        if isinstance(v, Phi):
            return self.ite(v.c, self.lift(v.a), self.lift(v.b))
        raise Undecided("integer value %s" % short(v))
    def low(self, v):
        v2 = v
        if v.lo == v.hi: return v.lo
        return v
    # intervals
    def prange(self, p, over=None):
        lo = hi = 0
        for m, c in p.items():
            l, h = 1, 1
            for a in m:
                x, y = over.get(a) or self.rng[a] if over else self.rng[a]
                q = (l * x, l * y, h * x, h * y); l, h = min(q), max(q)
            if c < 0: l, h = h, l
            lo += c * l; hi += c * h
        return lo, hi
    def with_facts(self, p, facts):
        over = {}
        for D, dl, dh in facts:
            if len(D) > 2: continue
            ms = [m for m in D if m]
            if len(ms) == 1 and len(ms[0]) == 1:
                a = ms[0][0]; c = D[ms[0]]; b = D.get((), 0)
                lo, hi = over.get(a) or self.rng[a]
                l = None if dl is None else dl - b; h = None if dh is None else dh - b
                if c < 0: c, l, h = -c, None if h is None else -h, None if l is None else -l
                if l is not None: lo = max(lo, -(-l // c))
                if h is not None: hi = min(hi, h // c)
                if lo <= hi: over[a] = (lo, hi)
        lo, hi = self.prange(p, over)
        for D, dl, dh in facts:
            if not any(m in D for m in p if m): continue
            for k in (1, -1):
                r = padd(p, D, -k)
                a, b = self.prange(r, over)
                l, h = (dl, dh) if k == 1 else (None if dh is None else -dh, None if dl is None else -dl)
                if l is not None: lo = max(lo, a + l)
                if h is not None: hi = min(hi, b + h)
        # two facts
        return lo, hi
    def factsof(self, t, val):
        op = t.op
        if op == "neg": return [(self.polys[t.id], None, -1)] if val else [(self.polys[t.id], 0, None)]
        if op == "zero": return [(self.polys[t.id], 0, 0)] if val else []
        return []
    def atoms_of(self, t, out):
        if isinstance(t, bool): return
        if t.op in ("neg", "zero"): out[t.id] = t
        elif t.op in ("and", "or", "not", "xor", "ite"):
            for a in t.args: self.atoms_of(a, out)
    def ev(self, t, asg):
        if isinstance(t, bool): return t
        if t.id in asg: return asg[t.id]
        if t.op == "not":
            r = self.ev(t.args[0], asg); return None if r is None else not r
        if t.op == "and":
            a, b = (self.ev(x, asg) for x in t.args)
            return False if a is False or b is False else True if a and b else None
        if t.op == "or":
            a, b = (self.ev(x, asg) for x in t.args)
            return True if a or b else False if a is False and b is False else None
        if t.op == "xor":
            a, b = (self.ev(x, asg) for x in t.args)
            return None if a is None or b is None else a != b
        if t.op == "ite":
            c = self.ev(t.args[0], asg)
            if c is None: return None
            return self.ev(t.args[1 if c else 2], asg)
        return None
    def cases(self, extra=()):
        """Feasible assignments of the sign atoms under the path condition, as fact lists."""
        conds = [(TERMS[i], v) for i, v in self.pc.items()] + list(extra)
        k = frozenset((t.id, v) for t, v in conds) if all(isinstance(t, Term) for t, v in conds) else None
        ck = (k, len(self.gfacts))
        if ck in self._cases: return self._cases[ck]
        ats = {}
        for t, _ in conds: self.atoms_of(t, ats)
        ats = sorted(ats.values(), key=lambda t: t.op)
        if len(ats) > 10: ats = ats[-10:]
        out = []
        def rec(i, asg, facts):
            for t, v in conds:
                r = self.ev(t, asg)
                if r is not None and r != v: return
            if i == len(ats):
                out.append((facts, dict(asg))); return
            for val in (True, False):
                f = self.factsof(ats[i], val)
                if f:
                    lo, hi = self.with_facts(self.polys[ats[i].id], facts + self.gfacts)
                    D, dl, dh = f[0]
                    if dl is not None and hi < dl or dh is not None and lo > dh: continue
                elif ats[i].op == "zero":
                    lo, hi = self.with_facts(self.polys[ats[i].id], facts + self.gfacts)
                    if lo == hi == 0: continue
                    # a non-zero value next to zero
                    P = self.polys[ats[i].id]
                    if lo == 0: f = [(P, 1, None)]
                    elif hi == 0: f = [(P, None, -1)]
                asg[ats[i].id] = val
                rec(i + 1, asg, facts + f)
                del asg[ats[i].id]
        rec(0, {}, [])
        self._cases[ck] = out
        return out
    def tight(self, v, extra=()):
        if isinstance(v, dict): p = v; lo, hi = self.prange(p)
        else: p = v.p; lo, hi = v.lo, v.hi
        cs = self.cases(extra)
        if not cs: return lo, hi
        L = H = None
        for facts, _ in cs:
            a, b = self.with_facts(p, facts + self.gfacts)
            if a > b: continue
            L = a if L is None else min(L, a); H = b if H is None else max(H, b)
        if L is None: return lo, hi
        return max(lo, L), min(hi, H)
    def mk(self, p, lo=None, hi=None):
        l, h = self.prange(p)
        if lo is not None: l = max(l, lo)
        if hi is not None: h = min(h, hi)
        v = Lin(p, l, h)
        v.lo, v.hi = self.tight(v)
        if len(p) == 0: return 0
        if len(p) == 1 and () in p: return p[()]
        return v
    # conditions
    def neg(self, p, lo=None, hi=None):
        l, h = self.tight(p)
        if lo is not None: l = max(l, lo)
        if hi is not None: h = min(h, hi)
        if h < 0: return True
        if l >= 0: return False
        t = T("neg", key(p)); self.polys[t.id] = p
        TERMS[t.id] = t
        return t
    def zero(self, p, lo=None, hi=None):
        l, h = self.tight(p)
        if lo is not None: l = max(l, lo)
        if hi is not None: h = min(h, hi)
        if l == h == 0: return True
        if l > 0 or h < 0: return False
        k = key(p); k2 = key({m: -c for m, c in p.items()})
        if k2 < k: p = {m: -c for m, c in p.items()}; k = k2
        t = T("zero", k); self.polys[t.id] = p
        TERMS[t.id] = t
        return t
    def cond_known(self, c):
        r = super().cond_known(c)
        if r is not None or isinstance(c, bool): return r
        ats = {}; self.atoms_of(c, ats)
        if not ats: return None
        seen = set()
        for facts, asg in self.cases():
            for t in ats.values():
                if t.id in asg: continue
                lo, hi = self.with_facts(self.polys[t.id], facts + self.gfacts)
                if t.op == "neg":
                    if hi < 0: asg = {**asg, t.id: True}
                    elif lo >= 0: asg = {**asg, t.id: False}
                else:
                    if lo == hi == 0: asg = {**asg, t.id: True}
                    elif lo > 0 or hi < 0: asg = {**asg, t.id: False}
            seen.add(self.ev(c, asg))
            if None in seen or len(seen) > 1: return None
        return seen.pop() if len(seen) == 1 else None
    def set_pc(self, c, val):
        if isinstance(c, Term): TERMS[c.id] = c
        super().set_pc(c, val)
    def canon(self, c):
        """A compound condition equal to one of its sign atoms (or its negation) wherever the path is feasible."""
        if not isinstance(c, Term) or c.op in ("neg", "zero"): return c
        ats = {}; self.atoms_of(c, ats)
        if not ats or len(ats) > 6: return c
        for t in list(ats.values()):
            p = self.polys[t.id]; n = {m: -k for m, k in p.items()}
            for e in (T("neg", key(p)), T("neg", key(n))):
                if e.id not in ats: self.polys[e.id] = p if e.args[0] == key(p) else n; TERMS[e.id] = e; ats[e.id] = e
        fs = self.feasible(ats)
        rows = [(asg, self.ev(c, asg)) for asg in fs]
        if not rows or any(r is None for _, r in rows): return c
        for t in ats.values():
            if all(asg[t.id] == r for asg, r in rows): return t
            if all(asg[t.id] != r for asg, r in rows): return t_not(t)
        return c
    def feasible(self, ats):
        ats = sorted(ats.values(), key=lambda t: t.op); out = []
        for base, asg0 in self.cases():
            def rec(i, asg, facts):
                if i == len(ats): out.append(dict(asg)); return
                t = ats[i]
                if t.id in asg: return rec(i + 1, asg, facts)
                p = self.polys[t.id]
                lo, hi = self.with_facts(p, facts + self.gfacts)
                for val in (True, False):
                    if t.op == "neg":
                        if val and lo >= 0 or not val and hi < 0: continue
                    else:
                        if val and (lo > 0 or hi < 0) or not val and lo == hi == 0: continue
                    f = self.factsof(t, val)
                    if not f and lo == 0: f = [(p, 1, None)]
                    elif not f and hi == 0: f = [(p, None, -1)]
                    asg[t.id] = val
                    rec(i + 1, asg, facts + f)
                    del asg[t.id]
            rec(0, dict(asg0), base)
        return out
    def ind(self, c):
        c = self.canon(c)
        if c.op == "not": return padd({(): 1}, self.ind(c.args[0]), -1)
        if c.op in ("neg", "zero"):
            p = self.polys[c.id]
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and self.rng[ms[0][0]] == (0, 1):
                k = p[ms[0]]; b = p.get((), 0)
                f = (lambda x: x < 0) if c.op == "neg" else (lambda x: x == 0)
                v0, v1 = f(b), f(b + k)
                h = {ms[0]: 1}
                if v1 and not v0: return h
                if v0 and not v1: return padd({(): 1}, h, -1)
        r = self.inds.get(c.id)
        if r is None:
            r = self.inds[c.id] = self.atom("[%s]" % short(c, 40), 0, 1)
            self.defs[-1] = ("ind", c)
        return r
    # the exact value of a normal form at given operands (used to confirm an alarm with a witness)
    def value(self, p, env):
        t = 0
        for m, c in p.items():
            for a in m:
                c *= self.avalue(a, env)
                if not c: break
            t += c
        return t
    def avalue(self, a, env):
        v = env.get(a)
        if v is None:
            d = self.defs[a]
            if d[0] == "hi": v = self.value(d[1], env) >> d[2]
            elif d[0] == "ind": v = int(self.cvalue(d[1], env))
            else: raise Undecided("free operand")
            env[a] = v
        return v
    def cvalue(self, c, env):
        if isinstance(c, bool): return c
        ats = {}; self.atoms_of(c, ats)
        r = self.ev(c, {t.id: (self.value(self.polys[t.id], env) < 0 if t.op == "neg" else self.value(self.polys[t.id], env) == 0) for t in ats.values()})
        if r is None: raise Undecided("condition")
        return r
    def variables(self, p, out=None, seen=None):
        if out is None: out = set(); seen = set()
        for m in p:
            for a in m:
                if a in seen: continue
                seen.add(a); d = self.defs[a]
                if d[0] == "var": out.add(a)
                elif d[0] == "hi": self.variables(d[1], out, seen)
                else:
                    ats = {}; self.atoms_of(d[1], ats)
                    for t in ats.values(): self.variables(self.polys[t.id], out, seen)
        return out
    MOD = None
    def ite(self, c, a, b):
        a, b = self.lift(a), self.lift(b)
        c = self.canon(c)
        la, ha = self.tight(a, ((c, True),)); lb, hb = self.tight(b, ((c, False),))
        if not self.cases(((c, True),)): return self.low(b)
        if not self.cases(((c, False),)): return self.low(a)
        P = self.MOD
        pa, pb = a.p, b.p
        if P:
            def cong(x): return all(k % P == 0 for k in x.values())
            if not cong(padd(pa, pb, -1)):
                done = False
                for val, first in ((True, True), (False, False)):
                    cs = self.cases(((c, val),))
                    if len(cs) != 1: continue
                    for D, dl, dh in cs[0][0]:
                        if dl == dh == 0 or dl is not None and dh is not None and dl == dh:
                            D = padd(D, {(): dl}, -1)
                            for k in (1, -1, 2, -2):
                                if val and cong(padd(padd(pa, D, k), pb, -1)): pa = padd(pa, D, k); done = True; break
                                if not val and cong(padd(padd(pb, D, k), pa, -1)): pb = padd(pb, D, k); done = True; break
                        if done: break
                    if done: break
        diff = padd(pa, pb, -1)
        p = padd(pb, pmul(self.ind(c), diff)) if diff else pb
        if not p: return 0
        if len(p) == 1 and () in p: return p[()]
        return Lin(p, min(la, lb), max(ha, hb))
    # arithmetic
    def high(self, p, n, hi=None):
        """floor(E / 2^n) of a non-negative polynomial E (value interval known to the caller)."""
        g = 0
        while n and all(c % 2 == 0 for c in p.values()): p = {m: c // 2 for m, c in p.items()}; n -= 1; g += 1
        if n == 0: return p
        # multiples of 2^n leave the remainder alone
        q = {m: c >> n for m, c in p.items()}; q = {m: c for m, c in q.items() if c}
        k = (key(p), n)
        r = self.highs.get(k)
        lo, h = self.tight(p)
        if hi is not None: h = min(h, hi >> g)
        lo = max(lo, 0)
        if lo >> n == h >> n: return {(): lo >> n} if lo >> n else {}
        if r is None:
            if self.pc: lo, h = self.prange(p)      # the atom outlives this path
            r = self.atom("hi%d" % len(self.highs), lo >> n, h >> n)
            self.highs[k] = r; self.defs[-1] = ("hi", p, n)
            self.gfacts.append((padd(p, r, -(1 << n)), 0, (1 << n) - 1))
        return r
    def wrap(self, p, w, lo, hi):
        if 0 <= lo and hi < (1 << w): return self.mk(p, lo, hi)
        if all(c % (1 << w) == 0 for c in p.values()): return 0
        if lo < 0:
            if lo < -(1 << w) or hi >= (1 << w): raise Undecided("wrapped difference")
            c = self.neg(p, lo, hi)
            if c is True: return self.mk(padd(p, {(): 1 << w}), lo + (1 << w), min(hi, -1) + (1 << w))
            if c is False: return self.mk(p, 0, hi)
            return self.mk(padd(p, self.ind(c), 1 << w), 0, (1 << w) - 1)
        h = self.high(p, w, hi)
        if not h or () in h and len(h) == 1:
            k = h.get((), 0) << w
            return self.mk(padd(p, {(): k}, -1) if k else p, max(0, lo - k), min((1 << w) - 1, hi - k))
        return self.mk(padd(p, h, -(1 << w)), 0, (1 << w) - 1)
    def binop(self, op, x, y, w, sg):
        if isinstance(x, Phi): x = self.resolve(x)
        if isinstance(y, Phi): y = self.resolve(y)
        if isinstance(x, PW) or isinstance(y, PW): return self.pword(op, x, y, w)
        if not isinstance(x, Lin) and not isinstance(y, Lin): return super().binop(op, x, y, w, sg)
        if op.endswith("Unchecked"): op = op[:-9]
        if sg: raise Undecided("signed operator")
        a, b = self.lift(x), self.lift(y)
        if op in ("Add", "AddWithOverflow", "Mul", "MulWithOverflow"):
            if op[0] == "A": p = padd(a.p, b.p); lo, hi = a.lo + b.lo, a.hi + b.hi
            else: p = pmul(a.p, b.p); lo, hi = a.lo * b.lo, a.hi * b.hi
            l, h = self.tight(p); lo, hi = max(lo, l), min(hi, h)
            r = self.wrap(p, w, lo, hi)
            if op.endswith("Overflow"):
                q = padd({(): (1 << w) - 1}, p, -1)
                return Agg(None, 0, [r, self.neg(q, (1 << w) - 1 - hi, (1 << w) - 1 - lo)])
            return r
        if op in ("Sub", "SubWithOverflow"):
            p = padd(a.p, b.p, -1); lo, hi = a.lo - b.hi, a.hi - b.lo
            l, h = self.tight(p); lo, hi = max(lo, l), min(hi, h)
            r = self.wrap(p, w, lo, hi)
            if op.endswith("Overflow"): return Agg(None, 0, [r, self.neg(p, lo, hi)])
            return r
        if op in ("Lt", "Ge"):
            c = self.neg(padd(a.p, b.p, -1), a.lo - b.hi, a.hi - b.lo)
            return c if op == "Lt" else t_not(c)
        if op in ("Gt", "Le"):
            c = self.neg(padd(b.p, a.p, -1), b.lo - a.hi, b.hi - a.lo)
            return c if op == "Gt" else t_not(c)
        if op in ("Eq", "Ne"):
            c = self.zero(padd(a.p, b.p, -1), a.lo - b.hi, a.hi - b.lo)
            return c if op == "Eq" else t_not(c)
        if op == "Cmp":
            return A.ite(self.binop("Lt", x, y, w, sg), Agg(None, 0, []), A.ite(self.binop("Eq", x, y, w, sg), Agg(None, 1, []), Agg(None, 2, [])))
        if op == "Shl" and isinstance(y, int):
            return self.wrap({m: c << y for m, c in a.p.items()}, w, a.lo << y, a.hi << y)
        if op == "Shr" and isinstance(y, int):
            if a.hi >> y == 0: return 0
            h = self.high(a.p, y, a.hi)
            return self.mk(h, a.lo >> y, a.hi >> y)
        if op in ("BitAnd", "BitOr", "BitXor"):
            for p, q in ((x, y), (y, x)):
                if isinstance(q, int):
                    if q == 0: return 0 if op == "BitAnd" else p
                    if op == "BitAnd":
                        n = q.bit_length()
                        P = self.lift(p)
                        if q == (1 << n) - 1:
                            if P.hi <= q: return p
                            return self.wrap(P.p, n, P.lo, P.hi)
            if op == "BitOr":
                # disjoint ranges of bits: (multiple of 2^n) | (below 2^n)
                for p, q in ((a, b), (b, a)):
                    n = q.hi.bit_length()
                    if all(c % (1 << n) == 0 for c in p.p.values()): return self.wrap(padd(a.p, b.p), w, a.lo + b.lo, a.hi + b.hi)
        raise Undecided("operator %s on %r, %r" % (op, a, b))
    def pword(self, op, x, y, w):
        if op == "BitXor":
            x, y = (frozenset() if v == 0 and isinstance(v, int) else v.s if isinstance(v, PW) else None for v in (x, y))
            if x is not None and y is not None: s = x ^ y; return PW(s) if s else 0
        for p, q in ((x, y), (y, x)):
            if isinstance(q, int):
                full = (1 << w) - 1
                if op in ("BitAnd", "Mul") and q == 0: return 0
                if op == "BitAnd" and q == full: return p
                if op in ("BitOr", "Add") and q == 0: return p
                if op == "Mul" and q == 1: return p
        if op in ("BitOr", "Add") and isinstance(x, PW) and isinstance(y, PW) and False: pass
        raise Undecided("operator %s on %r, %r" % (op, x, y))
    def cast(self, kind, v, to, fr):
        if isinstance(v, Phi): v = self.resolve(v)
        if isinstance(v, Lin):
            if kind == "IntToInt":
                w, sg = self.width(to)
                if sg and v.hi >= 1 << (w - 1): raise Undecided("signed cast")
                if v.hi < 1 << w: return v
                return self.wrap(v.p, w, v.lo, v.hi)
            if kind == "Transmute": return v
            raise Undecided("cast %s" % kind)
        if kind == "IntToInt" and isinstance(v, Term) and v.w == 1:
            return self.low(self.lift(v))
        return super().cast(kind, v, to, fr)
    def unop(self, op, v, tid):
        if isinstance(v, Lin) and op == "Not":
            w, sg = self.width(tid)
            return self.mk(padd({(): (1 << w) - 1}, v.p, -1), (1 << w) - 1 - v.hi, (1 << w) - 1 - v.lo)
        return super().unop(op, v, tid)
    def pick_cond(self, v, t):
        if isinstance(v, Lin):
            for val in t[2]:
                c = self.zero(padd(v.p, {(): val}, -1))
                if isinstance(c, Term) and self.cond_known(c) is None: return c
            return None
        return super().pick_cond(v, t)
    def branch(self, c, L, b, v, t, stop):
        if isinstance(v, Lin):
            for val, tgt in t[2].items():
                e = self.zero(padd(v.p, {(): val}, -1))
                k = e if isinstance(e, bool) else self.cond_known(e)
                if k is True: return ("go", tgt)
                if k is None: break
            else: return ("go", t[3])
        return super().branch(c, L, b, v, t, stop)
TERMS = {}
