"""Abstract values: hash-consed terms, bit vectors with atomic bits, field elements in polynomial normal form."""
import itertools

DEPTH = 0   # of the term being printed
class Undecided(Exception):
    pass

class Panic(Exception):
    """The interpreted code diverges by panicking."""
    pass

# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("op", "args", "id", "w", "__weakref__")
    tab = {}
    n = itertools.count(1)
    def __repr__(self):
        global DEPTH
        if DEPTH > 4: return "..."
        DEPTH += 1
        try: return "%s(%s)" % (self.op, ",".join(map(short, self.args))) if self.args else self.op
        finally: DEPTH -= 1
    def __deepcopy__(self, m): return self

def akey(a):
    if isinstance(a, Term): return ("t", a.id)
    if isinstance(a, FE): return ("e", a.F.name, a.key())
    if isinstance(a, BV): return ("b", a.bits)
    if isinstance(a, tuple): return ("u",) + tuple(akey(x) for x in a)
    return a

def T(op, *args, w=1):
    """Hash-consed term. w: bit width (1 = bool)."""
    k = (op, w) + tuple(akey(a) for a in args)
    t = Term.tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = args; t.w = w; t.id = next(Term.n)
        Term.tab[k] = t
    return t

def short(a, n=60):
    s = repr(a)
    return s if len(s) <= n else s[:n] + "..."

def t_not(c):
    if c is True or c is False: return not c
    if isinstance(c, int): return not c
    if c.op == "not": return c.args[0]
    return T("not", c)

def t_and(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a is b: return a
    if t_not(a) is b: return False
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("and", x, y)

def t_or(a, b):
    return t_not(t_and(t_not(a), t_not(b)))

def t_xor(a, b):
    if isinstance(a, bool): return t_not(b) if a else b
    if isinstance(b, bool): return t_not(a) if b else a
    if a is b: return False
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("xor", x, y)

def t_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else t_not(c)
    if a is b: return a
    if a is True: return t_or(c, b)
    if a is False: return t_and(t_not(c), b)
    if b is True: return t_or(t_not(c), a)
    if b is False: return t_and(c, a)
    return T("ite", c, a, b)

# ---------------------------------------------------------------- bit vectors
class BV:
    """Unsigned integer whose bits (lsb first) are 0, 1, or ('atom', i) pairs / bool terms."""
    __slots__ = ("bits",)
    def __init__(self, bits): self.bits = bits
    @property
    def w(self): return len(self.bits)
    def __repr__(self):
        b = self.bits
        hi = len(b)
        while hi and b[hi - 1] == 0: hi -= 1
        if hi and isinstance(b[0], tuple) and all(isinstance(x, tuple) and x[0] is b[0][0] and x[1] == b[0][1] + i for i, x in enumerate(b[:hi])):
            return "%s[%d..%d]" % (short(b[0][0]), b[0][1], b[0][1] + hi)
        return "BV(%s)" % short(b[:hi], 200)
    def __eq__(self, o): return isinstance(o, BV) and self.bits == o.bits
    def __hash__(self): return hash(self.bits)
    def __deepcopy__(self, m): return self

def bv(bits):
    bits = tuple(bits)
    if all(b == 0 or b == 1 for b in bits if not isinstance(b, (tuple, Term))) and not any(isinstance(b, (tuple, Term)) for b in bits):
        return sum(1 << i for i, b in enumerate(bits) if b)
    return BV(bits)

def bv_atom(t, w=None, nz=None):
    """Bit vector of the term t: w bits wide of which the low nz may be set."""
    w = w or t.w
    nz = w if nz is None else nz
    return BV(tuple((t, i) for i in range(nz)) + (0,) * (w - nz))

def bits_of(v, w):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int):
        v &= (1 << w) - 1
        return tuple((v >> i) & 1 for i in range(w))
    if isinstance(v, BV):
        b = v.bits
        return b[:w] + (0,) * (w - len(b))
    if isinstance(v, Term):
        if v.w == 1: return (v,) + (0,) * (w - 1)
        if v.op == "ite" and all(type(x) is int and x >= 0 for x in v.args[1:]):
            return tuple(bit_from(t_ite(v.args[0], bool(v.args[1] >> i & 1), bool(v.args[2] >> i & 1))) for i in range(w))
        return bits_of(bv_atom(v), w)
    raise Undecided("bits of %s" % short(v))

def okey(v):
    """Total order on bits and bit tuples."""
    if isinstance(v, int): return (0, int(v), 0)
    if isinstance(v, Term): return (1, v.id, -1)
    if isinstance(v, BV): return (2, tuple(map(okey, v.bits)), 0)
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Term) and isinstance(v[1], int): return (1, v[0].id, v[1])
    if isinstance(v, tuple): return (2, tuple(map(okey, v)), 0)
    return (3, repr(v), 0)

def bit_op(op, a, b):
    ca = isinstance(a, int); cb = isinstance(b, int)
    if ca and cb: return (a & b) if op == "and" else (a | b) if op == "or" else a ^ b
    if ca: a, b, ca, cb = b, a, cb, ca
    if cb:
        if op == "and": return a if b else 0
        if op == "or": return 1 if b else a
        return a if not b else bit_not(a)
    if a == b: return a if op != "xor" else 0
    x, y = bit_term(a), bit_term(b)
    r = {"and": t_and, "or": t_or, "xor": t_xor}[op](x, y)
    return int(r) if isinstance(r, bool) else r

def bit_term(b):
    if isinstance(b, int): return bool(b)
    if isinstance(b, tuple): return T("bit", b[0], b[1])
    return b

def bit_from(t):
    if isinstance(t, bool): return int(t)
    if isinstance(t, Term) and t.op == "bit": return (t.args[0], t.args[1])
    return t

def bit_not(a):
    if isinstance(a, int): return 1 - a
    return t_not(bit_term(a))

def bmax(bits): return sum(1 << i for i, b in enumerate(bits) if b != 0)
def bmin(bits): return sum(1 << i for i, b in enumerate(bits) if b == 1)

# ---------------------------------------------------------------- field elements
class Field:
    """A prime field whose elements are polynomials over hash-consed atoms."""
    def __init__(self, name, p, limbs, nbits, path):
        self.name, self.p, self.limbs, self.nbits, self.path = name, p, limbs, nbits, path
        self.R = pow(2, 128 if p == 2**64 - 2**32 + 1 else 64 * limbs, p); self.Ri = pow(self.R, -1, p)
        self.mode = "expand"
        self.limit = 60000
        self.monos = [()]; self.mtab = {(): 0}; self.mm = {}
        self.atoms = {}
        self.zero = FE(self, {}); self.one = FE(self, {0: 1})
    def const(self, n):
        n %= self.p
        return FE(self, {0: n}) if n else self.zero
    def intern(self, m):
        i = self.mtab.get(m)
        if i is None:
            i = len(self.monos); self.monos.append(m); self.mtab[m] = i
        return i
    def atom(self, t):
        """Element for the term t."""
        self.atoms[t.id] = t
        return FE(self, {self.intern(((t.id, 1),)): 1})
    def var(self, name):
        return self.atom(T("var", self.name, name, w=self.nbits))
    def mmul(self, a, b):
        if a == 0: return b
        if b == 0: return a
        if a > b: a, b = b, a
        k = (a, b)
        r = self.mm.get(k)
        if r is None:
            d = dict(self.monos[a])
            for t, e in self.monos[b]:
                if t in d:
                    d[t] = 1 if self.atoms[t].op == "ind" else d[t] + e
                else: d[t] = e
            r = self.intern(tuple(sorted(d.items())))
            self.mm[k] = r
        return r

class FE:
    __slots__ = ("F", "d", "_k")
    def __init__(self, F, d): self.F = F; self.d = d; self._k = None
    def __deepcopy__(self, m): return self
    def key(self):
        if self._k is None: self._k = frozenset(self.d.items())
        return self._k
    def is_const(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)
    def cval(self): return self.d.get(0, 0)
    def __repr__(self):
        F = self.F
        def mono(m): return "*".join("%s%s" % (short(F.atoms[t], 40), "^%d" % e if e > 1 else "") for t, e in F.monos[m])
        def co(c): return str(c) if c < F.p // 2 else "-%d" % (F.p - c)
        it = sorted(self.d.items())
        s = " + ".join((co(c) if m == 0 else mono(m) if c == 1 else co(c) + "*" + mono(m)) for m, c in it[:6])
        return "<%s%s>" % (s or "0", " + ...(%d terms)" % len(it) if len(it) > 6 else "")

def fadd(a, b):
    p = a.F.p
    if len(a.d) < len(b.d): a, b = b, a
    if not b.d: return a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None: d[m] = c
        else:
            x += c
            if x >= p: x -= p
            if x: d[m] = x
            else: del d[m]
    return FE(a.F, d)

def fneg(a):
    p = a.F.p
    return FE(a.F, {m: p - c for m, c in a.d.items()})

def fsub(a, b): return fadd(a, fneg(b))

def fscale(a, k):
    p = a.F.p; k %= p
    if k == 0: return a.F.zero
    if k == 1: return a
    return FE(a.F, {m: c * k % p for m, c in a.d.items()})

def monic_atom(a):
    """(c, atom) with a = c * atom, for a with several terms."""
    F = a.F
    m0 = min(a.d)
    c = a.d[m0]
    mon = fscale(a, pow(c, -1, F.p))
    t = T("poly", mon, w=F.nbits)
    F.atoms[t.id] = t
    return c, F.intern(((t.id, 1),))

def fmul(a, b):
    F = a.F; p = F.p
    if not a.d or not b.d: return F.zero
    if len(b.d) == 1 and 0 in b.d: return fscale(a, b.d[0])
    if len(a.d) == 1 and 0 in a.d: return fscale(b, a.d[0])
    if F.mode == "wrap" or F.mode == "share" and len(a.d) * len(b.d) > 16:
        if len(a.d) == 1: (ma, ca), = a.d.items()
        else: ca, ma = monic_atom(a)
        if len(b.d) == 1: (mb, cb), = b.d.items()
        else: cb, mb = monic_atom(b)
        return FE(F, {F.mmul(ma, mb): ca * cb % p})
    if len(a.d) * len(b.d) > F.limit * 4: raise Undecided("polynomial too large")
    d = {}
    for m, c in a.d.items():
        for n, e in b.d.items():
            k = F.mmul(m, n)
            d[k] = (d.get(k, 0) + c * e) % p
    d = {k: v for k, v in d.items() if v}
    if len(d) > F.limit: raise Undecided("polynomial too large")
    return FE(F, d)

def fpow(a, e):
    F = a.F
    if a.is_const(): return F.const(pow(a.cval(), e, F.p))
    if e == 0: return F.one
    if len(a.d) > 1 and e > 8 or F.mode in ("wrap", "share") and len(a.d) > 1:
        c, m = monic_atom(a)
        a = FE(F, {m: c})
    if len(a.d) == 1:
        (m, c), = a.d.items()
        mm = F.intern(tuple((t, 1 if F.atoms[t].op == "ind" else x * e) for t, x in F.monos[m]))
        return FE(F, {mm: pow(c, e, F.p)})
    r = F.one
    while e:
        if e & 1: r = fmul(r, a)
        e >>= 1
        if e: a = fmul(a, a)
    return r

def finv(a):
    F = a.F
    if a.is_const():
        return F.const(pow(a.cval(), F.p - 2, F.p))
    if len(a.d) == 1:
        (m, c), = a.d.items()
        mon = FE(F, {m: 1})
    else:
        c = a.d[min(a.d)]
        mon = fscale(a, pow(c, -1, F.p))
    return fscale(F.atom(T("inv", mon, w=F.nbits)), pow(c, -1, F.p))

def fite(c, a, b):
    d = fsub(a, b)
    if not d.d: return a
    F = a.F
    if c.op == "not": return fite(c.args[0], b, a)
    t = T("ind", c, w=F.nbits)
    i = F.atom(t)
    mode = F.mode; F.mode = "expand"
    try: return fadd(b, fmul(i, d))
    finally: F.mode = mode

GENERIC = None   # decides whether a polynomial vanishes for generic values of its symbols (set by checks that argue about generic challenges)
def feq(a, b):
    d = fsub(a, b)
    if not d.d: return True
    if d.is_const(): return False
    if GENERIC is not None: return GENERIC(d)
    c = d.d[min(d.d)]
    return T("fzero", fscale(d, pow(c, -1, d.F.p)))

def reduce_inv(e):
    """Normal form of e modulo T*inv(T) = 1, clearing denominators; returns True if e == 0 identically (T != 0)."""
    F = e.F
    mode = F.mode; F.mode = "expand"
    try:
        for _ in range(64):
            if not e.d: return True
            inv = None
            for m in e.d:
                for t, x in F.monos[m]:
                    if F.atoms[t].op == "inv" and (inv is None or t > inv): inv = t
            if inv is None: return False
            # multiply by T^k: collect by power of inv atom
            by = {}
            for m, c in e.d.items():
                dd = dict(F.monos[m]); x = dd.pop(inv, 0)
                by.setdefault(x, {})[F.intern(tuple(sorted(dd.items())))] = c
            k = max(by)
            Tm = F.atoms[inv].args[0]
            r = F.zero
            for x, d in by.items():
                r = fadd(r, fmul(FE(F, d), fpow_expand(Tm, k - x)))
            e = r
        return False
    finally: F.mode = mode

def fpow_expand(a, e):
    r = a.F.one
    for _ in range(e): r = fmul(r, a)
    return r

def fe_atoms(a, seen=None):
    """All leaf variables an abstract value depends on."""
    seen = {} if seen is None else seen
    out = set()
    stack = [a]
    while stack:
        x = stack.pop()
        if isinstance(x, FE):
            k = ("e", x.F.name, x.key())
            if k in seen: continue
            seen[k] = 1
            for m in x.d:
                for t, _ in x.F.monos[m]: stack.append(x.F.atoms[t])
        elif isinstance(x, Term):
            if x.id in seen: continue
            seen[x.id] = 1
            if x.op == "var": out.add(x.args[-1]); continue
            stack.extend(x.args)
        elif isinstance(x, BV):
            for b in x.bits:
                if isinstance(b, tuple): stack.append(b[0])
                elif isinstance(b, Term): stack.append(b)
        elif isinstance(x, (tuple, list)): stack.extend(x)
        elif hasattr(x, "f"): stack.extend(x.f)
        elif hasattr(x, "pieces"): stack.extend(x.pieces)
    return out

def subst_zero_tests(e, ok):
    """e with every indicator of a zero test resolved to 'not zero', when ok(T) says that T cannot vanish; else None."""
    F = e.F; mode = F.mode; F.mode = "expand"
    memo = {}
    try:
        def cond(c):
            if c.op == "fzero": return False if ok(c.args[0]) else None
            if c.op == "not":
                r = cond(c.args[0]); return None if r is None else not r
            return None
        def go(e):
            k = e.key()
            if k in memo: return memo[k]
            r = F.zero
            for m, c in e.d.items():
                t = F.const(c)
                for a, x in F.monos[m]:
                    A = F.atoms[a]
                    if A.op == "ind":
                        v = cond(A.args[0])
                        if v is None: raise Undecided("zero test of %s" % short(A.args[0]))
                        t = t if v else F.zero
                    elif A.op == "inv": t = fmul(t, fpow(finv(go(A.args[0])), x))
                    else: t = fmul(t, fpow_expand(FE(F, {F.intern(((a, 1),)): 1}), x))
                r = fadd(r, t)
            memo[k] = r
            return r
        return go(e)
    finally: F.mode = mode
