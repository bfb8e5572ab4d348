"""Abstract interpreter over the dumped MIR.

Every function body is evaluated over abstract values (dom.py): exact for lengths, indexes and table constants, normal
forms (polynomials, bit vectors, value-numbered terms) for data.  A branch whose condition is not determined evaluates both
arms from the same state and joins the two states at the branch's immediate postdominator; no path is enumerated and no
solver is consulted.  Whatever is not modelled raises Undecided."""
import gc, json, re, sys, types
from dom import *
sys.setrecursionlimit(20000)

J = []          # active journals (innermost last)
def touch(lst):
    if J:
        j = J[-1]
        k = id(lst)
        if k not in j: j[k] = (lst, dict(lst) if type(lst) is dict else list(lst))

def fresh(o):
    """o was allocated here: its content needs no joining with a side of a branch that never saw it."""
    if J:
        l = o.d if type(o) is MapObj else o.f
        J[-1].setdefault(id(l), (l, None))
    return o
def adopt(kk, lst):
    """An allocation made under a branch that has ended belongs to the enclosing one."""
    if J: J[-1].setdefault(kk, (lst, None))

class Agg:
    __slots__ = ("ty", "v", "f")
    def __init__(self, ty, v, f): self.ty = ty; self.v = v; self.f = f
    def __repr__(self): return "Agg%s%s" % (self.v or "", short(self.f, 200))
class Arr:
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
    def __repr__(self): return "Arr%s" % short(self.f, 200)
class Vec:
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
    def __repr__(self): return "Vec%s" % short(self.f, 200)
class Box:
    __slots__ = ("f",)
    def __init__(self, v): self.f = [v]
    def __repr__(self): return "Box(%s)" % short(self.f[0], 200)
class StrObj:
    __slots__ = ("f",)
    def __init__(self, s): self.f = [s]
    def __repr__(self): return "String(%r)" % (self.f[0],)
class SymStr:
    """Immutable string with abstract pieces."""
    __slots__ = ("pieces",)
    def __init__(self, pieces): self.pieces = tuple(pieces)
    def __repr__(self): return "SymStr%r" % (self.pieces,)
    def __eq__(self, o): return isinstance(o, SymStr) and tuple(map(akey, self.pieces)) == tuple(map(akey, o.pieces))
    def __hash__(self): return hash(tuple(map(akey, self.pieces)))
    def __deepcopy__(self, m): return self
class MapObj:
    """HashMap / BTreeMap / sets: key -> [keyvalue, value]."""
    __slots__ = ("d", "kind")
    def __init__(self, kind): self.d = {}; self.kind = kind
    def __repr__(self): return "Map%s" % short(self.d, 200)
class Ref:
    __slots__ = ("c", "k")
    def __init__(self, c, k): self.c = c; self.k = k
    def get(self):
        v = self.c[self.k]
        return v
    def set(self, v):
        touch(self.c); self.c[self.k] = v
    def __repr__(self): return "&%s" % short(self.c[self.k] if not isinstance(self.c, list) or self.k < len(self.c) else None, 120)
class SRef:
    __slots__ = ("l", "o", "n")
    def __init__(self, l, o, n): self.l = l; self.o = o; self.n = n
    def items(self): return self.l[self.o:self.o + self.n]
    def __repr__(self): return "&[%s]" % short(self.items(), 200)
class Phi:
    """Value that is a under c and b otherwise (for values that are not scalars)."""
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return "Phi(%s ? %s : %s)" % (short(self.c), short(self.a), short(self.b))
class FnV:
    __slots__ = ("tid",)
    def __init__(self, tid): self.tid = tid
class PyFn:
    """A function value implemented by the harness."""
    __slots__ = ("fn",)
    def __init__(self, fn): self.fn = fn
class PtrView:
    """Pointer to integers of one width seen as a pointer to integers of another."""
    def __init__(self, c, k, src, dst): self.c, self.k, self.src, self.dst = c, k, src, dst
class Opaque:
    """Model object without content (files, mutexes, loggers...)."""
    __slots__ = ("name", "f")
    def __init__(self, name, f=None): self.name = name; self.f = f if f is not None else []
    def __repr__(self): return "<%s>" % self.name
class Seq:
    """Iterator with random access: st = [front, back]."""
    __slots__ = ("st", "g")
    def __init__(self, n, g, o=0): self.st = [o, n]; self.g = g
    def next(self):
        f, b = self.st
        if f >= b: return STOP
        touch(self.st); self.st[0] = f + 1
        return self.g(f)
    def next_back(self):
        f, b = self.st
        if f >= b: return STOP
        touch(self.st); self.st[1] = b - 1
        return self.g(b - 1)
    def len(self): return max(0, self.st[1] - self.st[0])
    def clone(self):
        s = Seq(0, self.g); s.st = list(self.st); return s
class Gen:
    """Iterator without random access."""
    __slots__ = ("pull", "pb", "cl")
    def __init__(self, pull, pb=None, cl=None): self.pull = pull; self.pb = pb; self.cl = cl
    def next(self): return self.pull()
    def next_back(self):
        if self.pb: return self.pb()
        raise Undecided("next_back")
    def clone(self):
        if self.cl: return self.cl()
        raise Undecided("clone of iterator")
class _Stop:
    def __repr__(self): return "STOP"
STOP = _Stop()

UNIT = None
def unit(): return Agg(None, 0, [])

def copyval(v):
    t = type(v)
    if t is Agg: return Agg(v.ty, v.v, [copyval(x) for x in v.f]) if v.f else v
    if t is Arr: return Arr([copyval(x) for x in v.f])
    if t is Phi: return Phi(v.c, copyval(v.a), copyval(v.b))
    return v

def clone(v):
    """Deep clone (derive(Clone) semantics)."""
    t = type(v)
    if t is Agg: return Agg(v.ty, v.v, [clone(x) for x in v.f])
    if t is Arr: return Arr([clone(x) for x in v.f])
    if t is Vec: return fresh(Vec([clone(x) for x in v.f]))
    if t is Box: return Box(clone(v.f[0]))
    if t is StrObj: return StrObj(v.f[0])
    if t is MapObj:
        m = MapObj(v.kind); m.d = {k: [clone(x[0]), clone(x[1])] for k, x in v.d.items()}; return fresh(m)
    if t is Phi: return Phi(v.c, clone(v.a), clone(v.b))
    if t is Seq or t is Gen: return v.clone()
    return v

LIN = None
def ite(c, a, b):
    """Join value under condition c."""
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    ta, tb = type(a), type(b)
    if a is None or b is None: return a if b is None else b      # uninitialised / dead on one side
    if ta is FE and tb is FE and a.F is b.F: return fite(c, a, b)
    if ta.__name__ == "Lin" or tb.__name__ == "Lin": return LIN.ite(c, a, b)
    if ta in (bool, Term) and tb in (bool, Term) and (ta is bool or a.w == 1) and (tb is bool or b.w == 1): return t_ite(c, a, b)
    if ta in (int, BV, Term, bool) and tb in (int, BV, Term, bool):
        if same(a, b): return a
        if ta is int and tb is int: return T("ite", c, a, b, w=128)
        wa = a.w if ta is not int else b.w; wb = b.w if tb is not int else wa
        w = max(wa, wb)
        if ta is int and a < 0 or tb is int and b < 0: return T("ite", c, a, b, w=w)
        A, B = bits_of(a, w), bits_of(b, w)
        return bv(x if x == y else bit_from_ite(c, x, y) for x, y in zip(A, B))
    if ta is tb:
        if ta is Agg and a.v == b.v and len(a.f) == len(b.f): return Agg(a.ty or b.ty, a.v, [ite(c, x, y) for x, y in zip(a.f, b.f)])
        if ta is Arr and len(a.f) == len(b.f): return Arr([ite(c, x, y) for x, y in zip(a.f, b.f)])
        if ta is Vec and len(a.f) == len(b.f): return Vec([ite(c, x, y) for x, y in zip(a.f, b.f)])
        if ta is Box: return Box(ite(c, a.f[0], b.f[0]))
        if ta is StrObj and a.f[0] == b.f[0]: return a
        if ta is str and a == b: return a
        if ta is Ref and a.c is b.c and a.k == b.k: return a
        if ta is SRef and a.l is b.l and a.o == b.o and a.n == b.n: return a
        if ta is Seq and a.g is b.g and a.st == b.st: return a
    return Phi(c, a, b)

def bit_from_ite(c, x, y):
    r = t_ite(c, bit_term(x), bit_term(y))
    return bit_from(r)

def same(a, b):
    """Structural equality of abstract values (True only when certainly equal)."""
    if a is b: return True
    ta, tb = type(a), type(b)
    if ta is FE and tb is FE: return a.F is b.F and a.d == b.d
    if ta in (int, bool) and tb in (int, bool): return a == b
    if ta is BV or tb is BV:
        try:
            w = max(getattr(a, "w", 0), getattr(b, "w", 0))
            return bits_of(a, w) == bits_of(b, w)
        except Undecided: return False
    if ta is not tb: return False
    if ta is Agg: return a.v == b.v and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if ta in (Arr, Vec, Box, StrObj): return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if ta is Ref: return (a.c is b.c and a.k == b.k) or same(a.c[a.k], b.c[b.k])
    if ta is SRef: return a.n == b.n and all(same(x, y) for x, y in zip(a.items(), b.items()))
    if ta is SymStr or ta is str: return a == b
    if ta is MapObj: return a.d.keys() == b.d.keys() and all(same(a.d[k][1], b.d[k][1]) for k in a.d)
    if ta is Phi: return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    return False

INTW = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}

class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]; self.fns = d["fns"]; self.impls = d["impls"]
        self.statics = d["statics"]; self.consts = d["consts"]; self.adts = d.get("adts"); self.cands = d.get("cands")
        self.bypath = {}
        for i, f in enumerate(self.fns): self.bypath.setdefault(f["p"], []).append(i)
        self.tstr = {}
        for i, t in enumerate(self.types): self.tstr.setdefault(t["s"], i)
    def tid(self, s):
        return self.tstr.get(s)
    def find(self, path, targs=None, mono=True, last=False):
        """Function indexes with this path; targs = list of type strings to match."""
        out = []
        for i in self.bypath.get(path, []):
            f = self.fns[i]
            if mono and not f["mono"] or "blocks" not in f: continue
            if targs is not None and [str(t.get("c")) if type(t) is dict else self.types[t]["s"] for t in f["a"]][:len(targs)] != targs: continue
            out.append(i)
        return out

FIELDS = {}

_seg = re.compile(r"::")
def split_path(p):
    out = []; d = 0; cur = ""
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<": d += 1
        elif ch == ">" and p[i - 1] != "-": d -= 1
        if d == 0 and p.startswith("::", i):
            out.append(cur); cur = ""; i += 2; continue
        cur += ch; i += 1
    out.append(cur)
    return out

_mk = {}
def model_key(p):
    """Last two path segments without generic arguments."""
    k = _mk.get(p)
    if k is not None: return k
    segs = []
    for s in split_path(p):
        if s.startswith("<impl "):
            s = s[6:-1]
            if " for " in s: s = s.split(" for ")[-1]
            if not s.startswith("["): s = split_path(s)[-1]
            s = re.sub(r"<.*>$", "", s)
            segs.append(s)
        elif s.startswith("<"):
            m = re.match(r"^<(.*) as (.*)>$", s)
            if m: segs.append(re.sub(r"<.*>$", "", split_path(m.group(2))[-1]))
        else: segs.append(re.sub(r"<.*>$", "", s))
    k = "::".join(segs[-2:])
    _mk[p] = k
    return k

class Fn:
    """Compiled body."""
    __slots__ = ("fid", "f", "blocks", "n", "ipd")

class Interp:
    def __init__(self, mir, fields=(), trace=False):
        self.mir = mir; self.types = mir.types; self.fns = mir.fns
        self.cf = {}
        self.statics = {}
        self.lazy = {}
        self.models = {}          # model key -> fn(I, args, callee) ; filled by models.py
        self.hooks = {}           # resolved path -> fn(I, args, callee)
        self.prefix = []          # (resolved path prefix, fn)
        self.pc = {}
        self.panics = []          # (pc, message) of abandoned arms
        self.assumed = []         # conditions assumed (non-panicking asserts)
        self.steps = 0; self.max_steps = 60_000_000
        self.depth = 0; self.brdepth = 0
        self.called = {}          # fid -> count
        self.leafs = {}
        self.fieldty = {}         # type string -> Field
        self.stack = []; self.fargs = []
        for F in fields: self.fieldty[F.path] = F
        import models; models.install(self)

    # ---------------------------------------------------------------- types
    def ty(self, tid): return self.types[tid]
    def width(self, tid):
        t = self.types[tid]
        k = t["k"]
        if k == "int" or k == "uint": return t["bits"], k == "int"
        if k == "bool": return 1, False
        if k == "char": return 32, False
        return 64, False
    def norm(self, n, tid):
        w, sg = self.width(tid)
        n &= (1 << w) - 1
        if sg and n >> (w - 1): n -= 1 << w
        return n

    # ---------------------------------------------------------------- constants
    def const(self, v, tid):
        t = self.types[tid]; k = t["k"]
        if isinstance(v, dict):
            if "uneval" in v: raise Undecided("unevaluated constant of type %s" % t["s"])
            if "static" in v: return Ref(self.static(v["static"]), 0)
            if "fn" in v: return FnV(v["fn"])
            if "s" in v:
                if v.get("u8"):
                    return SRef(list(v["s"].encode("latin1") if isinstance(v["s"], str) else v["s"]), 0, len(v["s"]))
                return v["s"]
            if "bytes" in v:
                if k in ("ref", "ptr"):
                    e = self.types[t["e"]]
                    if e["k"] == "array": return Ref([Arr(list(v["bytes"]))], 0)
                    return SRef(list(v["bytes"]), 0, len(v["bytes"]))
                return Arr(list(v["bytes"]))
            if "ref" in v:
                if k in ("ref", "ptr"):
                    e = self.types[t["e"]]
                    if e["k"] == "slice":
                        a = v["ref"]
                        if isinstance(a, dict) and "bytes" in a: return SRef(list(a["bytes"]), 0, len(a["bytes"]))
                        if isinstance(a, dict) and "arr" in a:
                            l = [self.const(x, e["e"]) for x in a["arr"]]
                            return SRef(l, 0, len(l))
                    if e["k"] == "str":
                        a = v["ref"]
                        if isinstance(a, dict) and "s" in a: return a["s"]
                    return Ref([self.const(v["ref"], t["e"])], 0)
                raise Undecided("constant reference of type %s" % t["s"])
            if "arr" in v:
                return Arr([self.const(x, t["e"]) for x in v["arr"]])
            if "agg" in v:
                F = self.fieldty.get(t["s"])
                if F is not None: return self.field_const(F, v)
                if k == "tuple": return Agg(tid, 0, [self.const(x, e) for x, e in zip(v["agg"], t["e"])])
                if k == "adt":
                    var = v.get("var", 0) or 0
                    fs = t["v"][var]["f"] if t.get("v") else []
                    if not fs and "core_arch::x86::__m" in t["s"]: return Agg(tid, 0, [Arr([int(x) for x in v["agg"][0]["arr"]])])
                    return self.std_const(t, Agg(tid, var, [self.const(x, e[1]) for x, e in zip(v["agg"], fs)]))
                return Agg(tid, v.get("var", 0) or 0, [])
            if "float" in v:
                x = v["float"]
                return float(x) if not isinstance(x, float) else x
            raise Undecided("constant %s" % short(v))
        if v is None:
            if k == "fndef": return FnV(tid)
            if k in ("adt", "tuple", "closure"): return Agg(tid, 0, [])
            raise Undecided("unknown constant of type %s" % t["s"])
        if k == "bool": return bool(int(v))
        if k in ("int", "uint", "char"): return self.norm(int(v), tid)
        if k == "fndef": return FnV(tid)
        if k == "adt" and t.get("enum"): return Agg(tid, int(v), [])
        if k == "float": return float(v)
        if k in ("ptr", "ref"): return Ref([None], 0)
        raise Undecided("constant %s of type %s" % (short(v), t["s"]))
    def std_const(self, t, a):
        p = t.get("p", "")
        if p == "alloc::string::String": return StrObj("")
        if p == "alloc::vec::Vec": return Vec([])
        return a
    def field_const(self, F, v):
        if hasattr(F, "const_of"): return F.const_of(self, v)
        def ints(x):
            if isinstance(x, dict):
                for k in ("agg", "arr"):
                    if k in x: return [z for y in x[k] for z in ints(y)]
                raise Undecided("field constant")
            if isinstance(x, list): return [z for y in x for z in ints(y)]
            return [int(x)]
        l = ints(v)
        n = sum(x << (64 * i) for i, x in enumerate(l))
        if n >= F.p: raise Undecided("non-canonical field constant")
        return F.const(n * F.Ri)
    def static(self, path):
        s = self.statics.get(path)
        if s is None:
            st = self.mir.statics.get(path)
            if st is None: raise Undecided("static " + path)
            try: val = self.const(st[1], st[0])
            except Undecided: val = Opaque(path)
            s = self.statics[path] = [val]
        return s

    # ---------------------------------------------------------------- compile
    def compile(self, fid):
        c = self.cf.get(fid)
        if c is not None: return c
        f = self.fns[fid]
        if "blocks" not in f: raise Undecided("no body: " + f["p"])
        c = Fn(); c.fid = fid; c.f = f; c.n = len(f["locals"]); c.ipd = None
        c.blocks = [None] * len(f["blocks"])
        self.cf[fid] = c
        return c
    def block(self, c, b):
        blk = c.blocks[b]
        if blk is None:
            fb = c.f["blocks"][b]
            sts = [self.cstmt(c.f, s) for s in fb["s"] if s[0] not in ("dead", "nop")]
            blk = c.blocks[b] = (sts, self.cterm(c, fb["t"]))
        return blk

    def placetypes(self, f, pl):
        t = f["locals"][pl[0]]
        yield t
        for x in pl[1]:
            if x == "*": t = self.types[t].get("e") if t is not None else None
            elif x[0] == "f": t = x[2]
            elif x[0] in ("i", "c"):
                t = self.types[t].get("e") if t is not None else None
            yield t

    def cloc(self, f, pl):
        """Compile a place to a function frame -> (container, key); unsized places give (SRef/str, None)."""
        l0, proj = pl[0], pl[1]
        if not proj: return lambda L: (L, l0)
        ops = []
        tys = list(self.placetypes(f, pl))
        for x, bt in zip(proj, tys):
            if x == "*": ops.append((0, None))
            elif x[0] == "f":
                tt = self.types[bt] if bt is not None else {}
                p = tt.get("p", "")
                if p in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_dangling::MaybeDangling"): continue
                ops.append((1, x[1]))
            elif x[0] == "i": ops.append((2, x[1]))
            elif x[0] == "c": ops.append((3, (x[1], x[3])))
            elif x[0] == "s": ops.append((4, (x[1], x[2], x[3])))
            elif x[0] == "d": ops.append((5, x[1]))
            else: raise Undecided("projection %s" % x)
        I = self
        def loc(L):
            c, k = L, l0
            for o, a in ops:
                v = c[k] if k is not None else c
                t = type(v)
                if t is Phi:
                    v = I.unphi(v, a if o == 5 else None); t = type(v)
                    c, k = [v], 0
                if o == 0:
                    if t is Ref: c, k = v.c, v.k
                    elif t is SRef or t is str or t is SymStr: c, k = v, None
                    elif t is Box: c, k = v.f, 0
                    elif t is Vec: c, k = SRef(v.f, 0, len(v.f)), None
                    elif t is StrObj: c, k = v.f[0], None
                    else: raise Undecided("deref of %s in %s" % (short(v), f["p"]))
                elif o == 1:
                    if t is Agg:
                        c, k = v.f, a
                        if a >= len(c): c.extend([None] * (a + 1 - len(c)))
                    elif t is Box and a == 0: c, k = [Ref(v.f, 0)], 0
                    elif t is Vec and a == 0: c, k = [SRef(v.f, 0, len(v.f))], 0
                    elif v is None:
                        v = Agg(None, 0, [None] * (a + 1))
                        touch(c); c[k] = v
                        c, k = v.f, a
                    else: c, k = [I.field_of(v, a, f)], 0
                elif o == 2:
                    i = L[a]
                    if type(i) is not int: i = I.concrete_index(i)
                    if t is SRef: c, k = v.l, v.o + i
                    elif t is Arr or t is Vec: c, k = v.f, i
                    else: raise Undecided("index of %s" % short(v))
                elif o == 3:
                    off, fe = a
                    if t is SRef: n = v.n; c, k = v.l, v.o + (n - off if fe else off)
                    elif t is Arr: n = len(v.f); c, k = v.f, (n - off if fe else off)
                    else: raise Undecided("index of %s" % short(v))
                elif o == 4:
                    fr, to, fe = a
                    l, o0, n = (v.l, v.o, v.n) if t is SRef else (v.f, 0, len(v.f))
                    to = n - to if fe else to
                    c, k = SRef(l, o0 + fr, to - fr), None
                else:
                    if t is Agg and v.v != a and v.f: raise Undecided("downcast")
            return c, k
        return loc

    def field_of(self, v, i, f):
        h = getattr(v, "field", None)
        if h: return h(i)
        if isinstance(v, FE): raise Undecided("representation of a field element taken apart in %s" % f["p"])
        raise Undecided("field %d of %s in %s" % (i, short(v), f["p"]))

    def concrete_index(self, i):
        i = self.resolve(i)
        if type(i) is int: return i
        if type(i) is bool: return int(i)
        raise Undecided("abstract index %s" % short(i))

    # path-condition aware resolution
    def cond_known(self, c):
        if isinstance(c, bool): return c
        if c.op == "not":
            r = self.cond_known(c.args[0])
            return None if r is None else not r
        r = self.pc.get(c.id)
        if r is not None: return r
        if c.op == "and":
            a, b = self.cond_known(c.args[0]), self.cond_known(c.args[1])
            if a is False or b is False: return False
            if a and b: return True
        return None
    def resolve(self, v):
        while True:
            if isinstance(v, Phi):
                k = self.cond_known(v.c)
                if k is None: return v
                v = v.a if k else v.b
            elif isinstance(v, Term) and v.op == "ite":
                k = self.cond_known(v.args[0])
                if k is None: return v
                v = v.args[1] if k else v.args[2]
            elif isinstance(v, Term) and v.w == 1:
                k = self.cond_known(v)
                return v if k is None else k
            elif isinstance(v, BV) and self.pc:
                if not any(isinstance(b, (Term, tuple)) for b in v.bits): return v
                nb = []
                ch = False
                for b in v.bits:
                    if not isinstance(b, int):
                        k = self.cond_known(bit_term(b))
                        if k is not None: b = int(k); ch = True
                    nb.append(b)
                return bv(nb) if ch else v
            else: return v
    def unphi(self, v, variant=None):
        """The value of a joined value here: chosen by the path condition, or by the variant it is read as."""
        v = self.resolve(v)
        if not isinstance(v, Phi): return v
        if variant is not None:
            lv = []
            def leaves(x, conds):
                x = self.resolve(x)
                if isinstance(x, Phi): leaves(x.a, conds); leaves(x.b, conds)
                elif isinstance(x, Agg) and x.v == variant: lv.append(x)
            leaves(v, ())
            if len(lv) == 1: return lv[0]
            if lv:
                def pick(x):
                    x = self.resolve(x)
                    if isinstance(x, Phi):
                        a, b = pick(x.a), pick(x.b)
                        if a is None: return b
                        if b is None: return a
                        return ite(x.c, a, b)
                    return x if isinstance(x, Agg) and x.v == variant else None
                return pick(v)
        a, b = v.a, v.b
        raise Undecided("access through a joined value %s" % short(v))

    def cread(self, f, pl):
        l0, proj = pl[0], pl[1]
        if not proj:
            return lambda L: L[l0]
        if proj == ["*"]:
            I = self
            loc0 = self.cloc(f, pl)
            def rd(L):
                v = L[l0]
                if type(v) is Ref: return v.c[v.k]
                c, k = loc0(L)
                return c[k] if k is not None else c
            return rd
        loc = self.cloc(f, pl)
        def rd(L):
            c, k = loc(L)
            return c[k] if k is not None else c
        return rd

    def cop(self, f, op):
        k = op[0]
        if k == "cp":
            rd = self.cread(f, op[1])
            def cp(L):
                v = rd(L)
                t = type(v)
                if t is Agg or t is Arr or t is Phi: return copyval(v)
                return v
            return cp
        if k == "mv": return self.cread(f, op[1])
        tid, val = op[1], op[2]
        I = self
        tt = self.types[tid]
        if tt["k"] in ("int", "uint", "bool", "char") and not isinstance(val, dict) and val is not None:
            v = self.const(val, tid)
            return lambda L: v
        if tt["k"] == "adt" and tt["s"] in self.fieldty:
            v = self.const(val, tid)
            return lambda L: v
        path = op[3] if len(op) > 3 else None
        def cst(L):
            if path and path in I.const_hooks: return I.const_hooks[path]()
            if isinstance(val, dict) and "uneval" in val or val is None and tt["k"] not in ("fndef", "adt", "tuple", "closure"):
                if path and path in I.mir.consts:
                    ct, cv = I.mir.consts[path]
                    return I.const(cv, ct)
            return I.const(val, tid)
        return cst
    const_hooks = {}

    def cstore(self, f, pl):
        l0, proj = pl[0], pl[1]
        if not proj:
            def st(L, v):
                if J: touch(L)
                L[l0] = v
            return st
        loc = self.cloc(f, pl)
        def st(L, v):
            c, k = loc(L)
            if k is None: raise Undecided("store to unsized place")
            if J: touch(c)
            if type(c) is list and k >= len(c): raise Undecided("store out of range")
            c[k] = v
        return st

    def cstmt(self, f, s):
        if s[0] == "=":
            st = self.cstore(f, s[1]); rv = self.crv(f, s[2])
            if not s[1][1]:
                l0 = s[1][0]
                def run(L):
                    v = rv(L)
                    if J: touch(L)
                    L[l0] = v
                return run
            return lambda L: st(L, rv(L))
        if s[0] == "sd":
            loc = self.cloc(f, s[1]); var = s[2]
            def run(L):
                c, k = loc(L)
                v = c[k]
                if v is None: touch(c); c[k] = Agg(None, var, [])
                elif isinstance(v, Agg): touch(c); c[k] = Agg(v.ty, var, v.f)
                else: raise Undecided("set discriminant")
            return run
        if s[0] == "cno":
            def run(L): raise Undecided("copy_nonoverlapping")
            return run
        raise Undecided("statement %s" % s[0])

    def crv(self, f, r):
        k = r[0]
        I = self
        if k == "use": return self.cop(f, r[1])
        if k == "ref":
            pl = r[2]
            if not pl[1]:
                l0 = pl[0]
                return lambda L: Ref(L, l0)
            loc = self.cloc(f, pl)
            def ref(L):
                c, kk = loc(L)
                return Ref(c, kk) if kk is not None else c
            return ref
        if k == "bin":
            a, b = self.cop(f, r[2]), self.cop(f, r[3]); op = r[1]; tid = r[4]
            w, sg = self.width(tid)
            fast = FAST.get(op)
            if fast:
                def bi(L):
                    x, y = a(L), b(L)
                    if type(x) is int and type(y) is int:
                        return fast(x, y, w, sg)
                    return I.binop(op, x, y, w, sg)
                return bi
            return lambda L: I.binop(op, a(L), b(L), w, sg)
        if k == "un":
            a = self.cop(f, r[2]); op = r[1]
            tid = self.optype(f, r[2])
            return lambda L: I.unop(op, a(L), tid)
        if k == "cast":
            a = self.cop(f, r[2]); kind, to, fr = r[1], r[3], r[4]
            return lambda L: I.cast(kind, a(L), to, fr)
        if k == "discr":
            rd = self.cread(f, r[1]); tid = r[2]
            return lambda L: I.discr(rd(L), tid)
        if k == "agg":
            kind = r[1]; ops = [self.cop(f, o) for o in r[2]]; tid = r[3]
            if kind == "arr": return lambda L: Arr([o(L) for o in ops])
            if kind == "tup": return lambda L: Agg(tid, 0, [o(L) for o in ops])
            if kind == "rawptr":
                def rp(L):
                    p, m = ops[0](L), ops[1](L)
                    if isinstance(p, Ref) and isinstance(m, int): return SRef(p.c, p.k, m)
                    return p
                return rp
            if kind[0] == "adt":
                var = kind[2]; active = kind[3]
                F = self.fieldty.get(self.types[tid]["s"])
                if active is not None:
                    return lambda L: ops[0](L)
                if F is not None:
                    def mkfe(L):
                        return I.field_build(F, [o(L) for o in ops])
                    return mkfe
                return lambda L: Agg(tid, var, [o(L) for o in ops])
            if kind[0] == "clo":
                ct = kind[1]
                return lambda L: Agg(ct, 0, [o(L) for o in ops])
            raise Undecided("aggregate %s" % kind)
        if k == "repeat":
            a = self.cop(f, r[1]); n = r[2]
            def rep(L):
                v = a(L)
                return Arr([copyval(v) for _ in range(n)])
            return rep
        if k == "tls":
            def tl(L): raise Undecided("thread local")
            return tl
        def other(L): raise Undecided("rvalue %s" % k)
        return other

    def field_build(self, F, ops):
        raise Undecided("field element built from its representation")

    def optype(self, f, op):
        if op[0] == "k": return op[1]
        t = None
        for t in self.placetypes(f, op[1]): pass
        return t

    # ---------------------------------------------------------------- scalar operations
    def binop(self, op, x, y, w, sg):
        tx, ty_ = type(x), type(y)
        if tx is bool and ty_ is bool or tx is bool and ty_ is int or tx is int and ty_ is bool or (tx is int and ty_ is int):
            fn = FAST.get(op)
            if fn is None: return self.slowop(op, int(x), int(y), w, sg)
            if tx is bool and op in ("BitAnd", "BitOr", "BitXor"): return bool(fn(int(x), int(y), w, sg))
            return fn(int(x), int(y), w, sg)
        if tx is float or ty_ is float: return self.floatop(op, x, y)
        x, y = self.resolve(x), self.resolve(y)
        tx, ty_ = type(x), type(y)
        if tx in (int, bool) and ty_ in (int, bool): return self.binop(op, x, y, w, sg)
        if tx is Phi or ty_ is Phi:
            if tx is Phi: return ite(x.c, self.binop(op, x.a, y, w, sg), self.binop(op, x.b, y, w, sg))
            return ite(y.c, self.binop(op, x, y.a, w, sg), self.binop(op, x, y.b, w, sg))
        if (tx is Ref or tx is SRef) and op in ("Eq", "Ne"):
            e = tx is ty_ and ((tx is Ref and x.c is y.c and x.k == y.k))
            return e if op == "Eq" else not e
        if op == "Offset":
            if tx is Ref and ty_ is int: return Ref(x.c, x.k + y)
            raise Undecided("pointer offset")
        if isinstance(x, (Term, bool)) and isinstance(y, (Term, bool)) and (isinstance(x, bool) or x.w == 1) and (isinstance(y, bool) or y.w == 1):
            if op == "BitAnd": return t_and(x, y)
            if op == "BitOr": return t_or(x, y)
            if op in ("BitXor", "Ne"): return t_xor(x, y)
            if op == "Eq": return t_not(t_xor(x, y))
        for (p, q, sw) in ((x, y, 0), (y, x, 1)):
            if isinstance(p, Term) and p.op == "ite" and isinstance(q, int):
                g = (lambda a: self.binop(op, q, a, w, sg)) if sw else (lambda a: self.binop(op, a, q, w, sg))
                return ite(p.args[0], g(p.args[1]), g(p.args[2]))
        return self.absop(op, x, y, w, sg)
    def floatop(self, op, x, y):
        if type(x) in (int, float) and type(y) in (int, float):
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y, "Lt": lambda: x < y, "Gt": lambda: x > y,
                    "Le": lambda: x <= y, "Ge": lambda: x >= y, "Eq": lambda: x == y, "Ne": lambda: x != y}[op]()
        raise Undecided("float")
    def slowop(self, op, x, y, w, sg):
        m = (1 << w) - 1
        def nz(n):
            n &= m
            return n - (1 << w) if sg and n >> (w - 1) else n
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            e = {"A": x + y, "S": x - y, "M": x * y}[op[0]]
            r = nz(e)
            return Agg(None, 0, [r, r != e])
        if op == "Cmp": return Agg(None, (x > y) - (x < y) + 1, [])
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"): return FAST[op[:-9]](x, y, w, sg)
        raise Undecided("operator %s" % op)

    def absop(self, op, x, y, w, sg):
        """Integer operator on bit vectors."""
        if not isinstance(x, (int, bool, BV, Term)) or not isinstance(y, (int, bool, BV, Term)):
            raise Undecided("operator %s on %s, %s" % (op, short(x), short(y)))
        if op.endswith("Unchecked"): op = op[:-9]
        if op in ("BitAnd", "BitOr", "BitXor"):
            A, B = bits_of(x, w), bits_of(y, w)
            o = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op]
            return bv(bit_op(o, a, b) for a, b in zip(A, B))
        if op in ("Shl", "Shr"):
            if not isinstance(y, int):
                y = self.resolve(y)
            if not isinstance(y, int): return self.opaque(op, x, y, w)
            y &= w - 1
            A = bits_of(x, w)
            if op == "Shl": return bv((0,) * y + A[:w - y])
            return bv(A[y:] + ((A[-1],) * y if sg else (0,) * y))
        A, B = bits_of(x, w), bits_of(y, w)
        if op in ("Add", "Sub", "Mul", "Div", "Rem"):
            if op == "Add":
                if all(a == 0 or b == 0 for a, b in zip(A, B)): return bv(a if b == 0 else b for a, b in zip(A, B))
            if op == "Sub":
                if A == B: return 0
                if bmax(B) == 0: return x
            if op == "Mul":
                for p, q in ((x, B), (y, A)):
                    if isinstance(p, int):
                        if p == 0: return 0
                        if p & (p - 1) == 0:
                            s = p.bit_length() - 1
                            return bv((0,) * s + q[:w - s])
            if op in ("Div", "Rem") and not sg:
                if isinstance(y, int) and y and y & (y - 1) == 0:
                    s = y.bit_length() - 1
                    return bv(A[s:] + (0,) * s) if op == "Div" else bv(A[:s] + (0,) * (w - s))
                if isinstance(y, int) and y and bmax(A) < y: return 0 if op == "Div" else x
                if isinstance(y, int) and y:
                    while A and A[-1] == 0: A = A[:-1]
                    top = bmax(A) // y if op == "Div" else y - 1
                    k = min(w, top.bit_length())
                    return bv_atom(T(op, BV(A), y, w=max(k, 2)), w, k)
            return self.opaque(op, x, y, w)
        if op in ("Eq", "Ne"):
            r = self.int_eq(A, B)
            return r if op == "Eq" else t_not(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op in ("Gt", "Ge"): A, B = B, A; op = {"Gt": "Lt", "Ge": "Le"}[op]
            if not sg:
                if op == "Lt":
                    if bmax(A) < bmin(B): return True
                    if bmin(A) >= bmax(B): return False
                else:
                    if bmax(A) <= bmin(B): return True
                    if bmin(A) > bmax(B): return False
            if A == B: return op == "Le"
            if op == "Le": return t_not(T("lt", B, A))
            return T("lt", A, B)
        if op == "Cmp":
            lt = self.absop("Lt", x, y, w, sg); e = self.absop("Eq", x, y, w, sg)
            return ite(lt, Agg(None, 0, []), ite(e, Agg(None, 1, []), Agg(None, 2, [])))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            b = op[:3]
            r = self.absop(b, x, y, w, sg)
            if b == "Add" and not sg and bmax(A) + bmax(B) < (1 << w): return Agg(None, 0, [r, False])
            return Agg(None, 0, [r, T("overflow", b, A, B)])
        raise Undecided("operator %s" % op)
    def int_eq(self, A, B):
        if A == B: return True
        rest = []
        for a, b in zip(A, B):
            if isinstance(a, int) and isinstance(b, int):
                if a != b: return False
            elif a != b: rest.append((a, b))
        if len(rest) == 1:
            a, b = rest[0]
            if isinstance(b, int): a, b = b, a
            if isinstance(a, int): return bit_term(b) if a else t_not(bit_term(b))
        ka, kb = sorted((tuple(a for a, _ in rest), tuple(b for _, b in rest)), key=okey)
        return T("eq", ka, kb)
    def opaque(self, op, x, y, w):
        if op in ("Add", "Mul"): x, y = sorted((x, y), key=okey)
        return bv_atom(T(op, x, y, w=w))

    def unop(self, op, v, tid):
        v = self.resolve(v)
        if op == "PtrMetadata":
            if isinstance(v, SRef): return v.n
            if isinstance(v, str): return len(v.encode())
            if isinstance(v, Vec): return len(v.f)
            raise Undecided("length of %s" % short(v))
        t = self.types[tid]
        if op == "Not":
            if t["k"] == "bool": return t_not(v)
            w, sg = self.width(tid)
            if isinstance(v, int): return self.norm(~v, tid)
            return bv(bit_not(b) for b in bits_of(v, w))
        if op == "Neg":
            if isinstance(v, float): return -v
            if isinstance(v, int): return self.norm(-v, tid)
            w, sg = self.width(tid)
            return self.opaque("Neg", v, 0, w)
        raise Undecided("unary %s" % op)

    def cast(self, kind, v, to, fr):
        if kind == "IntToInt":
            v = self.resolve(v)
            if isinstance(v, bool): v = int(v)
            if isinstance(v, Agg):     # fieldless enum
                v = self.discr(v, fr)
                if isinstance(v, int) and v == 255 and self.types[fr]["s"].endswith("cmp::Ordering"): v = -1
            if isinstance(v, int):
                if v > 127 and self.types[fr]["k"] == "int" and v >> (self.width(fr)[0] - 1) == 1: v -= 1 << self.width(fr)[0]   # a discriminant as stored
                return self.norm(v, to)
            if isinstance(v, Phi): return ite(v.c, self.cast(kind, v.a, to, fr), self.cast(kind, v.b, to, fr))
            w, sg = self.width(to)
            if isinstance(v, Term) and v.op == "ite":
                return ite(v.args[0], self.cast(kind, v.args[1], to, fr), self.cast(kind, v.args[2], to, fr))
            fw, fsg = self.width(fr)
            b = bits_of(v, fw)
            if w > fw and fsg: b = b + (b[-1],) * (w - fw)
            return bv((b + (0,) * w)[:w])
        if kind == "pc:Unsize":
            if isinstance(v, Ref):
                x = v.c[v.k]
                e = self.types[to]
                inner = self.types[e["e"]] if e.get("e") is not None else None
                if inner and inner["k"] == "slice":
                    if isinstance(x, (Arr, Vec)): return SRef(x.f, 0, len(x.f))
                    raise Undecided("unsize %s" % short(x))
                return v
            if isinstance(v, Box):
                tt = self.types[to]
                a = tt.get("a") or []
                if a and self.types[a[0]]["k"] == "slice": return Vec(v.f[0].f)
                return v
            return v
        if kind == "BoxDerefTransmute":
            return v
        if kind in ("PtrToPtr", "pc:MutToConstPointer", "Transmute", "pc:ClosureFnPointer(Safe)", "pc:ReifyFnPointer", "pc:ReifyFnPointer(Safe)", "Subtype", "pc:UnsafeFnPointer"):
            if kind == "PtrToPtr" and type(v) is Ref:
                a, b = (self.types[self.types[x].get("e")] if self.types[x].get("e") is not None else {} for x in (to, fr))
                if a.get("k") in ("int", "uint") and b.get("k") in ("int", "uint") and a["s"] != b["s"]:
                    return PtrView(v.c, v.k, b, a)
            if kind == "Transmute":
                a, b = self.types[to], self.types[fr]
                if a["k"] in ("int", "uint") and b["k"] in ("int", "uint"): return self.cast("IntToInt", v, to, fr)
            return v
        if kind == "pc:ArrayToPointer":
            x = v.c[v.k]
            return Ref(x.f, 0)
        if kind == "IntToFloat" and isinstance(v, int): return float(v)
        if kind == "FloatToInt" and isinstance(v, float):
            w, sg = self.width(to)
            n = int(v)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return max(lo, min(hi, n))
        if kind == "FloatToFloat": return v
        raise Undecided("cast %s of %s" % (kind, short(v)))

    def discr(self, v, tid):
        v = self.resolve(v)
        if isinstance(v, Phi):
            return ite(v.c, self.discr(v.a, tid), self.discr(v.b, tid))
        if isinstance(v, Agg):
            t = self.types[tid]
            if t["k"] == "adt" and t.get("v") and v.v < len(t["v"]):
                d = t["v"][v.v].get("d")
                return int(d) if d is not None else v.v
            return v.v
        raise Undecided("discriminant of %s" % short(v))

    # ---------------------------------------------------------------- terminators
    def cterm(self, c, t):
        f = c.f; k = t[0]
        if k == "goto": return ("g", t[1])
        if k == "ret": return ("r",)
        if k == "switch":
            op = self.cop(f, t[1])
            w, _ = self.width(t[4]) if t[4] is not None else (64, False)
            m = (1 << w) - 1
            return ("s", op, {int(v) & m: b for v, b in t[2]}, t[3], m)
        if k == "drop": return ("g", t[2])
        if k == "call":
            args = [self.cop(f, a) for a in t[2]]
            if "indirect" in t[1]: args = [self.cop(f, t[1]["indirect"])] + args
            st = self.cstore(f, t[3])
            return ("c", t[1], args, st, t[4], t[5])
        if k == "assert": return ("a", self.cop(f, t[1]), t[2], t[3], t[4], t[5])
        return ("x", k)

    def postdom(self, c):
        """Immediate postdominators over non-cleanup blocks, ignoring blocks that can only diverge."""
        bl = c.f["blocks"]; n = len(bl); EXIT = n
        succ = [[] for _ in range(n + 1)]
        for i, b in enumerate(bl):
            if b["c"]: continue
            t = b["t"]; k = t[0]
            if k == "goto": s = [t[1]]
            elif k == "switch": s = [x for _, x in t[2]] + [t[3]]
            elif k == "drop": s = [t[2]]
            elif k == "call": s = [t[4]] if t[4] is not None else []
            elif k == "assert": s = [t[4]]
            elif k == "ret": s = [EXIT]
            else: s = []
            succ[i] = s
        # blocks reaching EXIT
        pred = [[] for _ in range(n + 1)]
        for i, s in enumerate(succ):
            for x in s: pred[x].append(i)
        live = {EXIT}; st = [EXIT]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live: live.add(p); st.append(p)
        order = []; seen = set()
        def dfs(r):
            stack = [(r, iter(pred[r]))]; seen.add(r)
            while stack:
                x, it = stack[-1]
                for p in it:
                    if p in live and p not in seen:
                        seen.add(p); stack.append((p, iter(pred[p]))); break
                else:
                    stack.pop(); order.append(x)
        dfs(EXIT)
        rpo = {x: i for i, x in enumerate(reversed(order))}
        idom = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                if x == EXIT: continue
                new = None
                for s in succ[x]:
                    if s in idom:
                        if new is None: new = s
                        else:
                            a, b = new, s
                            while a != b:
                                while rpo[a] > rpo[b]: a = idom[a]
                                while rpo[b] > rpo[a]: b = idom[b]
                            new = a
                if new is not None and idom.get(x) != new: idom[x] = new; ch = True
        c.ipd = idom

    def exec(self, c, L, b, stop, at_term=False):
        """Run from block b until block `stop` is reached ('stop') or the function returns ('ret')."""
        blocks = c.blocks
        while True:
            if b == stop and not at_term: return "stop"
            blk = blocks[b] or self.block(c, b)
            if not at_term:
                for s in blk[0]: s(L)
                self.steps += len(blk[0]) + 1
                if self.steps > self.max_steps: raise Undecided("step limit")
            at_term = False
            t = blk[1]; k = t[0]
            if k == "c":
                cal = t[1]
                r = self.call(cal, [a(L) for a in t[2]], t)
                if t[4] is None: raise Panic("diverging call %s" % cal.get("p"))
                t[3](L, r)
                b = t[4]
            elif k == "g": b = t[1]
            elif k == "s":
                v = t[1](L)
                if type(v) is bool: v = int(v)
                if type(v) is not int:
                    v = self.resolve(v)
                    if type(v) is bool: v = int(v)
                if type(v) is int:
                    b = t[2].get(v & t[4], t[3])
                else:
                    r = self.branch(c, L, b, v, t, stop)
                    if r[0] == "ret": return "ret"
                    b = r[1]
                    if b == stop: return "stop"
            elif k == "r": return "ret"
            elif k == "a":
                v = self.resolve(t[1](L))
                if isinstance(v, (bool, int)):
                    if bool(v) != t[2]: raise Panic("assertion (%s) fails" % t[3])
                else:
                    cond = v if t[2] else t_not(v)
                    self.assumed.append((cond, t[3], c.f["p"]))
                b = t[4]
            else:
                if t[1] == "unreach": raise Panic("unreachable")
                raise Undecided("terminator %s" % t[1])

    def pick_cond(self, v, t):
        if isinstance(v, Term):
            if v.op == "ite": return v.args[0]
            if v.w == 1:
                return v.args[0] if v.op == "not" else v
        if isinstance(v, Phi): return v.c
        if isinstance(v, BV):
            for val in t[2]:
                e = self.int_eq(bits_of(v, v.w), bits_of(val, v.w))
                if not isinstance(e, bool) and self.cond_known(e) is None: return e.args[0] if e.op == "not" else e
        return None

    def branch(self, c, L, b, v, t, stop):
        if isinstance(v, BV):
            # a switch on an abstract integer: decide target by equality conditions
            known = None
            for val, tgt in t[2].items():
                e = self.int_eq(bits_of(v, v.w), bits_of(val, v.w))
                k = e if isinstance(e, bool) else self.cond_known(e)
                if k is True: known = tgt; break
                if k is None: known = -1; break
            if known is None: return ("stop", t[3])if False else ("go", t[3])
            if known != -1: return ("go", known)
        cond = self.pick_cond(v, t)
        if cond is None: raise Undecided("branch on %s in %s" % (short(v), c.f["p"]))
        if c.ipd is None: self.postdom(c)
        j = c.ipd.get(b)
        EXIT = len(c.f["blocks"])
        jn = -1 if j is None or j == EXIT else j
        self.brdepth += 1
        if self.brdepth > 48: raise Undecided("branch nesting in %s" % c.f["p"])
        try:
            res = []
            for val in (True, False):
                J.append({})
                saved = self.pc
                self.pc = dict(saved); self.set_pc(cond, val)
                depth = self.depth; stk = len(self.stack)
                try:
                    try:
                        st = self.exec(c, L, b, jn, at_term=True)
                    except Panic as e:
                        st = "panic"
                        self.panics.append((dict(self.pc), cond, val, str(e), c.f["p"]))
                        self.depth = depth; del self.stack[stk:]
                finally:
                    self.pc = saved
                    jr = J.pop()
                final = {}
                for kk, (lst, snap) in jr.items():
                    final[kk] = (lst, dict(lst) if type(lst) is dict else list(lst), snap)
                for kk, (lst, fin, snap) in final.items():
                    if snap is not None: restore(lst, snap)
                res.append((st, final))
            (sa, fa), (sb, fb) = res
            if sa == "panic" and sb == "panic": raise Panic("both arms diverge")
            if sa == "panic" or sb == "panic":
                st, fin = (sb, fb) if sa == "panic" else (sa, fa)
                for kk, (lst, f2, snap) in fin.items():
                    if snap is None: adopt(kk, lst); continue
                    touch(lst); restore(lst, f2)
                self.assumed.append((cond if sb == "panic" else t_not(cond), "panic", c.f["p"]))
                self.set_pc(cond, sb == "panic")     # from here on the panicking side is excluded
                return ("ret",) if st == "ret" else ("go", jn)
            if sa != sb: raise Undecided("arms end differently in %s" % c.f["p"])
            live = None
            def dead(lst):
                """the rest of the function only drops its variables, and nothing that outlives it leads to the object"""
                nonlocal live
                used = (0,) if sa == "ret" else self.tail(c, jn) if jn != -1 else None
                if used is None or lst is L: return False
                if live is None: live = self.reach([self.fargs[-1], self.statics, self.lazy] + [v[l] for v in [L] + [x[id(L)][1] for x in (fa, fb) if id(L) in x] for l in used], (fa, fb))
                return id(lst) not in live
            for kk in list(fa.keys() | fb.keys()):
                lst = (fa.get(kk) or fb.get(kk))[0]
                base = (fa.get(kk) or fb.get(kk))[2]
                if base is None: adopt(kk, lst); continue
                A = fa[kk][1] if kk in fa else base
                B = fb[kk][1] if kk in fb else base
                touch(lst)
                if type(lst) is dict:
                    m = {}
                    if A.keys() != B.keys():
                        if dead(lst): restore(lst, base); continue
                        raise Undecided("maps differ between arms")
                    for x in A: m[x] = A[x] if A[x] is B[x] else [A[x][0], ite(cond, A[x][1], B[x][1])]
                    restore(lst, m)
                    continue
                if len(A) != len(B):
                    if dead(lst): restore(lst, base); continue
                    raise Undecided("lengths differ between arms in %s" % c.f["p"])
                # iterator cursors must agree
                restore(lst, [x if x is y else self.ite_safe(cond, x, y) for x, y in zip(A, B)])
            return ("ret",) if sa == "ret" else ("go", jn)
        finally:
            self.brdepth -= 1
    def tail(self, c, b):
        """The variables read from block b on, when only drops, jumps and moves of values are left; None otherwise."""
        bl = c.f["blocks"]; used = {0}; seen = set(); todo = [b]
        def places(x):
            if isinstance(x, (list, tuple)):
                if len(x) == 2 and type(x[0]) is int and isinstance(x[1], (list, tuple)): used.add(x[0])
                for y in x: places(y)
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i); t = bl[i]["t"]; k = t[0]
            for s in bl[i]["s"]:
                if s[0] in ("dead", "nop"): continue
                if s[0] != "=": return None
                places(s)
            if k == "goto": todo.append(t[1])
            elif k == "drop": todo.append(t[2])
            elif k == "switch": places(t[1]); todo.extend(x for _, x in t[2]); todo.append(t[3])
            elif k != "ret" and not (k == "other" or t[-1] == "unreach"): return None
        return used
    def reach(self, roots, alts):
        """Identities of all containers that can be reached from the roots, in the present state or in those the arms ended with."""
        seen = set(); todo = list(roots); skip = (type, types.ModuleType, Term, Interp, Mir, Fn, types.CodeType, str, int, bytes, float, bool, type(None), types.BuiltinFunctionType)
        while todo:
            o = todo.pop()
            if isinstance(o, skip) or id(o) in seen: continue
            seen.add(id(o))
            for al in alts:
                x = al.get(id(o))
                if x is not None: todo.extend(x[1].values() if type(x[1]) is dict else x[1]); todo.extend(x[1].keys() if type(x[1]) is dict else ())
            if isinstance(o, types.FunctionType):
                todo.extend(c.cell_contents for c in o.__closure__ or () if c != types.CellType()); todo.extend(o.__defaults__ or ())
            else: todo.extend(gc.get_referents(o))
        return seen
    def ite_safe(self, c, x, y):
        return ite(c, x, y)
    def set_pc(self, c, val):
        if isinstance(c, bool): return
        if c.op == "not": return self.set_pc(c.args[0], not val)
        self.pc[c.id] = val
        if c.op == "and" and val:
            for a in c.args: self.set_pc(a, True)
        if c.op == "fzero" and val: pass

    # ---------------------------------------------------------------- calls
    def call(self, cal, args, t=None):
        if "indirect" in cal: return self.call_value(args[0], args[1:])
        r = cal.get("r") or cal["p"]
        h = self.hooks.get(r) or self.hooks.get(cal["p"])
        if h:
            v = h(self, args, cal)
            if v is not NotImplemented: return v
        for pre, h in self.prefix:
            if r.startswith(pre):
                v = h(self, args, cal)
                if v is not NotImplemented: return v
        if cal.get("ctor") is not None:
            a = cal.get("ctor")
            return self.ctor(cal, args, t)
        fid = cal.get("id")
        if fid is not None:
            if "closure#" in r and cal["p"].startswith("core::ops::function::Fn") and len(args) == 2 and type(args[1]) is Agg and self.fns[fid].get("argc") == len(args[1].f) + 1 and self.fns[fid].get("spread") is None:
                args = [args[0]] + list(args[1].f)
            return self.run(fid, args, cal)
        k = model_key(cal["p"])
        m = self.models.get(k)
        if m is None and cal.get("r"): m = self.models.get(model_key(cal["r"]))
        if m is None and args:
            x = args[0]
            while type(x) in (Ref, Box): x = x.c[x.k] if type(x) is Ref else x.f[0]
            if type(x) is Agg and x.ty is not None:      # a trait object: the method of the value's own type
                i = self.mir.impls.get("%d|%s" % (x.ty, cal["p"]))
                if i is not None: return self.run(i, [Ref([x], 0) if type(args[0]) is not Ref else self.inner(args[0])] + list(args[1:]), cal)
        if m is None:
            raise Undecided("no model for %s [%s]" % (cal["p"], k))
        self.leafs[k] = self.leafs.get(k, 0) + 1
        return m(self, args, cal)

    def inner(self, r):
        while True:
            x = r.c[r.k]
            if type(x) is Ref: r = x
            elif type(x) is Box: r = Ref(x.f, 0)
            else: return r
    def ctor(self, cal, args, t):
        name = split_path(cal["p"])[-1]
        v = {"Ok": 0, "Err": 1, "None": 0, "Some": 1, "Continue": 0, "Break": 1}.get(name)
        if v is not None: return Agg(None, v, list(args))
        for a in self.adts_by_ctor(name, cal["p"]): return Agg(a[0], a[1], list(args))
        return Agg(None, 0, list(args))
    def adts_by_ctor(self, name, path):
        ap = "::".join(split_path(path)[:-1])
        for i, tt in enumerate(self.types):
            if tt["k"] == "adt" and tt.get("v") and (tt.get("p") == ap or tt.get("p") == path):
                for j, v in enumerate(tt["v"]):
                    if v["n"] == name: yield (i, j)

    def run(self, fid, args, cal=None):
        c = self.compile(fid)
        f = c.f
        self.called[fid] = self.called.get(fid, 0) + 1
        L = [None] * c.n
        sp = f.get("spread")
        if sp is not None and cal is not None and cal.get("p", "").split("::")[-1] in ("call", "call_mut", "call_once"):
            pass
        for i, a in enumerate(args): L[i + 1] = a
        self.depth += 1
        if self.depth > 400: raise Undecided("recursion depth")
        self.stack.append(f["p"]); self.fargs.append(args)
        saved = self.pc
        self.pc = dict(saved) if saved else {}
        try:
            self.exec(c, L, 0, -1)
        finally:
            self.depth -= 1; self.fargs.pop()
            # keep facts learnt (excluded panics) -- terms are global so they stay valid
            if saved is not self.pc: saved.update({k: v for k, v in self.pc.items() if k not in saved})
            self.pc = saved
        self.stack.pop()
        v = L[0]
        if v is None: v = unit()
        return v

    def call_value(self, fv, args):
        """Call a closure / function item / function pointer value."""
        if isinstance(fv, PyFn): return fv.fn(*args)
        if isinstance(fv, Ref):
            inner = fv.c[fv.k]
            if isinstance(inner, (Agg, FnV, Ref, PyFn, Box)): return self.call_closure(inner, fv, args)
        if isinstance(fv, Box): return self.call_closure(fv.f[0], Ref(fv.f, 0), args)
        return self.call_closure(fv, Ref([fv], 0), args)
    def call_closure(self, v, ref, args):
        if isinstance(v, (Ref, Box)): return self.call_value(v, args)
        if isinstance(v, PyFn): return v.fn(*args)
        if isinstance(v, FnV):
            c = self.types[v.tid].get("c")
            if c is None: raise Undecided("function item")
            return self.call(c, list(args))
        if isinstance(v, Agg) and v.ty is not None and self.types[v.ty]["k"] == "closure":
            t = self.types[v.ty]
            fid = t.get("fn")
            if fid is None: raise Undecided("closure body of %s" % t["s"])
            f = self.fns[fid]
            st = self.types[f["locals"][1]]
            selfv = ref if st["k"] in ("ref", "ptr") else v
            if f.get("spread") is not None:
                return self.run(fid, [selfv, Agg(None, 0, list(args))])
            return self.run(fid, [selfv] + list(args))
        if isinstance(v, Agg) and v.ty is not None and self.types[v.ty]["k"] == "fndef":
            return self.call(self.types[v.ty]["c"], list(args))
        raise Undecided("call of %s" % short(v))

    # ---------------------------------------------------------------- entry points
    def fid(self, path, targs=None):
        l = self.mir.find(path, targs)
        if len(l) != 1:
            raise LookupError("%s %s: %d instances" % (path, targs, len(l)))
        return l[0]
    def invoke(self, path, args, targs=None):
        return self.run(self.fid(path, targs), args)

def restore(lst, snap):
    if type(lst) is dict: lst.clear(); lst.update(snap)
    else: lst[:] = snap

def _wrap(fn):
    def g(x, y, w, sg):
        n = fn(x, y) & ((1 << w) - 1)
        return n - (1 << w) if sg and n >> (w - 1) else n
    return g
def _div(x, y, w, sg):
    if y == 0: raise Panic("division by zero")
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q
def _rem(x, y, w, sg):
    if y == 0: raise Panic("division by zero")
    r = abs(x) % abs(y)
    return -r if x < 0 else r
FAST = {
    "Add": _wrap(lambda x, y: x + y), "Sub": _wrap(lambda x, y: x - y), "Mul": _wrap(lambda x, y: x * y),
    "Div": _div, "Rem": _rem, "BitAnd": _wrap(lambda x, y: x & y), "BitOr": _wrap(lambda x, y: x | y), "BitXor": _wrap(lambda x, y: x ^ y),
    "Shl": lambda x, y, w, sg: _wrap(lambda a, b: a << (b & (w - 1)))(x, y, w, sg),
    "Shr": lambda x, y, w, sg: x >> (y & (w - 1)),
    "Eq": lambda x, y, w, sg: x == y, "Ne": lambda x, y, w, sg: x != y, "Lt": lambda x, y, w, sg: x < y,
    "Le": lambda x, y, w, sg: x <= y, "Gt": lambda x, y, w, sg: x > y, "Ge": lambda x, y, w, sg: x >= y,
}
