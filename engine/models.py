"""Models of the standard-library (and a few third-party) functions the analysed code calls."""
import functools, re
from dom import *
import aeval as A, dom
from aeval import PtrView, Agg, Arr, Vec, Box, StrObj, SymStr, MapObj, Ref, SRef, Phi, FnV, PyFn, Opaque, Seq, Gen, STOP, touch, copyval, clone, ite, same, unit, short

M = {}
def m(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

def install(I):
    I.models = dict(M)
    I.const_hooks = {}

# ------------------------------------------------------------------ helpers
def some(v): return Agg(None, 1, [v])
def none(): return Agg(None, 0, [])
def ok(v): return Agg(None, 0, [v])
def err(v=None): return Agg(None, 1, [v if v is not None else Opaque("error")])
def opt(v): return none() if v is STOP else some(v)

def deref(v):
    """Follow references to the value itself."""
    while True:
        if type(v) is Ref: v = v.c[v.k]
        elif type(v) is Box: v = v.f[0]
        else: return v

def d1(v):
    return v.c[v.k] if type(v) is Ref else v

def slot(r, I=None):
    """(container, key) of a &mut T."""
    return r.c, r.k

def aslist(v):
    """(list, offset, length) of a slice-like value."""
    v = deref(v)
    t = type(v)
    if t is SRef: return v.l, v.o, v.n
    if t in (Vec, Arr): return v.f, 0, len(v.f)
    if t is StrObj: v = v.f[0]; t = type(v)
    if t is str:
        b = list(v.encode()); return b, 0, len(b)
    raise Undecided("not a slice: %s" % short(v))

def items(v):
    l, o, n = aslist(v)
    return l[o:o + n]

def conc(I, v, what="value"):
    v = I.resolve(v)
    if type(v) is bool: return v
    if type(v) is not int: raise Undecided("abstract %s %s" % (what, short(v)))
    return v

def sval(v):
    """Python str or SymStr behind a string-like value."""
    v = deref(v)
    if type(v) is StrObj: return v.f[0]
    if isinstance(v, (str, SymStr)): return v
    if type(v) is SRef: return bytes(v.items()).decode("latin1")
    raise Undecided("not a string: %s" % short(v))

def cstr(v):
    s = sval(v)
    if isinstance(s, SymStr): raise Undecided("abstract string")
    return s

def pieces(s): return s.pieces if isinstance(s, SymStr) else ((s,) if s else ())
def scat(*ss):
    out = []
    for s in ss:
        for p in pieces(s):
            if out and isinstance(p, str) and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
    if not out: return ""
    if len(out) == 1 and isinstance(out[0], str): return out[0]
    return SymStr(out)

def hkey(v):
    """Hashable key of a concrete-or-abstract value."""
    v = deref(v)
    t = type(v)
    if t in (int, bool, str): return v
    if t is StrObj: return hkey(v.f[0])
    if t is SymStr: raise Undecided("abstract map key")
    if t is Agg: return (v.v,) + tuple(hkey(x) for x in v.f)
    if t in (Vec, Arr): return ("l",) + tuple(hkey(x) for x in v.f)
    if t is SRef: return ("l",) + tuple(hkey(x) for x in v.items())
    if t is FE and v.is_const(): return v.cval()
    if t is FE and dom.GENERIC is not None: return dom.GENERIC.key(v)
    raise Undecided("map key %s" % short(v))

# ------------------------------------------------------------------ iterators
def range_bounds(I, v):
    return conc(I, v.f[0], "range bound"), conc(I, v.f[1], "range bound")

def is_range(I, v):
    if type(v) is Agg and v.ty is not None:
        p = I.types[v.ty].get("p", "")
        return p.split("::")[-1] if p.startswith("core::ops::range::") else None
    return None

def slice_seq(v, byval=False):
    l, o, n = aslist(v)
    if byval: return Seq(n, lambda i: l[o + i])
    return Seq(n, lambda i: Ref(l, o + i))

def to_iter(I, v):
    """IntoIterator::into_iter for any value."""
    t = type(v)
    if t in (Seq, Gen) or hasattr(v, "next_back"): return v
    if t is Agg:
        r = is_range(I, v)
        if r == "Range":
            a, b = range_bounds(I, v)
            return Seq(max(a, b), lambda i: i, a)
        if r == "RangeInclusive":
            a, b = range_bounds(I, v)
            return Seq(max(b + 1, a), lambda i: i, a)
        if r == "RangeFrom":
            a = conc(I, v.f[0])
            return Seq(1 << 62, lambda i: i, a)
        if v.ty is not None:
            p = I.types[v.ty].get("p", "")
            if p == "core::option::Option" or v.v in (0, 1) and len(v.f) <= 1 and not I.types[v.ty].get("local"):
                return Seq(len(v.f) if v.v == 1 else 0, lambda i: v.f[0])
            impl = find_impl(I, v.ty, "core::iter::traits::iterator::Iterator::next")
            if impl is not None: return adt_iter(I, [v], impl)
        elif v.v == 1 and len(v.f) == 1: return Seq(1, lambda i: v.f[0])
        elif v.v == 0 and not v.f: return Seq(0, None)
        raise Undecided("into_iter of %s" % short(v))
    if t in (Vec, Arr):
        l = v.f
        return Seq(len(l), lambda i: l[i])
    if t is SRef: return slice_seq(v)
    if t is Ref:
        x = v.c[v.k]
        if type(x) in (Seq, Gen) or hasattr(x, "next_back"): return x
        if type(x) in (Vec, Arr): return slice_seq(v)
        if type(x) is SRef: return slice_seq(x)
        if type(x) is MapObj: return map_iter(x)
        if type(x) is Box: return to_iter(I, Ref(x.f, 0))
        if type(x) is Agg:
            r = is_range(I, x)
            if r: return range_ref_iter(I, v)
            if x.ty is not None and I.types[x.ty].get("p") == "core::option::Option" or (x.ty is None and len(x.f) <= 1):
                return Seq(len(x.f) if x.v == 1 else 0, lambda i: Ref(x.f, 0))
            impl = find_impl(I, x.ty, "core::iter::traits::iterator::Iterator::next")
            if impl is not None: return adt_iter(I, v, impl)
    if t is MapObj: return map_iter(v, True)
    if t is Box: return to_iter(I, v.f[0])
    raise Undecided("into_iter of %s" % short(v))

def adt_iter(I, holder, impl):
    r = Ref(holder, 0) if isinstance(holder, list) else holder
    def pull():
        o = I.resolve(I.run(impl, [r]))
        if not isinstance(o, Agg): raise Undecided("abstract iterator")
        return STOP if o.v == 0 else o.f[0]
    return Gen(pull)

def range_ref_iter(I, ref):
    """Iterator over &mut Range (mutates the range in place)."""
    def pull():
        x = ref.c[ref.k]
        return range_next(I, x)
    return Gen(pull)

def range_next(I, x):
    kind = is_range(I, x)
    a = conc(I, x.f[0], "range bound")
    if kind == "RangeFrom":
        touch(x.f); x.f[0] = a + 1
        return a
    b = conc(I, x.f[1], "range bound")
    if kind == "RangeInclusive":
        if a <= b and not (len(x.f) > 2 and x.f[2]):
            touch(x.f)
            if a == b and len(x.f) > 2: x.f[2] = True
            else: x.f[0] = a + 1
            return a
        return STOP
    if a < b:
        touch(x.f); x.f[0] = a + 1
        return a
    return STOP

def map_sorted(mo):
    ks = list(mo.d)
    if mo.kind.startswith("btree"):
        try: ks.sort()
        except TypeError: ks.sort(key=repr)
    return ks
def map_iter(mo, byval=False):
    ks = map_sorted(mo)
    isset = mo.kind.endswith("set")
    def g(i):
        e = mo.d[ks[i]]
        if isset: return e[0] if byval else Ref(e, 0)
        if byval: return Agg(None, 0, [e[0], e[1]])
        return Agg(None, 0, [Ref(e, 0), Ref(e, 1)])
    return Seq(len(ks), g)

def find_impl(I, tid, method):
    if tid is None: return None
    for k in ("%d|%s" % (tid, method),):
        if k in I.mir.impls: return I.mir.impls[k]
    return None

def it_arg(I, v):
    """An iterator receiver (by value or &mut)."""
    if type(v) is Ref:
        x = v.c[v.k]
        if type(x) is Agg and is_range(I, x): return range_ref_iter(I, v)
        return it_arg(I, x) if type(x) in (Ref, Box, Seq, Gen) else to_iter(I, v)
    if type(v) is Agg:
        return to_iter(I, v)
    return to_iter(I, v)

def drain(I, it):
    out = []
    while True:
        x = it.next()
        if x is STOP: return out
        out.append(x)
        if len(out) > 5_000_000: raise Undecided("unbounded iterator")

@m("IntoIterator::into_iter", "IntoParallelIterator::into_par_iter", "ParallelBridge::par_bridge",
   "ParallelIterator::into_par_iter", "Iterator::fuse", "IndexedParallelIterator::with_min_len", "IndexedParallelIterator::with_max_len",
   "IntoParallelRefIterator::par_iter", "IntoParallelRefMutIterator::par_iter_mut")
def into_iter(I, a, c):
    v = a[0]
    if type(v) is Agg and is_range(I, v) in ("Range", "RangeInclusive", "RangeFrom"): return v if c["p"].endswith("into_iter") else to_iter(I, v)
    if type(v) is Ref and type(v.c[v.k]) in (Seq, Gen): return v
    return to_iter(I, v)

@m("Iterator::by_ref")
def by_ref(I, a, c): return a[0]
@m("[T]::iter", "[T]::iter_mut", "Vec::iter", "VecDeque::iter", "VecDeque::iter_mut")
def sl_iter(I, a, c): return slice_seq(a[0])

@m("Option::iter", "Option::iter_mut")
def opt_iter(I, a, c): return to_iter(I, a[0])

@m("Iterator::next")
def it_next(I, a, c):
    r = a[0]
    x = r.c[r.k] if type(r) is Ref else r
    while type(x) in (Ref, Box):
        r = x if type(x) is Ref else Ref(x.f, 0)
        x = r.c[r.k]
    if type(x) is Agg:
        if is_range(I, x): return opt(range_next(I, x))
        return opt(to_iter(I, r).next())
    if type(x) is Phi: raise Undecided("joined iterator")
    return opt(x.next())

@m("DoubleEndedIterator::next_back")
def it_next_back(I, a, c):
    r = a[0]; x = deref(r)
    if type(x) is Agg:
        aa, b = range_bounds(I, x)
        if is_range(I, x) == "Range" and aa < b:
            touch(x.f); x.f[1] = b - 1
            return some(b - 1)
        if is_range(I, x) == "Range": return none()
        raise Undecided("next_back")
    return opt(x.next_back())

@m("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def it_enum(I, a, c):
    it = to_iter(I, a[0])
    if type(it) is Seq:
        o = it.st[0]
        return Seq(it.len(), lambda i: Agg(None, 0, [i, it.g(o + i)]))
    n = [0]
    def pull():
        x = it.next()
        if x is STOP: return STOP
        touch(n); n[0] += 1
        return Agg(None, 0, [n[0] - 1, x])
    return Gen(pull)

@m("Iterator::map", "ParallelIterator::map")
def it_map(I, a, c):
    it = to_iter(I, a[0]); f = Ref([a[1]], 0)
    if type(it) is Seq:
        o = it.st[0]
        return Seq(it.len(), lambda i: I.call_value(f, [it.g(o + i)]))
    def pull():
        x = it.next()
        return STOP if x is STOP else I.call_value(f, [x])
    return Gen(pull)

@m("Iterator::zip", "IndexedParallelIterator::zip", "IndexedParallelIterator::zip_eq", "Itertools::zip_eq", "iter::zip", "zip::zip", "zip_eq_impl::zip_eq")
def it_zip(I, a, c):
    x, y = to_iter(I, a[0]), to_iter(I, a[1])
    if type(x) is Seq and type(y) is Seq:
        if "zip_eq" in c["p"] and x.len() != y.len(): raise Panic("zip_eq of different lengths")
        o, p = x.st[0], y.st[0]
        return Seq(min(x.len(), y.len()), lambda i: Agg(None, 0, [x.g(o + i), y.g(p + i)]))
    def pull():
        u = x.next()
        if u is STOP: return STOP
        v = y.next()
        if v is STOP: return STOP
        return Agg(None, 0, [u, v])
    return Gen(pull)

@m("Iterator::rev", "IndexedParallelIterator::rev")
def it_rev(I, a, c):
    it = to_iter(I, a[0])
    if type(it) is Seq:
        b = it.st[1]
        return Seq(it.len(), lambda i: it.g(b - 1 - i))
    return Gen(it.next_back, it.next)

@m("Iterator::step_by", "IndexedParallelIterator::step_by")
def it_step(I, a, c):
    it = to_iter(I, a[0]); k = conc(I, a[1], "step")
    if k == 0: raise Panic("step_by(0)")
    if type(it) is not Seq: raise Undecided("step_by")
    o = it.st[0]
    return Seq((it.len() + k - 1) // k, lambda i: it.g(o + i * k))

@m("Iterator::skip", "IndexedParallelIterator::skip")
def it_skip(I, a, c):
    it = to_iter(I, a[0]); k = conc(I, a[1], "skip")
    if type(it) is Seq:
        s = Seq(it.st[1], it.g, min(it.st[0] + k, it.st[1])); return s
    first = [k]
    def pull():
        while first[0]:
            touch(first); first[0] -= 1
            if it.next() is STOP: return STOP
        return it.next()
    return Gen(pull)

@m("Iterator::take", "IndexedParallelIterator::take")
def it_take(I, a, c):
    it = it_arg(I, a[0]); k = conc(I, a[1], "take")
    if type(it) is Seq and type(a[0]) is not Ref:
        return Seq(min(it.st[1], it.st[0] + k), it.g, it.st[0])
    left = [k]
    def pull():
        if left[0] <= 0: return STOP
        touch(left); left[0] -= 1
        return it.next()
    return Gen(pull)

@m("Iterator::chain")
def it_chain(I, a, c):
    x, y = to_iter(I, a[0]), to_iter(I, a[1])
    if type(x) is Seq and type(y) is Seq:
        n = x.len(); o, p = x.st[0], y.st[0]
        return Seq(n + y.len(), lambda i: x.g(o + i) if i < n else y.g(p + i - n))
    def pull():
        v = x.next()
        return y.next() if v is STOP else v
    return Gen(pull)

@m("Iterator::cloned", "Iterator::copied", "ParallelIterator::cloned", "ParallelIterator::copied")
def it_cloned(I, a, c):
    it = to_iter(I, a[0])
    if type(it) is Seq:
        o = it.st[0]
        return Seq(it.len(), lambda i: clone_val(I, d1(it.g(o + i))))
    def pull():
        x = it.next()
        return STOP if x is STOP else clone_val(I, d1(x))
    return Gen(pull)

def truth(I, v, what="predicate"):
    v = I.resolve(v)
    if isinstance(v, (bool, int)): return bool(v)
    raise Undecided("abstract %s %s" % (what, short(v)))

@m("Iterator::filter", "ParallelIterator::filter")
def it_filter(I, a, c):
    it = to_iter(I, a[0]); f = Ref([a[1]], 0)
    def mk(nx):
        def pull():
            while True:
                x = nx()
                if x is STOP: return STOP
                if truth(I, I.call_value(f, [Ref([x], 0)])): return x
        return pull
    return Gen(mk(it.next), mk(it.next_back))

@m("Iterator::filter_map", "ParallelIterator::filter_map")
def it_filter_map(I, a, c):
    it = to_iter(I, a[0]); f = Ref([a[1]], 0)
    def pull():
        while True:
            x = it.next()
            if x is STOP: return STOP
            r = I.resolve(I.call_value(f, [x]))
            if not isinstance(r, Agg): raise Undecided("filter_map")
            if r.v == 1: return r.f[0]
    return Gen(pull)

@m("Iterator::flat_map", "ParallelIterator::flat_map", "ParallelIterator::flat_map_iter")
def it_flat_map(I, a, c):
    return flatten(I, it_map(I, a, c))
def flatten(I, it):
    cur = [None]
    def pull():
        while True:
            if cur[0] is not None:
                x = cur[0].next()
                if x is not STOP: return x
            nx = it.next()
            if nx is STOP: return STOP
            touch(cur); cur[0] = to_iter(I, nx)
    return Gen(pull)
@m("Iterator::flatten", "ParallelIterator::flatten", "ParallelIterator::flatten_iter")
def it_flatten(I, a, c): return flatten(I, to_iter(I, a[0]))

@m("Iterator::take_while")
def it_take_while(I, a, c):
    it = to_iter(I, a[0]); f = Ref([a[1]], 0); done = [False]
    def pull():
        if done[0]: return STOP
        x = it.next()
        if x is STOP: return STOP
        if truth(I, I.call_value(f, [Ref([x], 0)])): return x
        touch(done); done[0] = True
        return STOP
    return Gen(pull)
@m("Iterator::skip_while")
def it_skip_while(I, a, c):
    it = to_iter(I, a[0]); f = Ref([a[1]], 0); done = [False]
    def pull():
        while True:
            x = it.next()
            if x is STOP or done[0]: return x
            if not truth(I, I.call_value(f, [Ref([x], 0)])):
                touch(done); done[0] = True
                return x
    return Gen(pull)
@m("Iterator::inspect")
def it_inspect(I, a, c):
    it = to_iter(I, a[0]); f = Ref([a[1]], 0)
    def pull():
        x = it.next()
        if x is not STOP: I.call_value(f, [Ref([x], 0)])
        return x
    return Gen(pull)
@m("Iterator::scan")
def it_scan(I, a, c):
    it = to_iter(I, a[0]); st = [a[1]]; f = Ref([a[2]], 0)
    def pull():
        x = it.next()
        if x is STOP: return STOP
        r = I.resolve(I.call_value(f, [Ref(st, 0), x]))
        if not isinstance(r, Agg): raise Undecided("scan")
        return r.f[0] if r.v == 1 else STOP
    return Gen(pull)
@m("successors::successors", "iter::successors")
def it_succ(I, a, c):
    st = [a[0]]; f = Ref([a[1]], 0)
    def pull():
        cur = I.resolve(st[0])
        if cur.v == 0: return STOP
        v = cur.f[0]
        st[0] = I.call_value(f, [Ref([clone(v)], 0)])
        return v
    return Gen(pull)
@m("repeat::repeat", "iter::repeat")
def it_repeat(I, a, c):
    v = a[0]
    return Seq(1 << 62, lambda i: clone_val(I, v))
@m("once::once", "iter::once")
def it_once(I, a, c):
    v = a[0]
    return Seq(1, lambda i: v)
@m("empty::empty", "iter::empty")
def it_empty(I, a, c): return Seq(0, None)
@m("repeat_n::repeat_n", "repeat_with::repeat_with")
def it_repn(I, a, c):
    if "with" in c["p"]:
        f = Ref([a[0]], 0); return Gen(lambda: I.call_value(f, []))
    v = a[0]; return Seq(conc(I, a[1]), lambda i: clone_val(I, v))
@m("Iterator::cycle")
def it_cycle(I, a, c):
    it = to_iter(I, a[0])
    if type(it) is not Seq: raise Undecided("cycle")
    o, n = it.st[0], it.len()
    return Seq(1 << 62 if n else 0, lambda i: it.g(o + i % n))
@m("Iterator::peekable")
def it_peekable(I, a, c):
    return Peek(to_iter(I, a[0]))
class Peek:
    def __init__(self, it): self.it = it; self.buf = []
    def next(self):
        if self.buf:
            touch(self.buf); return self.buf.pop()
        return self.it.next()
    def next_back(self):
        if self.buf: raise Undecided("peek back")
        return self.it.next_back()
    def clone(self): raise Undecided("clone")
@m("Peekable::peek")
def peek(I, a, c):
    p = deref(a[0])
    if not p.buf:
        x = p.it.next()
        if x is STOP: return none()
        touch(p.buf); p.buf.append(x)
    return some(Ref(p.buf, 0))

@m("Iterator::for_each", "ParallelIterator::for_each")
def it_for_each(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0)
    while True:
        x = it.next()
        if x is STOP: return unit()
        I.call_value(f, [x])
@m("ParallelIterator::for_each_with")
def par_for_each_with(I, a, c):
    it = it_arg(I, a[0]); st = [a[1]]; f = Ref([a[2]], 0)
    while True:
        x = it.next()
        if x is STOP: return unit()
        I.call_value(f, [Ref(st, 0), x])
@m("Iterator::try_for_each", "ParallelIterator::try_for_each", "Iterator::try_fold")
def it_try_for_each(I, a, c):
    it = it_arg(I, a[0])
    fold = c["p"].endswith("try_fold")
    f = Ref([a[2 if fold else 1]], 0); acc = a[1] if fold else None
    while True:
        x = it.next()
        if x is STOP: break
        r = I.resolve(I.call_value(f, [acc, x] if fold else [x]))
        if not isinstance(r, Agg): raise Undecided("try_for_each")
        isopt = r.v == 0 and not r.f and len(c.get("a", [])) > 2 and "Option" in I.types[c["a"][-1]]["s"][:20]
        if isopt or (r.v == 1 and not ("option::Option" in I.types[c["a"][-1]]["s"][:30])): return r
        if fold: acc = r.f[0]
    if "option::Option" in I.types[c["a"][-1]]["s"][:30]: return some(acc if fold else unit())
    return ok(acc if fold else unit())

@m("Iterator::fold")
def it_fold(I, a, c):
    it = it_arg(I, a[0]); acc = a[1]; f = Ref([a[2]], 0)
    while True:
        x = it.next()
        if x is STOP: return acc
        acc = I.call_value(f, [acc, x])
@m("DoubleEndedIterator::rfold")
def it_rfold(I, a, c):
    it = it_arg(I, a[0]); acc = a[1]; f = Ref([a[2]], 0)
    while True:
        x = it.next_back()
        if x is STOP: return acc
        acc = I.call_value(f, [acc, x])
@m("ParallelIterator::reduce")
def par_reduce(I, a, c):
    it = it_arg(I, a[0]); acc = I.call_value(a[1], []); f = Ref([a[2]], 0)
    while True:
        x = it.next()
        if x is STOP: return acc
        acc = I.call_value(f, [acc, x])
@m("ParallelIterator::fold")
def par_fold(I, a, c):
    it = it_arg(I, a[0]); acc = I.call_value(a[1], []); f = Ref([a[2]], 0)
    while True:
        x = it.next()
        if x is STOP: break
        acc = I.call_value(f, [acc, x])
    return Seq(1, lambda i: acc)
@m("Iterator::reduce", "ParallelIterator::reduce_with")
def it_reduce(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0)
    acc = it.next()
    if acc is STOP: return none()
    while True:
        x = it.next()
        if x is STOP: return some(acc)
        acc = I.call_value(f, [acc, x])

@m("Iterator::sum", "ParallelIterator::sum", "Iterator::product", "ParallelIterator::product")
def it_sum(I, a, c):
    it = it_arg(I, a[0]); prod = c["p"].endswith("product")
    tid = c["a"][1]
    w, sg = I.width(tid)
    t = I.types[tid]
    if t["s"] in I.fieldty:
        F = I.fieldty[t["s"]]; acc = F.one if prod else F.zero
        while True:
            x = it.next()
            if x is STOP: return acc
            x = deref(x); acc = fmul(acc, x) if prod else fadd(acc, x)
    if t["k"] not in ("int", "uint"): 
        impl = find_impl(I, tid, "core::iter::traits::accum::%s::%s" % (("Product", "product") if prod else ("Sum", "sum")))
        raise Undecided("sum of %s" % t["s"])
    acc = 1 if prod else 0
    while True:
        x = it.next()
        if x is STOP: return acc
        acc = I.binop("Mul" if prod else "Add", acc, deref(x), w, sg)
@m("Iterator::count", "IndexedParallelIterator::len", "ExactSizeIterator::len", "ParallelIterator::count")
def it_count(I, a, c):
    x = deref(a[0]) if c["p"].endswith("len") else a[0]
    it = to_iter(I, x)
    if type(it) is Seq: return it.len()
    return len(drain(I, it))
@m("Iterator::last")
def it_last(I, a, c):
    l = drain(I, it_arg(I, a[0])); return some(l[-1]) if l else none()
@m("Iterator::nth")
def it_nth(I, a, c):
    it = it_arg(I, a[0]); k = conc(I, a[1])
    for _ in range(k):
        if it.next() is STOP: return none()
    return opt(it.next())
@m("Iterator::size_hint")
def it_size_hint(I, a, c):
    it = deref(a[0]); n = to_iter(I, it).len()
    return Agg(None, 0, [n, some(n)])

def pred_fold(I, it, f, wrap):
    while True:
        x = it.next()
        if x is STOP: return
        yield x, I.resolve(I.call_value(f, [wrap(x)]))

@m("Iterator::all", "ParallelIterator::all")
def it_all(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0)
    acc = True
    for x, r in pred_fold(I, it, f, lambda x: x):
        acc = t_and(acc, bool(r) if isinstance(r, int) else r)
        if acc is False: return False
    return acc
@m("Iterator::any", "ParallelIterator::any")
def it_any(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0)
    acc = False
    for x, r in pred_fold(I, it, f, lambda x: x):
        acc = t_or(acc, bool(r) if isinstance(r, int) else r)
        if acc is True: return True
    return acc
@m("Iterator::find", "ParallelIterator::find_first", "ParallelIterator::find_any")
def it_find(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0)
    for x, r in pred_fold(I, it, f, lambda x: Ref([x], 0)):
        if truth(I, r): return some(x)
    return none()
@m("Iterator::find_map")
def it_find_map(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0)
    for x, r in pred_fold(I, it, f, lambda x: x):
        if not isinstance(r, Agg): raise Undecided("find_map")
        if r.v == 1: return r
    return none()
@m("Iterator::position", "IndexedParallelIterator::position_first", "IndexedParallelIterator::position_any")
def it_position(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0)
    for i, (x, r) in enumerate(pred_fold(I, it, f, lambda x: x)):
        if truth(I, r): return some(i)
    return none()
@m("Iterator::rposition")
def it_rposition(I, a, c):
    l = drain(I, it_arg(I, a[0])); f = Ref([a[1]], 0)
    for i in range(len(l) - 1, -1, -1):
        if truth(I, I.call_value(f, [l[i]])): return some(i)
    return none()
@m("Iterator::partition")
def it_partition(I, a, c):
    it = it_arg(I, a[0]); f = Ref([a[1]], 0); x1, x2 = [], []
    for x, r in pred_fold(I, it, f, lambda x: Ref([x], 0)): (x1 if truth(I, r) else x2).append(x)
    t = c["a"][1] if len(c.get("a", [])) > 1 else None
    return Agg(None, 0, [by_elem(I, t, x1), by_elem(I, t, x2)])
def by_elem(I, tid, l):
    """A collection of what references point to when its elements are not references."""
    if isinstance(tid, int) and I.types[tid].get("p") != "alloc::vec::Vec": raise Undecided("collect into %s" % I.types[tid]["s"])
    if isinstance(tid, int) and I.types[I.types[tid]["a"][0]]["k"] != "ref": l = [clone_val(I, d1(x)) if type(x) is Ref else x for x in l]
    return Vec(l)
@m("Iterator::unzip", "ParallelIterator::unzip")
def it_unzip(I, a, c):
    l = drain(I, it_arg(I, a[0]))
    return Agg(None, 0, [Vec([x.f[0] for x in l]), Vec([x.f[1] for x in l])])

def cmp_vals(I, x, y):
    """-1/0/1 for concrete values."""
    x, y = deref(x), deref(y)
    x, y = I.resolve(x), I.resolve(y)
    if type(x) is StrObj: x = x.f[0]
    if type(y) is StrObj: y = y.f[0]
    if type(x) in (int, bool) and type(y) in (int, bool): return (x > y) - (x < y)
    if type(x) is str and type(y) is str:
        x, y = x.encode(), y.encode()
        return (x > y) - (x < y)
    if type(x) is Agg and type(y) is Agg:
        if x.ty is not None and I.types[x.ty].get("p") == "core::cmp::Reverse": return cmp_vals(I, y.f[0], x.f[0])
        if x.ty is not None and I.types[x.ty].get("local", True) and (find_impl(I, x.ty, "core::cmp::Ord::cmp") or find_impl(I, x.ty, "core::cmp::PartialOrd::partial_cmp")) is not None:
            return ordval(I, order(I, x, y))
        if x.v != y.v: return (x.v > y.v) - (x.v < y.v)
        for u, v in zip(x.f, y.f):
            r = cmp_vals(I, u, v)
            if r: return r
        return 0
    if type(x) is FE and type(y) is FE and x.is_const() and y.is_const(): return (x.cval() > y.cval()) - (x.cval() < y.cval())
    if type(x) in (Vec, Arr, SRef) and type(y) in (Vec, Arr, SRef):
        a, b = items(x), items(y)
        for u, v in zip(a, b):
            r = cmp_vals(I, u, v)
            if r: return r
        return (len(a) > len(b)) - (len(a) < len(b))
    raise Undecided("comparison of %s" % short(x))

@m("Iterator::max", "Iterator::min", "ParallelIterator::max", "ParallelIterator::min")
def it_max(I, a, c):
    l = drain(I, it_arg(I, a[0]))
    if not l: return none()
    mx = c["p"].endswith("max")
    b = l[0]
    for x in l[1:]:
        r = cmp_vals(I, x, b)
        if (mx and r >= 0) or (not mx and r < 0): b = x
    return some(b)
@m("Iterator::max_by_key", "Iterator::min_by_key")
def it_max_key(I, a, c):
    l = drain(I, it_arg(I, a[0]))
    if not l: return none()
    mx = "max" in c["p"].split("::")[-1]
    f = Ref([a[1]], 0)
    ks = [I.call_value(f, [Ref([x], 0)]) for x in l]
    bi = 0
    for i in range(1, len(l)):
        r = cmp_vals(I, ks[i], ks[bi])
        if (mx and r >= 0) or (not mx and r < 0): bi = i
    return some(l[bi])

@m("Iterator::collect", "ParallelIterator::collect", "Itertools::collect_vec", "FromIterator::from_iter", "IndexedParallelIterator::collect")
def it_collect(I, a, c):
    it = it_arg(I, a[0])
    tids = c.get("a", [])
    tid = None
    if c["p"].endswith("from_iter"): tid = tids[0]
    elif not c["p"].endswith("collect_vec"): tid = tids[-1] if tids else None
    return collect_into(I, it, tid)
def collect_into(I, it, tid):
    t = I.types[tid] if tid is not None else {"k": "adt", "p": "alloc::vec::Vec", "a": []}
    p = t.get("p", "")
    if p in ("core::result::Result", "core::option::Option"):
        isres = p.endswith("Result")
        out = []
        bad = []
        while True:
            x = it.next()
            if x is STOP: break
            x = I.resolve(x)
            if isinstance(x, Phi): raise Undecided("collect into Result of joined values")
            if isres and x.v == 1: return err(x.f[0])
            if not isres and x.v == 0: return none()
            out.append(x.f[0])
        inner = collect_into(I, Seq(len(out), lambda i: out[i]), t["a"][0])
        return ok(inner) if isres else some(inner)
    l = drain(I, it)
    if p == "alloc::vec::Vec" or p.endswith("VecDeque"): return A.fresh(Vec(list(l)))
    if p == "alloc::boxed::Box": return Vec(l)
    if p == "alloc::string::String":
        s = ""
        for x in l:
            x = deref(x)
            s = scat(s, chr(x) if type(x) is int else sval(x))
        return StrObj(s)
    if "Map" in p.split("::")[-1]:
        mo = MapObj("btree" if "BTree" in p else "hash")
        for x in l: mo.d[hkey(x.f[0])] = [x.f[0], x.f[1]]
        return mo
    if "Set" in p.split("::")[-1]:
        mo = MapObj("btreeset" if "BTree" in p else "hashset")
        for x in l: mo.d.setdefault(hkey(x), [x, unit()])
        return mo
    if t["k"] == "tuple" and not t["e"]: return unit()
    raise Undecided("collect into %s" % t.get("s"))

@m("IndexedParallelIterator::collect_into_vec")
def collect_into_vec(I, a, c):
    l = drain(I, it_arg(I, a[0])); v = deref(a[1])
    touch(v.f); v.f[:] = l
    return unit()
@m("Extend::extend", "ParallelExtend::par_extend")
def extend(I, a, c):
    v = deref(a[0]); l = drain(I, to_iter(I, a[1]))
    if type(v) is Vec:
        touch(v.f); v.f.extend(copyval(d1(x)) if type(x) is Ref and elem_is_val(I, c) else x for x in l)
    elif type(v) is MapObj:
        touch(v.d)
        for x in l:
            if v.kind.endswith("set"): v.d.setdefault(hkey(x), [clone_val(I, d1(x)) if elem_is_val(I, c) else x, unit()])
            else: v.d[hkey(x.f[0])] = [x.f[0], x.f[1]]
    elif type(v) is StrObj:
        touch(v.f)
        for x in l: v.f[0] = scat(v.f[0], chr(deref(x)) if type(deref(x)) is int else sval(x))
    else: raise Undecided("extend")
    return unit()
def elem_is_val(I, c):
    a = c.get("a", [])
    return len(a) > 1 and I.types[a[1]]["k"] == "ref" and not re.search(r"\bVec(Deque)?<&", I.types[a[0]]["s"])
@m("Itertools::join")
def it_join(I, a, c):
    l = [fmt_display(I, x) for x in drain(I, it_arg(I, a[0]))]
    sep = sval(a[1]); s = ""
    for i, x in enumerate(l): s = scat(s, sep if i else "", x)
    return StrObj(s)
@m("Iterator::eq")
def it_eq(I, a, c):
    x, y = drain(I, to_iter(I, a[0])), drain(I, to_iter(I, a[1]))
    if len(x) != len(y): return False
    acc = True
    for u, v in zip(x, y): acc = t_and(acc, eq(I, u, v))
    return acc

# ------------------------------------------------------------------ slices and vectors
def chunked(I, a, k, exact=False):
    l, o, n = aslist(a)
    if k == 0: raise Panic("chunk size 0")
    cnt = n // k if exact else (n + k - 1) // k
    return Seq(cnt, lambda i: SRef(l, o + i * k, min(k, n - i * k)))
@m("[T]::chunks", "[T]::chunks_mut", "ParallelSlice::par_chunks", "ParallelSliceMut::par_chunks_mut")
def chunks(I, a, c): return chunked(I, a[0], conc(I, a[1], "chunk size"))
@m("[T]::chunks_exact", "[T]::chunks_exact_mut", "ParallelSlice::par_chunks_exact", "ParallelSliceMut::par_chunks_exact_mut")
def chunks_exact(I, a, c): return chunked(I, a[0], conc(I, a[1], "chunk size"), True)
@m("[T]::windows", "ParallelSlice::par_windows")
def windows(I, a, c):
    l, o, n = aslist(a[0]); k = conc(I, a[1])
    return Seq(max(0, n - k + 1), lambda i: SRef(l, o + i, k))
@m("[T]::rchunks")
def rchunks(I, a, c):
    l, o, n = aslist(a[0]); k = conc(I, a[1])
    return Seq((n + k - 1) // k, lambda i: SRef(l, o + max(0, n - (i + 1) * k), min(k, n - i * k)))

@m("Vec::len", "[T]::len", "VecDeque::len", "String::len", "str::len", "HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len")
def length(I, a, c):
    v = deref(a[0])
    if type(v) is MapObj: return len(v.d)
    if type(v) in (StrObj, str, SymStr):
        s = sval(v)
        if isinstance(s, SymStr): return bv_atom(T("strlen", s, w=64), 64, 40)
        return len(s.encode())
    if type(v) is SRef: return v.n
    if type(v) in (Vec, Arr): return len(v.f)
    raise Undecided("len of %s" % short(v))
@m("Vec::is_empty", "[T]::is_empty", "VecDeque::is_empty", "String::is_empty", "str::is_empty", "HashMap::is_empty", "BTreeMap::is_empty")
def is_empty(I, a, c):
    n = length(I, a, c)
    return n == 0 if type(n) is int else T("isempty", n)
@m("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "vec::Vec::new")
def vec_new(I, a, c): return A.fresh(Vec([]))
@m("Vec::capacity")
def vec_cap(I, a, c): return len(deref(a[0]).f)
@m("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "String::reserve", "HashMap::reserve")
def noop(I, a, c): return unit()
@m("Vec::push", "VecDeque::push_back")
def vec_push(I, a, c):
    v = deref(a[0]); touch(v.f); v.f.append(a[1])
    return unit()
@m("VecDeque::push_front")
def vec_push_front(I, a, c):
    v = deref(a[0]); touch(v.f); v.f.insert(0, a[1])
    return unit()
@m("Vec::pop", "VecDeque::pop_back")
def vec_pop(I, a, c):
    v = deref(a[0])
    if not v.f: return none()
    touch(v.f); return some(v.f.pop())
@m("VecDeque::pop_front", "Shift::shift")
def vec_pop_front(I, a, c):
    v = deref(a[0])
    if not v.f: return none()
    touch(v.f); return some(v.f.pop(0))
@m("Vec::remove")
def vec_remove(I, a, c):
    v = deref(a[0]); i = conc(I, a[1])
    if i >= len(v.f): raise Panic("remove index")
    touch(v.f); return v.f.pop(i)
@m("Vec::swap_remove")
def vec_swap_remove(I, a, c):
    v = deref(a[0]); i = conc(I, a[1])
    if i >= len(v.f): raise Panic("swap_remove index")
    touch(v.f); x = v.f[i]; v.f[i] = v.f[-1]; v.f.pop()
    return x
@m("Vec::insert")
def vec_insert(I, a, c):
    v = deref(a[0]); i = conc(I, a[1])
    if i > len(v.f): raise Panic("insert index")
    touch(v.f); v.f.insert(i, a[2])
    return unit()
@m("Vec::clear", "VecDeque::clear", "String::clear")
def vec_clear(I, a, c):
    v = deref(a[0]); touch(v.f)
    if type(v) is StrObj: v.f[0] = ""
    else: v.f[:] = []
    return unit()
@m("Vec::truncate", "VecDeque::truncate")
def vec_truncate(I, a, c):
    v = deref(a[0]); n = conc(I, a[1]); touch(v.f); del v.f[n:]
    return unit()
@m("Vec::resize")
def vec_resize(I, a, c):
    v = deref(a[0]); n = conc(I, a[1]); touch(v.f)
    if n < len(v.f): del v.f[n:]
    else: v.f.extend(clone_val(I, a[2]) for _ in range(n - len(v.f)))
    return unit()
@m("Vec::append")
def vec_append(I, a, c):
    v, w = deref(a[0]), deref(a[1])
    touch(v.f); touch(w.f); v.f.extend(w.f); w.f[:] = []
    return unit()
@m("Vec::extend_from_slice", "VecDeque::extend_from_slice")
def vec_extend(I, a, c):
    v = deref(a[0]); touch(v.f); v.f.extend(clone_val(I, x) for x in items(a[1]))
    return unit()
@m("Vec::split_off")
def vec_split_off(I, a, c):
    v = deref(a[0]); n = conc(I, a[1])
    if n > len(v.f): raise Panic("split_off")
    touch(v.f); t = v.f[n:]; del v.f[n:]
    return Vec(t)
@m("Vec::drain", "VecDeque::drain")
def vec_drain(I, a, c):
    v = deref(a[0]); s, e = rng(I, a[1], len(v.f))
    touch(v.f); t = v.f[s:e]; del v.f[s:e]
    return Seq(len(t), lambda i: t[i])
@m("Vec::retain")
def vec_retain(I, a, c):
    v = deref(a[0]); f = Ref([a[1]], 0)
    keep = [x for x in list(v.f) if truth(I, I.call_value(f, [Ref([x], 0)]))]
    touch(v.f); v.f[:] = keep
    return unit()
@m("Vec::dedup")
def vec_dedup(I, a, c):
    v = deref(a[0]); out = []
    for x in v.f:
        if out and truth(I, eq(I, out[-1], x)): continue
        out.append(x)
    touch(v.f); v.f[:] = out
    return unit()
@m("vec::from_elem")
def from_elem(I, a, c):
    n = conc(I, a[1], "length")
    if n > 20_000_000: raise Undecided("huge vector")
    v = a[0]
    t = type(v)
    if t in (int, bool, FE, BV, Term, str): return A.fresh(Vec([v] * n))
    return A.fresh(Vec([clone_val(I, v) for _ in range(n)]))
@m("Box::new_uninit", "Box::new_uninit_slice")
def box_uninit(I, a, c): return Box(None)
@m("boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(I, a, c):
    x = a[0].f[0]
    if not isinstance(x, Arr): raise Undecided("vec! content")
    return Vec(x.f)
@m("Box::assume_init", "Box::write")
def box_assume(I, a, c): return a[0]
@m("Box::new", "Rc::new", "Arc::new", "Mutex::new", "RwLock::new", "RefCell::new", "Cell::new", "Pin::new", "Box::pin")
def box_new(I, a, c): return Box(a[0])
@m("[T]::into_vec", "slice::into_vec")
def into_vec(I, a, c):
    v = a[0]
    return v if type(v) is Vec else Vec(v.f[0].f)
@m("[T]::to_vec", "ToOwned::to_owned", "[T]::to_owned")
def to_vec(I, a, c):
    v = deref(a[0])
    if isinstance(v, (str, SymStr, StrObj)): return StrObj(sval(v))
    if type(v) in (SRef, Vec): return Vec([clone_val(I, x) for x in items(v)])
    return clone_val(I, v)
@m("Vec::into_boxed_slice", "Vec::leak", "Box::leak", "Box::into_raw", "Box::from_raw")
def ident(I, a, c): return a[0]
@m("Vec::as_slice", "Vec::as_mut_slice", "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
   "String::as_str", "String::as_bytes", "str::as_bytes", "String::into_bytes", "[T]::as_ref", "String::as_mut_str", "[T]::as_slice", "array::as_slice", "[T; N]::as_slice", "[T; N]::as_mut_slice", "Pin::as_mut")
def as_slice(I, a, c):
    v = a[0]
    x = v.c[v.k] if type(v) is Ref else v
    while type(x) is Ref and c["p"].endswith(("as_ref", "as_mut", "borrow")): v = x; x = v.c[v.k]
    t = type(x)
    last = c["p"].split("::")[-1]
    if last in ("as_bytes", "into_bytes"):
        s = sval(v)
        if isinstance(s, SymStr): raise Undecided("bytes of an abstract string")
        b = list(s.encode())
        return Vec(b) if last == "into_bytes" else SRef(b, 0, len(b))
    if t in (Vec, Arr): return SRef(x.f, 0, len(x.f))
    if t is Box: return Ref(x.f, 0)
    if t is StrObj:
        return x.f[0]
    if t in (str, SymStr, SRef): return x
    if t is Opaque and x.name == "lazy": return lazy_force(I, x)
    if t is Ref and last in ("deref", "deref_mut"): return x
    if t is Agg and last in ("deref", "deref_mut") : return v
    if t is Agg and last in ("as_ref", "as_mut", "borrow"): return v
    if t in (Opaque, MapObj): return v
    if t is Phi: raise Undecided("deref of a joined value")
    raise Undecided("%s of %s" % (c["p"], short(x)))

@m("[T]::get", "[T]::get_mut", "Vec::get", "VecDeque::get", "VecDeque::get_mut", "SliceIndex::get", "str::get")
def sl_get(I, a, c):
    i = a[1]
    if isinstance(deref(a[0]), (str, StrObj)):
        s = cstr(a[0]).encode()
        x, y = rng(I, i, len(s))
        return some(s[x:y].decode()) if x <= y <= len(s) else none()
    l, o, n = aslist(a[0])
    if type(i) is Agg:
        s, e = rng(I, i, n)
        return some(SRef(l, o + s, e - s)) if s <= e <= n else none()
    i = conc(I, i, "index")
    return some(Ref(l, o + i)) if i < n else none()
@m("[T]::get_unchecked", "[T]::get_unchecked_mut")
def sl_get_u(I, a, c):
    r = sl_get(I, a, c)
    if r.v == 0: raise Panic("get_unchecked out of range")
    return r.f[0]
@m("[T]::first", "[T]::first_mut", "VecDeque::front")
def sl_first(I, a, c):
    l, o, n = aslist(a[0]); return some(Ref(l, o)) if n else none()
@m("[T]::last", "[T]::last_mut", "VecDeque::back")
def sl_last(I, a, c):
    l, o, n = aslist(a[0]); return some(Ref(l, o + n - 1)) if n else none()
@m("[T]::split_first")
def sl_split_first(I, a, c):
    l, o, n = aslist(a[0]); return some(Agg(None, 0, [Ref(l, o), SRef(l, o + 1, n - 1)])) if n else none()
@m("[T]::split_last")
def sl_split_last(I, a, c):
    l, o, n = aslist(a[0]); return some(Agg(None, 0, [Ref(l, o + n - 1), SRef(l, o, n - 1)])) if n else none()
@m("[T]::split_at", "[T]::split_at_mut", "str::split_at")
def sl_split_at(I, a, c):
    k = conc(I, a[1])
    if isinstance(deref(a[0]), (str, StrObj)):
        s = cstr(a[0]); return Agg(None, 0, [s[:k], s[k:]])
    l, o, n = aslist(a[0])
    if k > n: raise Panic("split_at")
    return Agg(None, 0, [SRef(l, o, k), SRef(l, o + k, n - k)])
@m("[T]::copy_from_slice", "[T]::clone_from_slice")
def sl_copy(I, a, c):
    l, o, n = aslist(a[0]); src = items(a[1])
    if len(src) != n: raise Panic("copy_from_slice lengths %d != %d" % (n, len(src)))
    touch(l); l[o:o + n] = [clone_val(I, x) for x in src]
    return unit()
@m("[T]::copy_within")
def sl_copy_within(I, a, c):
    l, o, n = aslist(a[0]); s, e = rng(I, a[1], n); d = conc(I, a[2])
    if d + e - s > n: raise Panic("copy_within")
    touch(l); l[o + d:o + d + e - s] = list(l[o + s:o + e])
    return unit()
@m("[T]::fill")
def sl_fill(I, a, c):
    l, o, n = aslist(a[0]); touch(l)
    for i in range(n): l[o + i] = clone_val(I, a[1])
    return unit()
@m("[T]::swap")
def sl_swap(I, a, c):
    l, o, n = aslist(a[0]); i, j = conc(I, a[1]), conc(I, a[2])
    if i >= n or j >= n: raise Panic("swap index")
    touch(l); l[o + i], l[o + j] = l[o + j], l[o + i]
    return unit()
@m("[T]::reverse")
def sl_reverse(I, a, c):
    l, o, n = aslist(a[0]); touch(l); l[o:o + n] = l[o:o + n][::-1]
    return unit()
@m("[T]::rotate_left")
def sl_rot(I, a, c):
    l, o, n = aslist(a[0]); k = conc(I, a[1]); x = l[o:o + n]; touch(l); l[o:o + n] = x[k:] + x[:k]
    return unit()
@m("[T]::rotate_right")
def sl_rotr(I, a, c):
    l, o, n = aslist(a[0]); k = conc(I, a[1]); x = l[o:o + n]; touch(l); l[o:o + n] = x[n - k:] + x[:n - k]
    return unit()
@m("[T]::concat")
def sl_concat(I, a, c):
    l = items(a[0])
    if l and isinstance(deref(l[0]), (str, StrObj, SymStr)): return StrObj(scat(*[sval(x) for x in l]))
    return Vec([clone_val(I, y) for x in l for y in items(x)])
@m("[T]::join", "Join::join")
def sl_join(I, a, c):
    l = items(a[0]); s = ""
    if l and not isinstance(deref(l[0]), (str, StrObj, SymStr)):
        out = []
        for i, x in enumerate(l):
            if i: out += [clone_val(I, y) for y in (items(a[1]) if type(deref(a[1])) in (SRef, Vec, Arr) else [deref(a[1])])]
            out += [clone_val(I, y) for y in items(x)]
        return Vec(out)
    sep = sval(a[1])
    for i, x in enumerate(l): s = scat(s, sep if i else "", sval(x))
    return StrObj(s)
@m("[T]::contains")
def sl_contains(I, a, c):
    acc = False
    for x in items(a[0]): acc = t_or(acc, eq(I, x, a[1]))
    return acc
@m("[T]::starts_with", "[T]::ends_with")
def sl_starts(I, a, c):
    x, y = items(a[0]), items(a[1])
    if len(y) > len(x): return False
    z = x[:len(y)] if c["p"].endswith("starts_with") else x[len(x) - len(y):]
    acc = True
    for u, v in zip(z, y): acc = t_and(acc, eq(I, u, v))
    return acc
@m("[T]::sort", "[T]::sort_unstable")
def sl_sort(I, a, c):
    l, o, n = aslist(a[0]); x = sorted(l[o:o + n], key=functools.cmp_to_key(lambda p, q: cmp_vals(I, p, q)))
    touch(l); l[o:o + n] = x
    return unit()
def ordval(I, r):
    r = I.resolve(r)
    if not isinstance(r, Agg): raise Undecided("abstract ordering")
    return r.v - 1
@m("[T]::sort_by", "[T]::sort_unstable_by")
def sl_sort_by(I, a, c):
    l, o, n = aslist(a[0]); f = Ref([a[1]], 0)
    x = sorted(l[o:o + n], key=functools.cmp_to_key(lambda p, q: ordval(I, I.call_value(f, [Ref([p], 0), Ref([q], 0)]))))
    touch(l); l[o:o + n] = x
    return unit()
@m("[T]::sort_by_key", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key")
def sl_sort_key(I, a, c):
    l, o, n = aslist(a[0]); f = Ref([a[1]], 0)
    ks = [(I.call_value(f, [Ref([p], 0)]), p) for p in l[o:o + n]]
    ks.sort(key=functools.cmp_to_key(lambda p, q: cmp_vals(I, p[0], q[0])))
    touch(l); l[o:o + n] = [p for _, p in ks]
    return unit()
@m("[T]::as_ptr", "[T]::as_mut_ptr", "Vec::as_ptr", "Vec::as_mut_ptr")
def as_ptr(I, a, c):
    l, o, n = aslist(a[0]); return Ref(l, o)
@m("raw::from_raw_parts", "raw::from_raw_parts_mut", "slice::from_raw_parts", "slice::from_raw_parts_mut")
def from_raw_parts(I, a, c):
    p = a[0]; n = conc(I, a[1])
    if type(p) is PtrView and type(p.k) is int and type(p.c) is list and "mut" not in c["p"]:
        import iomodels
        size = lambda t: {"u8": 1, "i8": 1, "u16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8}[t["s"]]
        s, d = size(p.src), size(p.dst); need = -(-n * d // s)
        if p.k + need > len(p.c): raise Panic("slice beyond the buffer")
        w = p.c[p.k:p.k + need]
        by = w if s == 1 else [x for y in w for x in iomodels.unword(y, s)]
        out = by[:n] if d == 1 else [iomodels.word(by[i * d:i * d + d]) for i in range(n)]
        return SRef(out, 0, n)
    if type(p) is Ref and type(p.k) is int:
        want = I.types[c["a"][0]] if c.get("a") else {}
        v = p.c[p.k]
        if want.get("k") != "array" and type(v) is Arr:      # pointer to an array seen as a pointer to its elements
            if n <= len(v.f): return SRef(v.f, 0, n)
        elif p.k + n <= len(p.c) and (type(p.c) is list): return SRef(p.c, p.k, n)
    raise Undecided("from_raw_parts")
@m("*const T::add", "*mut T::add", "const_ptr::add", "mut_ptr::add", "*const T::offset", "*mut T::offset")
def ptr_add(I, a, c):
    p = a[0]
    if type(p) is Ref: return Ref(p.c, p.k + conc(I, a[1]))
    raise Undecided("pointer arithmetic")
@m("slice::from_ref", "raw::from_ref")
def from_ref(I, a, c): return SRef(a[0].c, a[0].k, 1)

def rng(I, r, n):
    if type(r) is Seq: return r.st[0], r.st[1]
    k = is_range(I, r)
    if k == "Range" : return conc(I, r.f[0], "range"), conc(I, r.f[1], "range")
    if k == "RangeInclusive": return conc(I, r.f[0], "range"), conc(I, r.f[1], "range") + 1
    if k == "RangeFrom": return conc(I, r.f[0], "range"), n
    if k == "RangeTo": return 0, conc(I, r.f[0], "range")
    if k == "RangeToInclusive": return 0, conc(I, r.f[0], "range") + 1
    if k == "RangeFull": return 0, n
    raise Undecided("range %s" % short(r))

@m("Index::index", "IndexMut::index_mut")
def index(I, a, c):
    v = a[0]; x = deref(v); i = a[1]
    if type(x) is MapObj:
        e = x.d.get(hkey(i))
        if e is None: raise Panic("missing map key")
        return Ref(e, 1)
    if isinstance(x, (StrObj, str)):
        s = cstr(x).encode(); p, q = rng(I, i, len(s))
        if not p <= q <= len(s): raise Panic("string slice out of range")
        return s[p:q].decode()
    if type(x) is Opaque and hasattr(x, "index"): return x.index(I, i)
    l, o, n = aslist(x)
    if type(i) is not int:
        i = I.resolve(i)
        if type(i) in (Agg, Seq):
            s, e = rng(I, i, n)
            if s > e or e > n: raise Panic("slice index %d..%d out of range %d" % (s, e, n))
            return SRef(l, o + s, e - s)
        if isinstance(i, (BV, Term)):
            return abs_index(I, l, o, n, i)
        i = conc(I, i, "index")
    if i >= n or i < 0: raise Panic("index %d out of bounds %d" % (i, n))
    return Ref(l, o + i)

def abs_index(I, l, o, n, i):
    """Read-only selection at an abstract index over a small table."""
    w = i.w
    hi = bmax(bits_of(i, w))
    if n > 64: raise Undecided("abstract index %s" % short(i))
    if hi >= n: I.assumed.append((T("lt", bits_of(i, w), n), "bounds", I.stack[-1] if I.stack else ""))
    v = None
    for k in range(min(n, hi + 1) - 1, -1, -1):
        x = l[o + k]
        if v is None: v = x
        else:
            e = I.int_eq(bits_of(i, w), bits_of(k, w))
            if e is False: continue
            v = ite(e, x, v)
    return Ref([v], 0)

# ------------------------------------------------------------------ equality, ordering, clone, default
def eq(I, x, y):
    x, y = deref(x), deref(y)
    x, y = I.resolve(x), I.resolve(y)
    tx, ty = type(x), type(y)
    if tx is Phi: return t_ite(x.c, eq(I, x.a, y), eq(I, x.b, y))
    if ty is Phi: return t_ite(y.c, eq(I, x, y.a), eq(I, x, y.b))
    if tx is StrObj: x = x.f[0]; tx = type(x)
    if ty is StrObj: y = y.f[0]; ty = type(y)
    if tx in (str, SymStr) and ty in (str, SymStr):
        if x == y: return True
        if tx is str and ty is str: return False
        return T("streq", *sorted((scat(x), scat(y)), key=repr))
    if tx in (bool, int) and ty in (bool, int): return x == y
    if tx is FE and ty is FE: return feq(x, y)
    if tx in (int, bool, BV, Term) and ty in (int, bool, BV, Term):
        w = max(getattr(x, "w", 1), getattr(y, "w", 1), 64)
        r = I.int_eq(bits_of(x, w), bits_of(y, w))
        return r
    seqs = (Vec, Arr, SRef)
    if tx in seqs and ty in seqs:
        a, b = items(x), items(y)
        if len(a) != len(b): return False
        acc = True
        for u, v in zip(a, b):
            acc = t_and(acc, eq(I, u, v))
            if acc is False: return False
        return acc
    if tx is Agg and ty is Agg:
        tid = x.ty if x.ty is not None else y.ty
        impl = find_impl(I, tid, "core::cmp::PartialEq::eq")
        if impl is not None:
            return I.run(impl, [Ref([x], 0), Ref([y], 0)])
        if x.v != y.v: return False
        acc = True
        for u, v in zip(x.f, y.f):
            acc = t_and(acc, eq(I, u, v))
            if acc is False: return False
        return acc
    if tx is MapObj and ty is MapObj:
        if x.d.keys() != y.d.keys(): return False
        acc = True
        for k in x.d: acc = t_and(acc, eq(I, x.d[k][1], y.d[k][1]))
        return acc
    if tx is float and ty is float: return x == y
    if hasattr(x, "sym_int") or hasattr(y, "sym_int"): return I.binop("Eq", x, y, 64, False)
    if tx is Opaque and ty is Opaque: raise Undecided("comparison of opaque values")
    h = getattr(x, "m_eq", None)
    if h: return h(I, y)
    raise Undecided("equality of %s and %s" % (short(x), short(y)))
def str_key(x): return x
@m("PartialEq::eq")
def m_eq(I, a, c): return eq(I, a[0], a[1])
@m("PartialEq::ne")
def m_ne(I, a, c): return t_not(eq(I, a[0], a[1]))

def order(I, x, y):
    """Ordering Agg."""
    x, y = deref(x), deref(y)
    x, y = I.resolve(x), I.resolve(y)
    if hasattr(x, "sym_int") or hasattr(y, "sym_int"): return I.binop("Cmp", x, y, 64, False)
    if isinstance(x, (BV, Term)) or isinstance(y, (BV, Term)):
        w = max(getattr(x, "w", 1), getattr(y, "w", 1), 64)
        lt = I.absop("Lt", x, y, w, False); e = I.int_eq(bits_of(x, w), bits_of(y, w))
        return ite(lt, Agg(None, 0, []), ite(e, Agg(None, 1, []), Agg(None, 2, [])))
    if type(x) is FE and type(y) is FE and not (x.is_const() and y.is_const()):
        e = feq(x, y)
        if e is True: return Agg(None, 1, [])
        lt = T("flt", x, y)
        return ite(lt, Agg(None, 0, []), ite(e, Agg(None, 1, []), Agg(None, 2, [])))
    if type(x) is Agg and x.ty is not None and type(y) is Agg:
        impl = find_impl(I, x.ty, "core::cmp::Ord::cmp") or find_impl(I, x.ty, "core::cmp::PartialOrd::partial_cmp")
        if impl is not None:
            r = I.run(impl, [Ref([x], 0), Ref([y], 0)])
            if "partial_cmp" in I.fns[impl]["p"]: r = I.unphi(r).f[0]
            return r
    return Agg(None, cmp_vals(I, x, y) + 1, [])
@m("Ord::cmp", "f64::total_cmp")
def m_cmp(I, a, c): return order(I, a[0], a[1])
@m("PartialOrd::partial_cmp")
def m_pcmp(I, a, c): return some(order(I, a[0], a[1]))
def ordtest(I, r, f):
    r = I.resolve(r)
    if isinstance(r, Phi): return t_ite(r.c, ordtest(I, r.a, f), ordtest(I, r.b, f))
    return f(r.v - 1)
@m("PartialOrd::lt")
def m_lt(I, a, c): return ordtest(I, order(I, a[0], a[1]), lambda o: o < 0)
@m("PartialOrd::le")
def m_le(I, a, c):
    if isinstance(deref(a[0]), Opaque) or isinstance(deref(a[1]), Opaque): return False
    x = deref(a[0])
    if c.get("a") and "log::Level" in I.types[c["a"][0]]["s"]: return False
    return ordtest(I, order(I, a[0], a[1]), lambda o: o <= 0)
@m("PartialOrd::gt")
def m_gt(I, a, c): return ordtest(I, order(I, a[0], a[1]), lambda o: o > 0)
@m("PartialOrd::ge")
def m_ge(I, a, c): return ordtest(I, order(I, a[0], a[1]), lambda o: o >= 0)
@m("Ordering::is_eq", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge", "Ordering::is_ne")
def ord_is(I, a, c):
    k = c["p"][-2:]
    return ordtest(I, a[0], {"eq": lambda o: o == 0, "lt": lambda o: o < 0, "gt": lambda o: o > 0, "le": lambda o: o <= 0, "ge": lambda o: o >= 0, "ne": lambda o: o != 0}[k])
@m("Ordering::reverse")
def ord_rev(I, a, c): return Agg(None, 2 - I.unphi(a[0]).v, [])
@m("cmp::min", "Ord::min")
def m_min(I, a, c):
    x, y = I.resolve(a[0]), I.resolve(a[1])
    if type(x) is int and type(y) is int: return min(x, y)
    r = ordtest(I, order(I, x, y), lambda o: o <= 0)
    return ite(r, x, y) if not isinstance(r, bool) else (x if r else y)
@m("cmp::max", "Ord::max")
def m_max(I, a, c):
    x, y = I.resolve(a[0]), I.resolve(a[1])
    if type(x) is int and type(y) is int: return max(x, y)
    r = ordtest(I, order(I, x, y), lambda o: o > 0)
    return ite(r, x, y) if not isinstance(r, bool) else (x if r else y)

def clone_val(I, v):
    t = type(v)
    if t in (int, bool, FE, BV, Term, str): return v
    if t is Agg:
        if v.ty is not None:
            impl = find_impl(I, v.ty, "core::clone::Clone::clone")
            if impl is not None:
                f = I.fns[impl]
                return I.run(impl, [Ref([v], 0)])
        return Agg(v.ty, v.v, [clone_val(I, x) for x in v.f])
    if t in (Vec, Arr): return t([clone_val(I, x) for x in v.f])
    if t is Box: return Box(clone_val(I, v.f[0]))
    if t is Ref: return v
    if t in (Seq, Gen): return v.clone()
    return clone(v)
@m("Clone::clone")
def m_clone(I, a, c):
    v = a[0]
    if type(v) is Ref:
        x = v.c[v.k]
        if c.get("a") and isinstance(c["a"][0], int) and I.types[c["a"][0]]["k"] == "ref": return x
        if type(x) is Box and c.get("a") and I.types[c["a"][0]].get("p", "").endswith(("Rc", "Arc")): return x
        return clone_val(I, x)
    if type(v) is SRef: return Vec([clone_val(I, x) for x in v.items()])
    return clone_val(I, v)
@m("Clone::clone_from")
def m_clone_from(I, a, c):
    a[0].set(clone_val(I, d1(a[1]))); return unit()
@m("Option::cloned", "Option::copied", "Result::cloned", "Result::copied")
def opt_cloned(I, a, c):
    return map_variants(I, a[0], lambda x: Agg(x.ty, x.v, [clone_val(I, d1(y)) for y in x.f]))
@m("Default::default")
def default(I, a, c):
    return default_of(I, c["a"][0])
def default_of(I, tid):
    t = I.types[tid]; k = t["k"]
    if t["s"] in I.fieldty: return I.fieldty[t["s"]].zero
    if k == "bool": return False
    if k in ("int", "uint", "char"): return 0
    if k == "float": return 0.0
    if k == "tuple": return Agg(tid, 0, [default_of(I, e) for e in t["e"]])
    if k == "array": return Arr([default_of(I, t["e"]) for _ in range(t["n"])])
    if k == "ref": 
        if I.types[t["e"]]["k"] == "str": return ""
        return SRef([], 0, 0)
    p = t.get("p", "")
    if p in ("alloc::vec::Vec", ) or p.endswith("VecDeque"): return A.fresh(Vec([]))
    if p == "alloc::string::String": return StrObj("")
    if p == "core::option::Option": return Agg(tid, 0, [])
    if p.endswith(("HashMap", "HashSet")): return A.fresh(MapObj("hash" if p.endswith("Map") else "hashset"))
    if p.endswith(("BTreeMap", "BTreeSet")): return A.fresh(MapObj("btree" if p.endswith("Map") else "btreeset"))
    if p == "alloc::boxed::Box": return Box(default_of(I, t["a"][0]))
    if p == "core::marker::PhantomData": return Agg(tid, 0, [])
    impl = find_impl(I, tid, "core::default::Default::default")
    if impl is not None: return I.run(impl, [])
    if p == "fnv::FnvHasher": return Fnv()
    if p.endswith(("hash::random::RandomState", "hash::BuildHasherDefault")): return Opaque("hasher")
    raise Undecided("default of %s" % t["s"])
@m("mem::swap")
def mem_swap(I, a, c):
    x, y = a[0].c[a[0].k], a[1].c[a[1].k]
    a[0].set(y); a[1].set(x)
    return unit()
@m("mem::replace")
def mem_replace(I, a, c):
    x = a[0].c[a[0].k]; a[0].set(a[1]); return x
@m("mem::take")
def mem_take(I, a, c):
    x = a[0].c[a[0].k]; a[0].set(default_of(I, c["a"][0])); return x
@m("mem::drop", "mem::forget")
def mem_drop(I, a, c): return unit()
@m("TypeId::of")
def typeid_of(I, a, c):
    if not isinstance(c["a"][0], int): raise Undecided("TypeId of an unknown type")
    return Agg(None, 0, [c["a"][0]])
@m("mem::size_of")
def size_of(I, a, c):
    t = I.types[c["a"][0]]
    if t["k"] in ("int", "uint"): return I.width(c["a"][0])[0] // 8
    if t["s"] in I.fieldty: return 8 * I.fieldty[t["s"]].limbs
    raise Undecided("size_of %s" % t["s"])
@m("hint::must_use", "hint::black_box", "convert::identity")
def must_use(I, a, c): return a[0]

# ------------------------------------------------------------------ Option / Result / Try
def map_variants(I, v, f):
    v = I.resolve(v)
    if isinstance(v, Phi): return ite(v.c, map_variants(I, v.a, f), map_variants(I, v.b, f))
    return f(v)
def isopt(c): return "option::Option" in c["p"]
def good(c): return 1 if isopt(c) else 0
def variants_tree(I, v, on):
    """on(Agg) for the single possible variant; for joined values split under the condition."""
    v = I.resolve(v)
    if isinstance(v, Phi):
        return split(I, v.c, lambda: variants_tree(I, v.a, on), lambda: variants_tree(I, v.b, on))
    if not isinstance(v, Agg): raise Undecided("variant of %s" % short(v))
    return on(v)
def split(I, cond, fa, fb):
    """Evaluate both alternatives under the condition (each must be free of side effects)."""
    r = []
    for val, f in ((True, fa), (False, fb)):
        saved = I.pc; I.pc = dict(saved); I.set_pc(cond, val)
        A.J.append({})
        try:
            try: x = f()
            except Panic as e:
                I.panics.append((dict(I.pc), cond, val, str(e), I.stack[-1] if I.stack else "")); x = PANIC
        finally:
            I.pc = saved
            j = A.J.pop()
        if j: 
            changed = any(snap is not None and lst != snap and not all(p is q for p, q in zip(lst, snap)) for lst, snap in j.values())
            for kk, (lst, snap) in j.items():
                if snap is None: A.adopt(kk, lst)
                else: A.restore(lst, snap)
            if changed: raise Undecided("side effect under a joined value")
        r.append(x)
    if r[0] is PANIC and r[1] is PANIC: raise Panic("both alternatives diverge")
    if r[0] is PANIC: I.set_pc(cond, False); I.assumed.append((t_not(cond), "panic", I.stack[-1] if I.stack else "")); return r[1]
    if r[1] is PANIC: I.set_pc(cond, True); I.assumed.append((cond, "panic", I.stack[-1] if I.stack else "")); return r[0]
    return ite(cond, r[0], r[1])
PANIC = object()

@m("Try::branch")
def try_branch(I, a, c):
    s = I.types[c["a"][0]].get("p", "") if c.get("a") else ""
    g = 1 if s.endswith("Option") else 0
    def f(v):
        if v.v == g: return Agg(None, 0, [v.f[0]])
        return Agg(None, 1, [v])
    return map_variants(I, a[0], f)
@m("FromResidual::from_residual")
def from_residual(I, a, c):
    return a[0]
@m("Try::from_output")
def from_output(I, a, c):
    s = I.types[c["a"][0]].get("p", "")
    return some(a[0]) if s.endswith("Option") else ok(a[0])
@m("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Option::unwrap_unchecked", "Result::unwrap_unchecked")
def unwrap(I, a, c):
    g = good(c)
    def f(v):
        if v.v != g: raise Panic("unwrap of None/Err")
        return v.f[0]
    return variants_tree(I, a[0], f)
@m("Result::unwrap_err", "Result::expect_err")
def unwrap_err(I, a, c):
    def f(v):
        if v.v != 1: raise Panic("unwrap_err")
        return v.f[0]
    return variants_tree(I, a[0], f)
@m("Option::unwrap_or", "Result::unwrap_or")
def unwrap_or(I, a, c):
    g = good(c); return map_variants(I, a[0], lambda v: v.f[0] if v.v == g else a[1])
@m("Option::unwrap_or_else", "Result::unwrap_or_else")
def unwrap_or_else(I, a, c):
    g = good(c)
    return variants_tree(I, a[0], lambda v: v.f[0] if v.v == g else I.call_value(a[1], [] if isopt(c) else [v.f[0]]))
@m("Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or_default(I, a, c):
    g = good(c); return map_variants(I, a[0], lambda v: v.f[0] if v.v == g else default_of(I, c["a"][0]))
@m("Option::map", "Result::map")
def opt_map(I, a, c):
    g = good(c)
    return variants_tree(I, a[0], lambda v: Agg(None, g, [I.call_value(a[1], [v.f[0]])]) if v.v == g else Agg(None, v.v, v.f))
@m("Option::map_or", "Result::map_or")
def opt_map_or(I, a, c):
    g = good(c); return variants_tree(I, a[0], lambda v: I.call_value(a[2], [v.f[0]]) if v.v == g else a[1])
@m("Option::map_or_else", "Result::map_or_else")
def opt_map_or_else(I, a, c):
    g = good(c)
    return variants_tree(I, a[0], lambda v: I.call_value(a[2], [v.f[0]]) if v.v == g else I.call_value(a[1], list(v.f)))
@m("Option::is_some_and", "Result::is_ok_and")
def opt_is_and(I, a, c):
    g = good(c); return variants_tree(I, a[0], lambda v: I.call_value(a[1], [v.f[0]]) if v.v == g else False)
@m("Result::map_err", "Context::context", "Context::with_context")
def map_err(I, a, c):
    if "Context" in c["p"]:
        s = I.types[c["a"][0]].get("p", "")
        g = 1 if s.endswith("Option") else 0
        return map_variants(I, a[0], lambda v: ok(v.f[0]) if v.v == g else err())
    return variants_tree(I, a[0], lambda v: v if v.v == 0 else err(call_err(I, a[1], v.f[0])))
def call_err(I, f, x):
    try: return I.call_value(f, [x])
    except Undecided: return Opaque("error")
@m("Option::ok_or")
def ok_or(I, a, c): return map_variants(I, a[0], lambda v: ok(v.f[0]) if v.v == 1 else err(a[1]))
@m("Option::ok_or_else")
def ok_or_else(I, a, c): return variants_tree(I, a[0], lambda v: ok(v.f[0]) if v.v == 1 else err(I.call_value(a[1], [])))
@m("Result::ok")
def res_ok(I, a, c): return map_variants(I, a[0], lambda v: some(v.f[0]) if v.v == 0 else none())
@m("Result::err")
def res_err(I, a, c): return map_variants(I, a[0], lambda v: some(v.f[0]) if v.v == 1 else none())
@m("Option::and_then", "Result::and_then")
def and_then(I, a, c):
    g = good(c); return variants_tree(I, a[0], lambda v: I.call_value(a[1], [v.f[0]]) if v.v == g else v)
@m("Option::or_else", "Result::or_else")
def or_else(I, a, c):
    g = good(c); return variants_tree(I, a[0], lambda v: v if v.v == g else I.call_value(a[1], [] if isopt(c) else [v.f[0]]))
@m("Option::or", "Result::or")
def opt_or(I, a, c):
    g = good(c); return map_variants(I, a[0], lambda v: v if v.v == g else a[1])
@m("Option::filter")
def opt_filter(I, a, c):
    return variants_tree(I, a[0], lambda v: v if v.v == 1 and truth(I, I.call_value(a[1], [Ref(v.f, 0)])) else none())
@m("Option::xor")
def opt_xor(I, a, c): raise Undecided("Option::xor")
@m("Option::is_some", "Result::is_ok")
def is_some(I, a, c):
    g = good(c); return map_variants(I, deref(a[0]), lambda v: v.v == g)
@m("Option::is_none", "Result::is_err")
def is_none(I, a, c):
    g = good(c); return map_variants(I, deref(a[0]), lambda v: v.v != g)
@m("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref", "Option::as_deref_mut")
def opt_as_ref(I, a, c):
    v = I.resolve(deref(a[0]))
    def f(x):
        if not x.f: return Agg(None, x.v, [])
        if "deref" in c["p"]:
            return Agg(None, x.v, [as_slice(I, [Ref(x.f, 0)], {"p": "Deref::deref"})])
        return Agg(None, x.v, [Ref(x.f, 0)])
    return map_variants(I, v, f)
@m("Option::take")
def opt_take(I, a, c):
    x = a[0].c[a[0].k]; a[0].set(none()); return x
@m("Option::replace")
def opt_replace(I, a, c):
    x = a[0].c[a[0].k]; a[0].set(some(a[1])); return x
@m("Option::insert")
def opt_insert(I, a, c):
    n = some(a[1]); a[0].set(n); return Ref(n.f, 0)
@m("Option::get_or_insert_with")
def opt_goi(I, a, c):
    x = I.resolve(a[0].c[a[0].k])
    if x.v == 0:
        x = some(I.call_value(a[1], [])); a[0].set(x)
    return Ref(x.f, 0)
@m("Option::zip")
def opt_zip(I, a, c):
    x, y = I.unphi(a[0]), I.unphi(a[1])
    return some(Agg(None, 0, [x.f[0], y.f[0]])) if x.v and y.v else none()
@m("bool::then", "bool::then_some")
def bool_then(I, a, c):
    b = I.resolve(a[0])
    th = c["p"].endswith("then")
    if isinstance(b, (bool, int)): return some(I.call_value(a[1], []) if th else a[1]) if b else none()
    return Phi(b, some(I.call_value(a[1], []) if th else a[1]), none())

# ------------------------------------------------------------------ conversions
@m("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def conv(I, a, c):
    v = a[0]
    into = "Into" in c["p"].split("::")[-2]
    ta = c.get("a", [])
    src, dst = (ta[0], ta[1]) if into and len(ta) > 1 else ((ta[1], ta[0]) if len(ta) > 1 else (None, None))
    if dst is None: raise Undecided("conversion")
    D = I.types[dst]; S = I.types[src]
    tr = c["p"].split("::")[-1].startswith("try")
    if D["k"] in ("int", "uint") and S["k"] in ("int", "uint", "bool", "char"):
        if tr:
            r = I.cast("IntToInt", v, dst, src)
            if isinstance(v, int): return ok(r) if r == v else err()
            back = I.cast("IntToInt", r, src, dst)
            e = eq(I, back, v)
            return ok(r) if e is True else err() if e is False else Phi(e, ok(r), err())
        return I.cast("IntToInt", v, dst, src)
    if D["s"] == S["s"]: return ok(v) if tr else v
    if D["k"] == "array" and S["k"] == "tuple" and isinstance(v, Agg): return Arr(list(v.f))
    if D["k"] == "tuple" and S["k"] == "array" and isinstance(v, Arr): return Agg(None, 0, list(v.f))
    if into:
        m_ = "core::convert::From::from" if not tr else "core::convert::TryFrom::try_from"
        for i in I.mir.bypath.get("<%s as core::convert::%s<%s>>::%s" % (D["s"], "TryFrom" if tr else "From", S["s"], "try_from" if tr else "from"), []):
            f = I.fns[i]
            if "blocks" in f and f["mono"]: return I.run(i, [v])
    p = D.get("p", "")
    if p == "alloc::string::String": return StrObj(sval(v)) if not isinstance(v, int) else StrObj(chr(v))
    if p == "alloc::vec::Vec" or p.endswith("::VecDeque"):
        x = deref(v) if S["k"] == "ref" else v
        if isinstance(x, (str, StrObj)): return Vec(list(cstr(x).encode()))
        r = Vec([clone_val(I, y) for y in items(x)] if S["k"] == "ref" else list(x.f))
        return ok(r) if tr else r
    if p.split("::")[-1] in ("BTreeMap", "BTreeSet", "HashMap", "HashSet") and S["k"] == "array": return collect_into(I, to_iter(I, v), dst)
    if D["k"] == "array":
        l = items(v)
        n = D["n"]
        if tr: return ok(Arr([clone_val(I, x) for x in l])) if len(l) == n else err(v)
        return Arr(l)
    if D["k"] == "ref" and I.types[D["e"]]["k"] == "array":
        l, o, n = aslist(v); N = I.types[D["e"]]["n"]
        if n != N: return err()
        return ok(Ref([Arr(l)], 0)) if o == 0 and n == len(l) else ok(Ref([Arr(l[o:o + n])], 0))
    if p == "alloc::boxed::Box": return Box(v) if type(v) not in (Vec, Box) else v
    if p in ("anyhow::Error", "alloc::boxed::Box") or "error" in p.lower(): return v
    if p == "core::option::Option": return some(v)
    if D["k"] == "float" and isinstance(v, int): return float(v)
    if p in ("num_bigint::bigint::BigInt", "num_bigint::biguint::BigUint"):
        if S["k"] in ("int", "uint"): return v
        if tr: return ok(v)
        return v
    if p in ("std::path::PathBuf", "alloc::sync::Arc", "alloc::rc::Rc"): return v if p.endswith("PathBuf") else Box(v)
    if D["s"] == "u64" and S["s"] == "fields::field_gl::Fr":  # the word as it is stored
        import fieldmodels as FM
        return FM.raw(FM.fe(v, I=I))
    if D.get("p") == "wasmer::value::Value" and S["s"] in ("u32", "i32"): return Agg(None, 0, [a[0]])
    raise Undecided("conversion %s -> %s" % (S["s"], D["s"]))

# ------------------------------------------------------------------ integers
def iw(c):
    mm = re.search(r"<impl ([iu](?:8|16|32|64|128|size))>", c["p"])
    if not mm: raise Undecided(c["p"])
    n = mm.group(1)
    return A.INTW[n], n[0] == "i"
def int_model(names, fn):
    for t in A.INTW:
        for n in names: M["%s::%s" % (t, n)] = fn
def reg(*names):
    def d(f): int_model(names, f); return f
    return d
@reg("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul")
def wrapping(I, a, c):
    w, s = iw(c); return I.binop({"add": "Add", "sub": "Sub", "mul": "Mul"}[c["p"][-3:]], a[0], a[1], w, s)
@reg("wrapping_shl", "wrapping_shr", "unchecked_shl", "unchecked_shr")
def wrapping_sh(I, a, c):
    w, s = iw(c); return I.binop({"shl": "Shl", "shr": "Shr"}[c["p"][-3:]], a[0], a[1], w, s)
@reg("wrapping_neg")
def wrapping_neg(I, a, c):
    w, s = iw(c); return I.binop("Sub", 0, a[0], w, s)
@reg("overflowing_add", "overflowing_sub", "overflowing_mul")
def overflowing(I, a, c):
    w, s = iw(c)
    x, y = I.resolve(a[0]), I.resolve(a[1])
    n = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c["p"][-3:]]
    if isinstance(x, int) and isinstance(y, int): return I.slowop(n + "WithOverflow", x, y, w, s)
    return I.absop_ovf(n, x, y, w, s) if hasattr(I, "absop_ovf") else I.absop(n + "WithOverflow", x, y, w, s)
@reg("carrying_add", "borrowing_sub", "overflowing_neg")
def carrying(I, a, c): raise Undecided(c["p"])
@reg("checked_add", "checked_sub", "checked_mul")
def checked(I, a, c):
    r = overflowing(I, a, c)
    o = r.f[1]
    if isinstance(o, (bool, int)): return none() if o else some(r.f[0])
    return Phi(o, none(), some(r.f[0]))
@reg("checked_div", "checked_rem")
def checked_div(I, a, c):
    w, s = iw(c); y = conc(I, a[1])
    return none() if y == 0 else some(I.binop("Div" if c["p"].endswith("div") else "Rem", a[0], y, w, s))
@reg("checked_shl", "checked_shr")
def checked_sh(I, a, c):
    w, s = iw(c); y = conc(I, a[1])
    return none() if y >= w else some(I.binop("Shl" if c["p"].endswith("shl") else "Shr", a[0], y, w, s))
@reg("saturating_sub", "saturating_add")
def saturating(I, a, c):
    w, s = iw(c); x, y = conc(I, a[0]), conc(I, a[1])
    r = x - y if c["p"].endswith("sub") else x + y
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return max(lo, min(hi, r))
@reg("pow", "wrapping_pow")
def ipow(I, a, c):
    w, s = iw(c); b, e = I.resolve(a[0]), conc(I, a[1])
    if isinstance(b, int):
        n = pow(b, e) & ((1 << w) - 1) if not s else pow(b, e)
        return n
    r = 1
    for _ in range(e): r = I.binop("Mul", r, b, w, s)
    return r
@reg("checked_pow")
def cpow(I, a, c):
    w, s = iw(c); n = pow(conc(I, a[0]), conc(I, a[1]))
    return some(n) if n < (1 << (w - s)) else none()
@reg("max_value")
def imax(I, a, c): w, s = iw(c); return (1 << (w - s)) - 1
@reg("min_value")
def imin(I, a, c): w, s = iw(c); return -(1 << (w - 1)) if s else 0
@reg("leading_zeros")
def lz(I, a, c): w, s = iw(c); return w - (conc(I, a[0]) & ((1 << w) - 1)).bit_length()
@reg("trailing_zeros")
def tz(I, a, c):
    w, s = iw(c); x = conc(I, a[0]) & ((1 << w) - 1)
    return w if x == 0 else (x & -x).bit_length() - 1
@reg("count_ones")
def pc_(I, a, c): w, s = iw(c); return bin(conc(I, a[0]) & ((1 << w) - 1)).count("1")
@reg("ilog2")
def il2(I, a, c): return conc(I, a[0]).bit_length() - 1
@reg("next_power_of_two")
def npo2(I, a, c):
    x = conc(I, a[0]); return 1 << max(0, (x - 1).bit_length()) if x > 1 else 1
@reg("is_power_of_two")
def ipo2(I, a, c):
    x = conc(I, a[0]); return x > 0 and x & (x - 1) == 0
@reg("div_ceil")
def divc(I, a, c):
    x, y = conc(I, a[0]), conc(I, a[1])
    if y == 0: raise Panic("div by zero")
    return -(-x // y)
@reg("next_multiple_of")
def nmo(I, a, c):
    x, y = conc(I, a[0]), conc(I, a[1]); return -(-x // y) * y
@reg("rem_euclid")
def reme(I, a, c): return conc(I, a[0]) % abs(conc(I, a[1]))
@reg("abs", "unsigned_abs", "wrapping_abs")
def iabs(I, a, c): return abs(conc(I, a[0]))
@reg("abs_diff")
def iabsd(I, a, c): return abs(conc(I, a[0]) - conc(I, a[1]))
@reg("reverse_bits")
def revb(I, a, c):
    w, s = iw(c); return bv(tuple(reversed(bits_of(I.resolve(a[0]), w))))
@reg("swap_bytes")
def swapb(I, a, c):
    w, s = iw(c); b = bits_of(I.resolve(a[0]), w)
    return bv(x for i in range(w // 8 - 1, -1, -1) for x in b[8 * i:8 * i + 8])
@reg("to_le", "from_le")
def tole(I, a, c): return a[0]
@reg("rotate_left", "rotate_right")
def rotl(I, a, c):
    w, s = iw(c); b = bits_of(I.resolve(a[0]), w); k = conc(I, a[1]) % w
    if c["p"].endswith("right"): k = (w - k) % w
    return bv(b[w - k:] + b[:w - k])
def tobytes(v, w):
    b = bits_of(v, w)
    return [bv(b[i:i + 8]) for i in range(0, w, 8)]
def frombytes(l):
    return bv(x for v in l for x in bits_of(v, 8))
@reg("to_le_bytes", "to_ne_bytes")
def tlb(I, a, c): w, s = iw(c); return Arr(tobytes(I.resolve(a[0]), w))
@reg("to_be_bytes")
def tbb(I, a, c): w, s = iw(c); return Arr(tobytes(I.resolve(a[0]), w)[::-1])
def signed(n, w): return n - (1 << w) if isinstance(n, int) and n >> (w - 1) else n
@reg("from_le_bytes", "from_ne_bytes")
def flb(I, a, c):
    w, s = iw(c); n = frombytes(a[0].f); return signed(n, w) if s else n
@reg("from_be_bytes")
def fbb(I, a, c):
    w, s = iw(c); n = frombytes(a[0].f[::-1]); return signed(n, w) if s else n
def parse_int(s, base, w, sg):
    neg = s.startswith("-")
    body = s[1:] if s[:1] in "+-" else s
    if not body or neg and not sg: return None
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    if any(ch not in digs for ch in body.lower()): return None
    n = int(body, base)
    n = -n if neg else n
    if w is not None:
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if not lo <= n <= hi: return None
    return n
@reg("from_str_radix")
def fsr(I, a, c):
    w, s = iw(c); n = parse_int(cstr(a[0]), conc(I, a[1]), w, s)
    return err() if n is None else ok(n)
def parse_sym(I, s, base):
    """The number an abstract string is the decimal of, if it is one."""
    ps = pieces(s)
    if len(ps) == 1 and isinstance(ps[0], Term):
        t = ps[0]
        if t.op == "display" and base == 10 and isinstance(t.args[0], (BV, Term)): return t.args[0]
        if t.op == "strradix" and t.args[1] == base and isinstance(t.args[0], (BV, Term)): return t.args[0]
    return None
@m("str::parse", "FromStr::from_str")
def sparse(I, a, c):
    tid = c["a"][0] if c["p"].endswith("from_str") else c["a"][-1]
    t = I.types[tid]
    if t["k"] in ("int", "uint"):
        s = sval(a[0]); w, sg = I.width(tid)
        if isinstance(s, SymStr):
            v = parse_sym(I, s, 10)
            if v is None: raise Undecided("parse of abstract string")
            b = bits_of(v, max(w, v.w if isinstance(v, BV) else w))
            if bmax(b[w - 1 if sg else w:]) != 0: raise Undecided("parse of an abstract number that may not fit")
            return ok(bv(b[:w]))
        n = parse_int(s, 10, w, sg)
        return err() if n is None else ok(n)
    if t.get("p") == "alloc::string::String": return ok(StrObj(sval(a[0])))
    if t.get("p", "").startswith("num_bigint"):
        s = sval(a[0])
        if isinstance(s, SymStr):
            v = parse_sym(I, s, 10)
            if v is None: raise Undecided("parse of abstract string")
            return ok(v)
        n = parse_int(s, 10, None, True); return err() if n is None else ok(n)
    if t["k"] == "float":
        try: return ok(float(cstr(a[0])))
        except ValueError: return err()
    for i in I.mir.bypath.get("<%s as core::str::traits::FromStr>::from_str" % t["s"], []):
        if I.fns[i]["mono"]: return I.run(i, [a[0]])
    raise Undecided("parse into %s" % t["s"])
@m("f64::sqrt", "f64::floor", "f64::ceil", "f64::log2", "f64::powf", "f64::powi", "f64::round", "f64::ln", "f32::log2")
def flt(I, a, c):
    import math
    n = c["p"].split("::")[-1]; x = a[0]
    if not isinstance(x, float): raise Undecided("float")
    return {"sqrt": lambda: math.sqrt(x), "floor": lambda: float(math.floor(x)), "ceil": lambda: float(math.ceil(x)), "log2": lambda: math.log2(x), "ln": lambda: math.log(x),
            "powf": lambda: x ** a[1], "powi": lambda: x ** a[1], "round": lambda: float(math.floor(x + 0.5))}[n]()
def prim_op(name, op):
    def f(I, a, c):
        x, y = deref(a[0]), deref(a[1])
        tid = c["a"][0]
        while I.types[tid]["k"] == "ref": tid = I.types[tid]["e"]
        t = I.types[tid]
        if t["k"] in ("int", "uint", "bool", "float"):
            w, sg = I.width(tid)
            return I.binop(op, x, y, w, sg)
        if t.get("p", "").startswith("num_bigint"): return big_op(I, op, x, y)
        if t.get("p") == "alloc::string::String" and op == "Add": return StrObj(scat(sval(x), sval(y)))
        raise Undecided("%s on %s" % (name, t["s"]))
    M[name] = f
for n_, o_ in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem"), ("BitAnd::bitand", "BitAnd"),
               ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor"), ("Shl::shl", "Shl"), ("Shr::shr", "Shr")):
    prim_op(n_, o_)
def prim_assign(name, base):
    def f(I, a, c):
        r = M[base](I, [d1(a[0]), a[1]], c)
        a[0].set(r); return unit()
    M[name] = f
for n_ in ("Add", "Sub", "Mul", "Div", "Rem"):
    prim_assign("%sAssign::%s_assign" % (n_, n_.lower()), "%s::%s" % (n_, n_.lower()))
for n_, l_ in (("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor"), ("Shl", "shl"), ("Shr", "shr")):
    prim_assign("%sAssign::%s_assign" % (n_, l_), "%s::%s" % (n_, l_))
@m("Not::not")
def m_not(I, a, c):
    x = deref(a[0]); return t_not(I.resolve(x)) if isinstance(x, bool) or isinstance(x, Term) and x.w == 1 else I.unop("Not", x, c["a"][0])
@m("Neg::neg")
def m_neg(I, a, c):
    x = deref(a[0])
    tid = c["a"][0]
    while I.types[tid]["k"] == "ref": tid = I.types[tid]["e"]
    if I.types[tid].get("p", "").startswith("num_bigint"): return -conc(I, x)
    return I.unop("Neg", x, tid)

# ------------------------------------------------------------------ big integers (unbounded Python ints / wide bit vectors)
BW = 1024
def big_op(I, op, x, y):
    x, y = I.resolve(deref(x)), I.resolve(deref(y))
    if isinstance(x, int) and isinstance(y, int):
        if op in ("Div", "Rem") and y == 0: raise Panic("division by zero")
        return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                "Div": lambda: (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
                "Rem": lambda: (abs(x) % abs(y)) * (-1 if x < 0 else 1), "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                "Shl": lambda: x << y, "Shr": lambda: x >> y}[op]()
    return I.absop(op, x, y, BW, False)
@m("Num::from_str_radix", "BigUint::parse_bytes", "BigInt::parse_bytes")
def big_fsr(I, a, c):
    tid = c["a"][0] if c.get("a") else None
    if tid is not None and I.types[tid]["k"] in ("int", "uint"):
        w, s = I.width(tid); n = parse_int(cstr(a[0]), conc(I, a[1]), w, s)
    else: n = parse_int(cstr(a[0]).replace("_", ""), conc(I, a[1]), None, True)
    if "parse_bytes" in c["p"]: return none() if n is None else some(n)
    return err() if n is None else ok(n)
def minbytes(v):
    if isinstance(v, int): return max(1, (v.bit_length() + 7) // 8)
    b = v.bits
    hi = max(i for i, x in enumerate(b) if x != 0) + 1
    return (hi + 7) // 8
@m("BigUint::from_bytes_be", "BigUint::from_bytes_le")
def big_from_bytes(I, a, c):
    l = items(a[0])
    if c["p"].endswith("be"): l = l[::-1]
    return frombytes(l)
@m("BigInt::from_bytes_be", "BigInt::from_bytes_le")
def bigi_from_bytes(I, a, c):
    l = items(a[1])
    if c["p"].endswith("be"): l = l[::-1]
    if I.unphi(a[0]).v != 2 and not (isinstance(frombytes(l), int) and frombytes(l) == 0):
        if isinstance(frombytes(l), int): return -frombytes(l)
        raise Undecided("negative")
    return frombytes(l)
@m("BigUint::to_bytes_le", "BigUint::to_bytes_be", "BigInt::to_bytes_le", "BigInt::to_bytes_be")
def big_to_bytes(I, a, c):
    v = I.resolve(deref(a[0]))
    neg = isinstance(v, int) and v < 0
    if neg: v = -v
    n = minbytes(v)
    b = tobytes(v, 8 * n)
    if not isinstance(v, int): b = LenVec(b)
    if c["p"].endswith("be"): b = b[::-1]
    r = Vec(list(b))
    if "BigInt" in c["p"]: return Agg(None, 0, [Agg(None, 0 if neg else (1 if v == 0 else 2), []), r])
    return r
class LenVec(list): pass
@m("BigInt::to_u64_digits", "BigUint::to_u64_digits", "BigInt::to_u32_digits", "BigUint::to_u32_digits", "BigUint::iter_u64_digits")
def big_digits(I, a, c):
    v = I.resolve(deref(a[0])); w = 64 if "64" in c["p"] else 32
    neg = isinstance(v, int) and v < 0
    if neg: v = -v
    if isinstance(v, int):
        l = []
        x = v
        while x: l.append(x & ((1 << w) - 1)); x >>= w
    else:
        hi = max(i for i, x in enumerate(v.bits) if x != 0) + 1
        l = [bv((v.bits + (0,) * w)[i:i + w]) for i in range(0, hi, w)]
        I.assumed.append((T("toplimb", v), "nonzero top digit", ""))
    if "BigInt" in c["p"]: return Agg(None, 0, [Agg(None, 0 if neg else (1 if v == 0 else 2), []), Vec(l)])
    return Vec(l)
@m("BigInt::bits", "BigUint::bits")
def big_bits(I, a, c):
    v = conc(I, deref(a[0])); return abs(v).bit_length()
@m("BigUint::to_str_radix", "BigInt::to_str_radix")
def big_to_str(I, a, c):
    v = I.resolve(deref(a[0])); b = conc(I, a[1])
    if not isinstance(v, int): return StrObj(SymStr([T("strradix", v, b)]))
    return StrObj(to_base(v, b))
def to_base(v, b):
    if v < 0: return "-" + to_base(-v, b)
    if v == 0: return "0"
    s = ""
    while v: s = "0123456789abcdefghijklmnopqrstuvwxyz"[v % b] + s; v //= b
    return s
@m("Zero::zero")
def z_zero(I, a, c):
    t = I.types[c["a"][0]]
    if t["s"] in I.fieldty: return I.fieldty[t["s"]].zero
    return 0
@m("One::one")
def z_one(I, a, c):
    t = I.types[c["a"][0]]
    if t["s"] in I.fieldty: return I.fieldty[t["s"]].one
    return 1
@m("Zero::is_zero", "One::is_one")
def z_is_zero(I, a, c): return eq(I, a[0], 0 if c["p"].endswith("is_zero") else 1)
@m("ToPrimitive::to_u32", "ToPrimitive::to_u64", "ToPrimitive::to_usize", "ToPrimitive::to_i64", "ToPrimitive::to_i32", "ToPrimitive::to_u128")
def to_prim(I, a, c):
    t = c["p"].split("_")[-1]; w = A.INTW[t]
    v = I.resolve(deref(a[0]))
    if isinstance(v, int):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[0] == "i" else (0, (1 << w) - 1)
        return some(v) if lo <= v <= hi else none()
    b = v.bits if isinstance(v, BV) else bits_of(v, v.w)
    if all(x == 0 for x in b[w:]): return some(bv((b + (0,) * w)[:w]))
    raise Undecided("to_%s of %s" % (t, short(v)))
@m("Integer::div_rem", "Integer::div_mod_floor")
def big_div_rem(I, a, c): return Agg(None, 0, [big_op(I, "Div", a[0], a[1]), big_op(I, "Rem", a[0], a[1])])
@m("BigUint::pow", "BigInt::pow")
def big_pow(I, a, c): return conc(I, deref(a[0])) ** conc(I, a[1])
@m("BigUint::modpow", "BigInt::modpow")
def big_modpow(I, a, c): return pow(conc(I, deref(a[0])), conc(I, deref(a[1])), conc(I, deref(a[2])))
@m("ToBigInt::to_bigint", "BigInt::to_biguint", "ToBigUint::to_biguint")
def to_bigint(I, a, c): return some(deref(a[0]))

# ------------------------------------------------------------------ strings
@m("String::new", "String::with_capacity")
def str_new(I, a, c): return StrObj("")
@m("String::push_str", "String::write_str", "Write::write_str")
def push_str(I, a, c):
    s = deref(a[0])
    if type(s) is Opaque: return ok(unit())
    touch(s.f); s.f[0] = scat(s.f[0], sval(a[1]))
    return ok(unit()) if c["p"].endswith("write_str") else unit()
@m("String::push", "Write::write_char")
def push_ch(I, a, c):
    s = deref(a[0]); touch(s.f); s.f[0] = scat(s.f[0], chr(conc(I, a[1])))
    return ok(unit()) if c["p"].endswith("write_char") else unit()
@m("ToString::to_string", "str::to_string", "str::to_owned", "String::to_string", "str::to_string")
def to_string(I, a, c):
    return StrObj(fmt_display(I, a[0], c["a"][0] if c.get("a") else None))
@m("String::from_utf8", "str::from_utf8")
def from_utf8(I, a, c):
    l = items(a[0])
    b = [conc(I, x, "byte") for x in l]
    try: s = bytes(b).decode()
    except UnicodeDecodeError: return err()
    return ok(StrObj(s) if "String" in c["p"] else s)
@m("Cow::into_owned")
def cow_into_owned(I, a, c): return deref(a[0])
@m("String::from_utf8_lossy")
def from_utf8_lossy(I, a, c):
    return StrObj(bytes(conc(I, x) for x in items(a[0])).decode("utf8", "replace"))
def pat(I, p):
    p = deref(p)
    if isinstance(p, int): return lambda s: s.startswith(chr(p)), chr(p)
    if isinstance(p, (str, StrObj)): return lambda s: s.startswith(cstr(p)), cstr(p)
    return None, None
def patchar(I, p):
    """Predicate over single characters."""
    q = deref(p)
    if isinstance(q, int): return lambda ch: ch == chr(q)
    if isinstance(q, (Arr, SRef, Vec)):
        cs = [chr(x) for x in items(q)]; return lambda ch: ch in cs
    if isinstance(q, (str, StrObj)): return None
    return lambda ch: truth(I, I.call_value(p, [ord(ch)]))
@m("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::trim_left_matches", "str::trim_right_matches")
def trim_matches(I, a, c):
    s = sval(a[0]); k = c["p"].split("::")[-1]
    if isinstance(s, SymStr):
        ps = list(s.pieces)
        x = deref(a[1])
        y = cstr(x) if isinstance(x, (str, StrObj)) else chr(x) if isinstance(x, int) else None
        if y is None: raise Undecided("trim of abstract string")
        if "end" not in k and "right" not in k and isinstance(ps[0], str):
            while ps[0].startswith(y): ps[0] = ps[0][len(y):]
            if not ps[0]: ps.pop(0); raise Undecided("trim of abstract string")
        elif "end" not in k: raise Undecided("trim of abstract string")
        if ("end" in k or k == "trim_matches") and isinstance(ps[-1], str):
            while ps[-1].endswith(y): ps[-1] = ps[-1][:-len(y)]
            if not ps[-1]: ps.pop()
        return scat(*[SymStr([p]) if not isinstance(p, str) else p for p in ps])
    pc = patchar(I, a[1])
    if pc is None:
        y = cstr(a[1])
        if y:
            if "end" not in k and "right" not in k:
                while s.startswith(y): s = s[len(y):]
            if "end" in k or "right" in k or k == "trim_matches":
                while s.endswith(y): s = s[:-len(y)]
        return s
    if "end" not in k and "right" not in k:
        while s and pc(s[0]): s = s[1:]
    if "end" in k or "right" in k or k == "trim_matches":
        while s and pc(s[-1]): s = s[:-1]
    return s
@m("str::trim", "str::trim_start", "str::trim_end")
def trim(I, a, c):
    s = cstr(a[0]); k = c["p"].split("::")[-1]
    return s.strip() if k == "trim" else s.lstrip() if "start" in k else s.rstrip()
@m("str::strip_prefix")
def strip_prefix(I, a, c):
    f, y = pat(I, a[1]); s = cstr(a[0])
    return some(s[len(y):]) if s.startswith(y) else none()
@m("str::strip_suffix")
def strip_suffix(I, a, c):
    f, y = pat(I, a[1]); s = cstr(a[0])
    return some(s[:-len(y)] if y else s) if s.endswith(y) else none()
@m("str::starts_with")
def starts_with(I, a, c):
    s = sval(a[0]); f, y = pat(I, a[1])
    if isinstance(s, SymStr):
        if isinstance(s.pieces[0], str) and len(s.pieces[0]) >= len(y): return s.pieces[0].startswith(y)
        raise Undecided("starts_with of abstract string")
    if y is None: pc = patchar(I, a[1]); return bool(s) and pc(s[0])
    return s.startswith(y)
@m("str::ends_with")
def ends_with(I, a, c):
    s = cstr(a[0]); f, y = pat(I, a[1]); return s.endswith(y)
@m("str::contains")
def str_contains(I, a, c):
    s = cstr(a[0]); f, y = pat(I, a[1])
    if y is None: pc = patchar(I, a[1]); return any(pc(ch) for ch in s)
    return y in s
@m("str::find")
def str_find(I, a, c):
    s = cstr(a[0]); f, y = pat(I, a[1])
    if y is None: raise Undecided("find")
    i = s.find(y); return some(len(s[:i].encode())) if i >= 0 else none()
@m("str::replace", "str::replacen")
def str_replace(I, a, c):
    s = sval(a[0]); y = cstr(a[1]) if isinstance(deref(a[1]), (str, StrObj)) else chr(deref(a[1])); z = sval(a[2])
    n = conc(I, a[3]) if len(a) > 3 else -1
    if isinstance(s, str) and isinstance(z, str): return StrObj(s.replace(y, z, n) if n >= 0 else s.replace(y, z))
    if n >= 0: raise Undecided("replacen on abstract string")
    out = ""
    for p in pieces(s):
        if isinstance(p, str):
            parts = p.split(y)
            for i, q in enumerate(parts): out = scat(out, z if i else "", q)
        else: out = scat(out, SymStr([p]))
    return StrObj(out)
@m("str::split", "str::split_terminator", "str::splitn", "str::rsplit")
def str_split(I, a, c):
    s = cstr(a[0])
    if c["p"].endswith("splitn"): n = conc(I, a[1]); f, y = pat(I, a[2]); l = s.split(y, n - 1)
    else:
        f, y = pat(I, a[1])
        if y is None:
            pc = patchar(I, a[1]); l = [""]
            for ch in s:
                if pc(ch): l.append("")
                else: l[-1] += ch
        else: l = s.split(y)
    if c["p"].endswith("rsplit"): l = l[::-1]
    return Seq(len(l), lambda i: l[i])
@m("str::split_once")
def split_once(I, a, c):
    s = cstr(a[0]); f, y = pat(I, a[1])
    x = s.split(y, 1)
    return some(Agg(None, 0, x)) if len(x) == 2 else none()
@m("str::split_whitespace", "str::lines")
def split_ws(I, a, c):
    l = cstr(a[0]).split() if "white" in c["p"] else cstr(a[0]).splitlines()
    return Seq(len(l), lambda i: l[i])
@m("str::chars")
def chars(I, a, c):
    l = [ord(x) for x in cstr(a[0])]; return Seq(len(l), lambda i: l[i])
@m("str::char_indices")
def char_indices(I, a, c):
    s = cstr(a[0]); l = []; o = 0
    for ch in s: l.append((o, ord(ch))); o += len(ch.encode())
    return Seq(len(l), lambda i: Agg(None, 0, list(l[i])))
@m("str::bytes")
def s_bytes(I, a, c):
    l = list(cstr(a[0]).encode()); return Seq(len(l), lambda i: l[i])
@m("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase")
def to_lower(I, a, c):
    s = cstr(a[0]); return StrObj(s.lower() if "lower" in c["p"] else s.upper())
@m("str::repeat")
def s_repeat(I, a, c): return StrObj(scat(*[sval(a[0])] * conc(I, a[1])))
@m("char::to_digit", "methods::to_digit")
def to_digit(I, a, c):
    n = parse_int(chr(conc(I, a[0])), conc(I, a[1]), None, False); return none() if n is None else some(n)
@m("char::is_alphanumeric", "char::is_numeric", "char::is_ascii_digit", "char::is_ascii_hexdigit", "char::is_alphabetic", "char::is_whitespace", "char::is_digit", "methods::is_numeric", "methods::is_alphanumeric")
def ch_is(I, a, c):
    x = chr(conc(I, deref(a[0]))); n = c["p"].split("::")[-1]
    return {"is_alphanumeric": x.isalnum(), "is_numeric": x.isnumeric(), "is_ascii_digit": x in "0123456789", "is_ascii_hexdigit": x in "0123456789abcdefABCDEF",
            "is_alphabetic": x.isalpha(), "is_whitespace": x.isspace(), "is_digit": len(a) > 1 and parse_int(x, conc(I, a[1]), None, False) is not None}[n]
@m("str::is_char_boundary")
def icb(I, a, c): return True
@m("String::truncate")
def s_trunc(I, a, c):
    s = deref(a[0]); touch(s.f); s.f[0] = cstr(s)[:conc(I, a[1])]; return unit()
@m("String::pop")
def s_pop(I, a, c):
    s = deref(a[0]); x = s.f[0]
    if isinstance(x, SymStr):
        if isinstance(x.pieces[-1], str) and x.pieces[-1]:
            touch(s.f); ch = x.pieces[-1][-1]
            s.f[0] = scat(SymStr(x.pieces[:-1]), x.pieces[-1][:-1]) if len(x.pieces[-1]) > 1 else SymStr(x.pieces[:-1])
            return some(ord(ch))
        raise Undecided("pop of abstract string")
    if not x: return none()
    touch(s.f); s.f[0] = x[:-1]; return some(ord(x[-1]))
@m("String::insert_str")
def s_insert_str(I, a, c):
    s = deref(a[0]); i = conc(I, a[1]); x = cstr(s); touch(s.f); s.f[0] = scat(x[:i], sval(a[2]), x[i:]); return unit()
@m("String::insert")
def s_insert(I, a, c):
    s = deref(a[0]); i = conc(I, a[1]); x = cstr(s); touch(s.f); s.f[0] = x[:i] + chr(conc(I, a[2])) + x[i:]; return unit()
@m("Path::new", "Path::to_str", "Path::to_string_lossy", "PathBuf::from", "Path::to_path_buf", "OsStr::to_str")
def path_new(I, a, c):
    s = sval(a[0])
    return some(s) if c["p"].endswith("to_str") else s

# ------------------------------------------------------------------ formatting
class FArg:
    __slots__ = ("kind", "v", "tid")
    def __init__(self, k, v, t): self.kind = k; self.v = v; self.tid = t
class FArgs:
    __slots__ = ("tpl", "args")
    def __init__(self, t, a): self.tpl = t; self.args = a
def mk_farg(kind):
    def f(I, a, c): return FArg(kind, a[0], c["a"][0] if c.get("a") else None)
    return f
for k_ in ("display", "debug", "lower_hex", "upper_hex", "binary", "octal", "lower_exp", "pointer"):
    M["Argument::new_" + k_] = mk_farg(k_)
@m("Argument::from_usize")
def farg_usize(I, a, c): return FArg("usize", a[0], None)
@m("Arguments::new")
def fmt_args(I, a, c):
    tpl = deref(a[0])
    b = bytes(tpl.f) if isinstance(tpl, Arr) else bytes(items(tpl))
    return FArgs(b, [x for x in items(a[1])])
@m("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def fmt_from_str(I, a, c): return FArgs(sval(a[0]) if not isinstance(deref(a[0]), Arr) else scat(*[sval(x) for x in items(a[0])]), [])
def render(I, fa):
    if isinstance(fa.tpl, (str, SymStr)): return fa.tpl
    b = fa.tpl; i = 0; out = ""; nxt = 0
    while i < len(b):
        x = b[i]; i += 1
        if x == 0: break
        if x < 0x80:
            out = scat(out, b[i:i + x].decode()); i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2
            out = scat(out, b[i:i + n].decode()); i += n
        else:
            flags = 0; width = prec = None; idx = None
            if x & 1: flags = int.from_bytes(b[i:i + 4], "little"); i += 4
            if x & 2: width = b[i] | b[i + 1] << 8; i += 2
            if x & 4: prec = b[i] | b[i + 1] << 8; i += 2
            if x & 8: idx = b[i] | b[i + 1] << 8; i += 2
            if idx is None: idx = nxt
            nxt = idx + 1
            if x & 16: width = conc(I, deref(fa.args[width].v), "width")
            if x & 32: prec = conc(I, deref(fa.args[prec].v), "precision")
            out = scat(out, fmt_arg(I, fa.args[idx], flags, width, prec))
    return out
def fmt_arg(I, fa, flags, width, prec):
    ALT = bool(flags & (1 << 23)) ; ZERO = bool(flags & (1 << 24))
    if isinstance(fa, Ref): fa = deref(fa)
    v = deref(fa.v)
    k = fa.kind
    if k == "display": s = fmt_display(I, fa.v, fa.tid)
    elif k == "debug": s = fmt_debug(I, fa.v, ALT)
    elif k in ("lower_hex", "upper_hex", "binary", "octal"):
        v = I.resolve(v)
        base = {"lower_hex": 16, "upper_hex": 16, "binary": 2, "octal": 8}[k]
        if isinstance(v, FE): v = field_int(v)
        if isinstance(v, int):
            if v < 0: raise Undecided("negative hex")
            s = to_base(v, base)
            if k == "upper_hex": s = s.upper()
        else: s = SymStr([T("fmt_" + k, v)])
        if ALT:
            pre = {16: "0x", 2: "0b", 8: "0o"}[base]
            if ZERO and width and isinstance(s, str): return pre + s.rjust(width - 2, "0")
            s = scat(pre, s)
    else: raise Undecided("format %s" % k)
    if width:
        if isinstance(s, SymStr): return SymStr([T("pad", tuple(map(akey, s.pieces)), flags, width)])
        fill = "0" if ZERO else chr(flags & 0x1FFFFF or 32)
        al = (flags >> 29) & 3
        num = isinstance(v, (int, float))
        if ZERO or al == 1 or (al == 3 and num): s = s.rjust(width, fill)
        elif al == 2: s = s.center(width, fill)
        else: s = s.ljust(width, fill)
    return s
def field_int(v):
    """Canonical integer of a field element as a value."""
    if v.is_const(): return v.cval()
    k = known_bits(v)
    if k is not None: return k
    return bv_atom(T("canon", v, w=v.F.nbits), 64 * v.F.limbs, v.F.nbits)
def known_bits(v):
    """Bits of an element that is a sum of disjoint integer pieces below the modulus."""
    F = v.F
    w = 64 * F.limbs; out = [0] * w
    if len(v.d) > 64: return None
    for m, c in v.d.items():
        if m == 0:
            l = [(c >> i) & 1 for i in range(w)]
        else:
            mono = F.monos[m]
            if len(mono) != 1 or mono[0][1] != 1: return None
            t = F.atoms[mono[0][0]]
            if t.op != "ofint" or c & (c - 1): return None
            l = (0,) * (c.bit_length() - 1) + bits_of(t.args[0], w)
            if any(x != 0 for x in l[w:]): return None
            l = l[:w]
        for i, x in enumerate(l):
            if x != 0:
                if out[i] != 0: return None
                out[i] = x
    r = bv(out)
    if len(v.d) == 1 and next(iter(v.d.values())) == 1: return r      # accepted as canonical when it was built
    from fieldmodels import limit
    return r if bmax(out) < F.p or limit(out) < F.p else None
def repr_text(I, x):
    """text of a prime field representation (array of little-endian words)"""
    if isinstance(x, Agg) and (x.ty is None or I.types[x.ty]["s"].endswith("Repr")) and len(x.f) == 1 and not isinstance(x.f[0], (int, str)):
        try: w = items(x.f[0])
        except Exception: return None
        if len(w) in (4, 6) and all(isinstance(y, int) for y in w): return "0x" + "".join("%016x" % y for y in w[::-1])
def fmt_display(I, v, tid=None):
    x = I.resolve(deref(v))
    if isinstance(x, bool): return "true" if x else "false"
    if isinstance(x, int):
        t = I.types[tid] if tid is not None else None
        while t is not None and t["k"] == "ref": t = I.types[t["e"]]
        if t is not None and t["k"] == "char": return chr(x)
        return str(x)
    if isinstance(x, (str, SymStr)): return x
    if isinstance(x, StrObj): return x.f[0]
    if isinstance(x, float): return repr(x)
    if isinstance(x, FArgs): return render(I, x)
    if isinstance(x, FE):
        h = getattr(I, "fe_display", None)
        if h: return h(x)
        return SymStr([T("display", x)])
    if isinstance(x, (BV, Term)): return SymStr([T("display", x)])
    r = repr_text(I, x)
    if r is not None: return r
    if isinstance(x, Agg) and x.ty is not None:
        impl = find_impl(I, x.ty, "core::fmt::Display::fmt")
        if impl is not None:
            buf = StrObj(""); fm = Formatter(buf)
            I.run(impl, [Ref([x], 0), Ref([fm], 0)])
            return buf.f[0]
    if isinstance(x, Opaque): return SymStr([T("display", x.name)])
    t = I.types[tid] if tid is not None else None
    while t is not None and t["k"] == "ref": t = I.types[t["e"]]
    if t is not None and t.get("p") == "serde_json::number::Number" and isinstance(x, Agg) and isinstance(x.f[0], int): return str(x.f[0])
    raise Undecided("display of %s" % short(x))
class Fnv:
    """64-bit FNV-1a state of crate fnv"""
    def __init__(self, h=0xcbf29ce484222325): self.f = [h]
    def __deepcopy__(self, memo): return Fnv(self.f[0])
@m("Hasher::write")
def hasher_write(I, a, c):
    h = deref(a[0])
    if not isinstance(h, Fnv): raise Undecided("hasher %s" % short(h))
    touch(h.f)
    for b in (cstr(a[1]).encode() if isinstance(a[1], (str, StrObj)) else [conc(I, x) for x in items(deref(a[1]))]): h.f[0] = ((h.f[0] ^ b) * 0x100000001b3) & (2**64 - 1)
    return unit()
@m("Hasher::finish")
def hasher_finish(I, a, c):
    h = deref(a[0])
    if not isinstance(h, Fnv): raise Undecided("hasher %s" % short(h))
    return h.f[0]
class Formatter:
    def __init__(self, buf): self.buf = buf; self.f = []
def fmt_debug(I, v, alt=False):
    x = I.resolve(deref(v))
    if isinstance(x, (str, StrObj)): return '"' + cstr(x).replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(x, FE) and x.is_const() and x.F.path.startswith("blstrs"): return "Scalar(0x%064x)" % x.cval()
    if isinstance(x, (int, bool, FE, BV, Term, float)): return fmt_display(I, x)
    r = repr_text(I, x)
    if r is not None: return r
    return SymStr([T("debug", short(x))])
@m("fmt::format", "format::format", "fmt::format_inner")
def fmt_format(I, a, c): return StrObj(render(I, a[0]))
@m("Formatter::write_fmt", "Write::write_fmt")
def fmt_write(I, a, c):
    w = deref(a[0])
    try: s = render(I, a[1])
    except Undecided:
        if isinstance(w, Formatter): s = SymStr([T("rendered", "?")])
        else: raise
    b = w.buf if isinstance(w, Formatter) else w
    if isinstance(b, StrObj):
        touch(b.f); b.f[0] = scat(b.f[0], s)
    elif isinstance(b, Vec):
        touch(b.f); b.f.extend(s.encode() if isinstance(s, str) else [s])
    elif isinstance(b, Opaque):
        h = getattr(b, "write", None)
        if h: h(I, s)
    else:
        import iomodels
        return iomodels.writer(I, a[0], list(s.encode()) if isinstance(s, str) else [s])
    return ok(unit())
@m("Formatter::write_str", "Formatter::pad", "Formatter::write_char")
def fmt_write_str(I, a, c):
    w = deref(a[0]); s = sval(a[1]) if not isinstance(a[1], int) else chr(a[1])
    b = w.buf if isinstance(w, Formatter) else w
    touch(b.f); b.f[0] = scat(b.f[0], s)
    return ok(unit())
@m("Display::fmt", "LowerHex::fmt", "Debug::fmt")
def disp_fmt(I, a, c):
    w = deref(a[1]); s = fmt_display(I, a[0]) if "Display" in c["p"] else fmt_debug(I, a[0]) if "Debug" in c["p"] else fmt_arg(I, FArg("lower_hex", a[0], None), 0, None, None)
    touch(w.buf.f); w.buf.f[0] = scat(w.buf.f[0], s)
    return ok(unit())
@m("Formatter::debug_struct_fields_finish", "Formatter::debug_struct_field1_finish", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish",
   "Formatter::debug_struct_field4_finish", "Formatter::debug_struct_field5_finish", "Formatter::debug_tuple_field1_finish", "Formatter::debug_tuple_field2_finish", "Formatter::alternate")
def fmt_dbg(I, a, c): return ok(unit()) if not c["p"].endswith("alternate") else False
@m("log::max_level", "log::STATIC_MAX_LEVEL", "__private_api::loc", "__private_api::log", "__private_api::enabled", "log::log", "stdio::_print", "stdio::_eprint", "io::_print", "io::_eprint")
def log_(I, a, c): return Opaque("log") if "level" in c["p"] or "loc" in c["p"] else (unit() if not c["p"].endswith("enabled") else False)

# ------------------------------------------------------------------ panics, errors
@m("panicking::panic_fmt", "panicking::panic", "panicking::assert_failed", "panicking::unimplemented_default_msg", "panicking::panic_default_msg", "panicking::todo_default_msg",
   "panicking::panic_bounds_check", "panicking::unreachable_display", "panicking::panic_display", "rt::begin_panic", "panicking::begin_panic", "option::unwrap_failed", "process::exit", "panicking::panic_explicit",
   "panicking::unreachable_default_msg", "panicking::panic_str_2015", "panicking::assert_failed_inner", "process::abort")
def panic(I, a, c):
    msg = c["p"].split("::")[-1]
    try:
        for x in a:
            x = deref(x)
            if isinstance(x, FArgs): msg = str(render(I, x))
            elif isinstance(x, str): msg = x
    except Exception: pass
    raise Panic(msg)
@m("__private::format_err", "Error::msg", "Adhoc::new", "AdhocKind::anyhow_kind", "Error::new", "Error::other", "Error::from", "TraitKind::anyhow_kind", "Trait::new", "Error::context", "private::format_err", "BoxedKind::anyhow_kind",
   "Error::custom", "RuntimeError::new", "kind::anyhow_kind", "Error::description")
def mk_error(I, a, c): return Opaque("error")
@m("__private::must_use")
def a_must_use(I, a, c): return a[0]
@m("Error::kind")
def err_kind(I, a, c): raise Undecided("error kind")

# ------------------------------------------------------------------ maps
@m("HashMap::new", "HashMap::with_hasher", "HashMap::with_capacity_and_hasher", "HashMap::with_capacity", "HashSet::new", "HashSet::with_capacity")
def hm_new(I, a, c): return A.fresh(MapObj("hashset" if "HashSet" in c["p"] else "hash"))
@m("BTreeMap::new", "BTreeSet::new")
def bm_new(I, a, c): return A.fresh(MapObj("btreeset" if "BTreeSet" in c["p"] else "btree"))
@m("HashMap::insert", "BTreeMap::insert")
def map_insert(I, a, c):
    mo = deref(a[0]); k = hkey(a[1]); old = mo.d.get(k)
    touch(mo.d); mo.d[k] = [a[1] if old is None else old[0], a[2]]
    return some(old[1]) if old else none()
@m("HashSet::insert", "BTreeSet::insert")
def set_insert(I, a, c):
    mo = deref(a[0]); k = hkey(a[1]); old = k in mo.d
    if not old: touch(mo.d); mo.d[k] = [a[1], unit()]
    return not old
@m("HashMap::get", "BTreeMap::get", "HashMap::get_mut", "BTreeMap::get_mut")
def map_get(I, a, c):
    mo = deref(a[0]); e = mo.d.get(hkey(a[1]))
    return some(Ref(e, 1)) if e else none()
@m("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def map_has(I, a, c): return hkey(a[1]) in deref(a[0]).d
@m("HashMap::remove", "BTreeMap::remove")
def map_remove(I, a, c):
    mo = deref(a[0]); touch(mo.d); e = mo.d.pop(hkey(a[1]), None)
    return some(e[1]) if e else none()
@m("HashMap::clear", "BTreeMap::clear", "HashSet::clear")
def map_clear(I, a, c):
    mo = deref(a[0]); touch(mo.d); mo.d.clear(); return unit()
@m("HashMap::iter", "BTreeMap::iter", "HashMap::iter_mut", "BTreeMap::iter_mut")
def map_it(I, a, c): return map_iter(deref(a[0]))
@m("HashMap::keys", "BTreeMap::keys", "HashSet::iter", "BTreeSet::iter", "HashMap::into_keys", "BTreeMap::into_keys")
def map_keys(I, a, c):
    mo = deref(a[0]); ks = map_sorted(mo); return Seq(len(ks), lambda i: Ref(mo.d[ks[i]], 0))
@m("HashMap::values", "BTreeMap::values", "HashMap::values_mut", "BTreeMap::values_mut", "HashMap::into_values")
def map_values(I, a, c):
    mo = deref(a[0]); ks = map_sorted(mo); return Seq(len(ks), lambda i: Ref(mo.d[ks[i]], 1))
@m("BTreeMap::retain", "HashMap::retain")
def map_retain(I, a, c):
    mo = deref(a[0]); f = Ref([a[1]], 0)
    keep = {k: mo.d[k] for k in map_sorted(mo) if truth(I, I.call_value(f, [Ref(mo.d[k], 0), Ref(mo.d[k], 1)]))}
    touch(mo.d); mo.d.clear(); mo.d.update(keep); return unit()
@m("BTreeMap::first_key_value", "BTreeMap::last_key_value")
def map_first(I, a, c):
    mo = deref(a[0]); ks = map_sorted(mo)
    if not ks: return none()
    e = mo.d[ks[0 if "first" in c["p"] else -1]]
    return some(Agg(None, 0, [Ref(e, 0), Ref(e, 1)]))
class Entry:
    def __init__(self, mo, k): self.mo = mo; self.k = k
@m("HashMap::entry", "BTreeMap::entry")
def map_entry(I, a, c):
    mo = deref(a[0]); k = hkey(a[1]); e = Entry(mo, a[1])
    return Agg(None, (0 if k in mo.d else 1) if "HashMap" in c["p"] else (1 if k in mo.d else 0), [e])
def ent(v):
    v = deref(v)
    return v.f[0] if isinstance(v, Agg) else v
def ent_slot(e): return e.mo.d.get(hkey(e.k))
@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def entry_or(I, a, c):
    e = ent(a[0]); s = ent_slot(e)
    if s is None:
        n = c["p"].split("::")[-1]
        v = a[1] if n == "or_insert" else I.call_value(a[1], []) if n == "or_insert_with" else default_of(I, c["a"][1] if len(c.get("a", [])) > 1 else None)
        touch(e.mo.d); s = e.mo.d[hkey(e.k)] = [e.k, v]
    return Ref(s, 1)
@m("Entry::and_modify")
def entry_mod(I, a, c):
    e = ent(a[0]); s = ent_slot(e)
    if s is not None: I.call_value(a[1], [Ref(s, 1)])
    return a[0]
@m("Entry::key", "VacantEntry::key", "OccupiedEntry::key")
def entry_key(I, a, c): return Ref([ent(a[0]).k], 0)
@m("VacantEntry::insert")
def ventry_insert(I, a, c):
    e = ent(a[0]); touch(e.mo.d); s = e.mo.d[hkey(e.k)] = [e.k, a[1]]; return Ref(s, 1)
@m("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def oentry_get(I, a, c): return Ref(ent_slot(ent(a[0])), 1)
@m("OccupiedEntry::insert")
def oentry_insert(I, a, c):
    s = ent_slot(ent(a[0])); touch(s); old = s[1]; s[1] = a[1]; return old

# ------------------------------------------------------------------ locks, laziness, threads
@m("Mutex::lock", "RwLock::read", "RwLock::write", "Mutex::try_lock")
def lock(I, a, c):
    b = deref_mutex(a[0]); return ok(Ref(b.f, 0))
def deref_mutex(v):
    while type(v) is Ref:
        x = v.c[v.k]
        if type(x) is Box: return x
        v = x
    if type(v) is Box: return v
    raise Undecided("lock of %s" % short(v))
@m("RefCell::borrow", "RefCell::borrow_mut", "Mutex::get_mut", "Cell::get_mut")
def rc_borrow(I, a, c): return Ref(deref_mutex(a[0]).f, 0)
@m("Cell::get")
def cell_get(I, a, c): return deref_mutex(a[0]).f[0]
@m("Cell::set")
def cell_set(I, a, c):
    b = deref_mutex(a[0]); touch(b.f); b.f[0] = a[1]; return unit()
@m("Lazy::get", "OnceCell::get_or_init", "OnceLock::get_or_init", "LazyLock::force", "Lazy::force")
def lazy_get(I, a, c):
    r = a[0]
    k = (id(r.c), r.k)
    e = I.lazy.get(k)
    if e is None:
        saved = I.pc; I.pc = {}
        js = A.J[:]; A.J.clear()
        try: v = I.call_value(a[1], []) if len(a) > 1 else I.call_value(deref(r), [])
        finally:
            I.pc = saved; A.J.extend(js)
        e = I.lazy[k] = ([v], r)
    return Ref(e[0], 0)
def lazy_force(I, x): raise Undecided("lazy")
@m("scope::scope", "rayon_core::scope", "scope::in_place_scope")
def scope(I, a, c): return I.call_value(a[0], [Opaque("scope")])
@m("Scope::spawn")
def spawn(I, a, c):
    I.call_value(a[1], [a[0]]); return unit()
@m("join::join", "rayon_core::join")
def rjoin(I, a, c): return Agg(None, 0, [I.call_value(a[0], []), I.call_value(a[1], [])])
@m("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def fn_call(I, a, c):
    return I.call_value(a[0], list(a[1].f))
@m("num_cpus::get", "rayon_core::current_num_threads", "thread::available_parallelism")
def ncpu(I, a, c): return getattr(I, "ncpu", 4)
@m("Instant::now", "Instant::elapsed", "Duration::as_secs_f64", "Duration::as_millis", "Instant::duration_since", "SystemTime::now")
def now(I, a, c): return Opaque("time")
@m("RangeInclusive::new")
def ri_new(I, a, c):
    l = [a[0], a[1]]
    return RangeIncl(I, a[0], a[1])
def RangeIncl(I, x, y):
    a, b = conc(I, x), conc(I, y)
    s = Seq(max(b + 1, a), lambda i: i, a)
    return s
@m("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains")
def range_contains(I, a, c):
    r = deref(a[0]); x = I.resolve(deref(a[1]))
    if type(r) is Seq: lo, hi = r.st
    else:
        k = is_range(I, r)
        if k == "RangeInclusive":
            w = 64; return t_and(I.binop("Le", r.f[0], x, w, False), I.binop("Le", x, r.f[1], w, False))
        if k not in ("Range", "RangeFrom", "RangeTo"): raise Undecided("range")
        if k == "RangeFrom": return I.binop("Le", r.f[0], x, 64, False)
        lo, hi = (r.f[0], r.f[1]) if k == "Range" else (0, r.f[0])
    w = 64
    return t_and(I.binop("Le", lo, x, w, False), I.binop("Lt", x, hi, w, False))
@m("Range::is_empty", "Range::len")
def range_is_empty(I, a, c):
    x, y = range_bounds(I, deref(a[0])); return x >= y if "empty" in c["p"] else max(0, y - x)
@m("array::from_fn")
def from_fn(I, a, c):
    t = c["a"]
    n = None
    for x in t:
        if isinstance(x, dict) and "c" in x: n = x["c"]
    if n is None: raise Undecided("from_fn")
    f = Ref([a[0]], 0)
    return Arr([I.call_value(f, [i]) for i in range(n)])
@m("[T; N]::map", "array::map")
def arr_map(I, a, c):
    f = Ref([a[1]], 0); return Arr([I.call_value(f, [x]) for x in a[0].f])
@m("[T; N]::iter")
def arr_iter(I, a, c): return slice_seq(a[0])
import models2
