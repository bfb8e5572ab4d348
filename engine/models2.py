"""Further models of standard-library, itertools and rayon functions: not called by the code as it stands, but what a change
of it may well use.  tools/modeltest compares every model here with the real function."""
from models import *
from models import M as _M
import models as B
from aeval import *
import dom

def m(*names):
    def d(f):
        for n in names:
            if n not in _M: _M[n] = f
        return f
    return d
def over(*names):
    def d(f):
        for n in names: _M[n] = f
        return f
    return d
def last(c): return c["p"].split("::")[-1]
def fn(f): return Ref([f], 0)
def tup(*x): return Agg(None, 0, list(x))
def ordagg(n): return Agg(None, n + 1, [])
def seq(l): return Seq(len(l), lambda i: l[i])
def opt2(I, v):
    """(variant, payload list) of an Option/Result."""
    v = I.unphi(v)
    if not isinstance(v, Agg): raise Undecided("abstract option")
    return v.v, v.f
def setlist(v, l):
    touch(v.f); v.f[:] = l

# ------------------------------------------------------------------ Vec, VecDeque
@m("Vec::dedup_by_key")
def vec_dedup_by_key(I, a, c):
    v = deref(a[0]); f = fn(a[1]); out = []
    for x in list(v.f):
        if out:
            # the key function sees the later element first
            k = I.call_value(f, [Ref([x], 0)]); p = I.call_value(f, [Ref(out, len(out) - 1)])
            if truth(I, eq(I, k, p)): continue
        out.append(x)
    setlist(v, out); return unit()
@m("Vec::dedup_by")
def vec_dedup_by(I, a, c):
    v = deref(a[0]); f = fn(a[1]); out = []
    for x in list(v.f):
        cell = [x]
        if out and truth(I, I.call_value(f, [Ref(cell, 0), Ref(out, len(out) - 1)])): continue
        out.append(cell[0])
    setlist(v, out); return unit()
@m("Vec::retain_mut", "VecDeque::retain", "VecDeque::retain_mut")
def vec_retain_mut(I, a, c):
    v = deref(a[0]); f = fn(a[1]); out = []
    for x in list(v.f):
        cell = [x]
        if truth(I, I.call_value(f, [Ref(cell, 0)])): out.append(cell[0])
    setlist(v, out); return unit()
@m("Vec::splice")
def vec_splice(I, a, c):
    v = deref(a[0]); s, e = rng(I, a[1], len(v.f)); new = drain(I, to_iter(I, a[2]))
    if s > e or e > len(v.f): raise Panic("splice range")
    old = v.f[s:e]; touch(v.f); v.f[s:e] = new
    return seq(old)
@m("Vec::resize_with", "VecDeque::resize_with")
def vec_resize_with(I, a, c):
    v = deref(a[0]); n = conc(I, a[1]); f = fn(a[2])
    if n > 20_000_000: raise Undecided("huge vector")
    if n <= len(v.f): setlist(v, v.f[:n]); return unit()
    new = [I.call_value(f, []) for _ in range(n - len(v.f))]
    touch(v.f); v.f.extend(new); return unit()
@m("Vec::extend_from_within")
def vec_efw(I, a, c):
    v = deref(a[0]); s, e = rng(I, a[1], len(v.f))
    if s > e or e > len(v.f): raise Panic("extend_from_within")
    touch(v.f); v.f.extend([clone_val(I, x) for x in v.f[s:e]]); return unit()
@m("Vec::pop_if")
def vec_pop_if(I, a, c):
    v = deref(a[0])
    if not v.f or not truth(I, I.call_value(a[1], [Ref(v.f, len(v.f) - 1)])): return none()
    touch(v.f); return some(v.f.pop())
@m("Vec::shrink_to", "VecDeque::reserve", "VecDeque::shrink_to_fit", "BTreeMap::reserve", "HashSet::reserve", "HashMap::shrink_to_fit", "String::shrink_to_fit", "Vec::try_reserve_noop")
def noop2(I, a, c): return unit()
@m("Vec::first", "Vec::last")
def vec_first(I, a, c): return _M["[T]::" + last(c)](I, a, c)
@m("VecDeque::append")
def dq_append(I, a, c): return B.vec_append(I, a, c)
@m("VecDeque::front", "VecDeque::front_mut")
def dq_front(I, a, c):
    v = deref(a[0]); return some(Ref(v.f, 0)) if v.f else none()
@m("VecDeque::back", "VecDeque::back_mut")
def dq_back(I, a, c):
    v = deref(a[0]); return some(Ref(v.f, len(v.f) - 1)) if v.f else none()
@m("VecDeque::make_contiguous")
def dq_contig(I, a, c):
    v = deref(a[0]); return SRef(v.f, 0, len(v.f))
@m("VecDeque::as_slices", "VecDeque::as_mut_slices")
def dq_slices(I, a, c): raise Undecided("the split point of a ring buffer")
@m("VecDeque::rotate_left", "VecDeque::rotate_right")
def dq_rot(I, a, c):
    v = deref(a[0]); k = conc(I, a[1]); n = len(v.f)
    if k > n: raise Panic("rotate")
    if last(c) == "rotate_right": k = n - k
    setlist(v, v.f[k:] + v.f[:k]); return unit()
@m("VecDeque::resize")
def dq_resize(I, a, c): return B.vec_resize(I, a, c)
@m("VecDeque::insert")
def dq_insert(I, a, c): return B.vec_insert(I, a, c)
@m("VecDeque::remove")
def dq_remove(I, a, c):
    v = deref(a[0]); i = conc(I, a[1])
    if i >= len(v.f): return none()
    touch(v.f); return some(v.f.pop(i))
@m("VecDeque::swap")
def dq_swap(I, a, c):
    v = deref(a[0]); i, j = conc(I, a[1]), conc(I, a[2])
    if max(i, j) >= len(v.f): raise Panic("swap")
    touch(v.f); v.f[i], v.f[j] = v.f[j], v.f[i]; return unit()
@m("VecDeque::contains")
def dq_contains(I, a, c):
    acc = False
    for x in deref(a[0]).f: acc = t_or(acc, eq(I, x, a[1]))
    return acc
@m("VecDeque::range", "VecDeque::range_mut")
def dq_range(I, a, c):
    v = deref(a[0]); s, e = rng(I, a[1], len(v.f))
    if s > e or e > len(v.f): raise Panic("range")
    return Seq(e - s, lambda i: Ref(v.f, s + i))
@m("VecDeque::split_off")
def dq_split_off(I, a, c): return B.vec_split_off(I, a, c)
@m("Vec::into_iter_sorted")
def vis(I, a, c): raise Undecided("into_iter_sorted")
@over("Vec::leak", "Box::leak")
def leak(I, a, c):
    v = a[0]
    if type(v) is Vec: return SRef(v.f, 0, len(v.f))
    return Ref(v.f, 0) if type(v) is Box else v

# ------------------------------------------------------------------ slices
@m("[T]::fill_with")
def sl_fill_with(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[1]); touch(l)
    for i in range(n): l[o + i] = I.call_value(f, [])
    return unit()
@m("[T]::chunk_by", "[T]::chunk_by_mut")
def sl_chunk_by(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[1]); out = []; s = 0
    for i in range(1, n + 1):
        if i == n or not truth(I, I.call_value(f, [Ref(l, o + i - 1), Ref(l, o + i)])):
            out.append(SRef(l, o + s, i - s)); s = i
    return seq(out) if n else seq([])
@m("[T]::rchunks_mut", "ParallelSlice::par_rchunks", "ParallelSliceMut::par_rchunks_mut")
def sl_rchunks_mut(I, a, c): return B.rchunks(I, a, c)
@m("[T]::rchunks_exact", "[T]::rchunks_exact_mut", "ParallelSlice::par_rchunks_exact", "ParallelSliceMut::par_rchunks_exact_mut")
def sl_rchunks_exact(I, a, c):
    l, o, n = aslist(a[0]); k = conc(I, a[1])
    if k == 0: raise Panic("chunk size 0")
    return Seq(n // k, lambda i: SRef(l, o + n - (i + 1) * k, k))
@m("ChunksExact::remainder", "ChunksExactMut::into_remainder")
def ce_rem(I, a, c): raise Undecided("remainder of chunks_exact")
def bsearch(I, n, f):
    """The position the library's own search ends at: unique unless equal elements repeat."""
    lo = None
    s = [f(i) for i in range(n)]
    eqs = [i for i in range(n) if s[i] == 0]
    if len(eqs) > 1: raise Undecided("binary search among equal elements")
    if s != sorted(s): raise Undecided("binary search of an unsorted slice")
    if eqs: return ok(eqs[0])
    return err(sum(1 for x in s if x < 0))
@m("[T]::binary_search")
def sl_bs(I, a, c):
    l = items(a[0]); return bsearch(I, len(l), lambda i: ordval(I, order(I, l[i], a[1])))
@m("[T]::binary_search_by")
def sl_bsb(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[1]); return bsearch(I, n, lambda i: ordval(I, I.call_value(f, [Ref(l, o + i)])))
@m("[T]::binary_search_by_key")
def sl_bsk(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[2]); return bsearch(I, n, lambda i: ordval(I, order(I, I.call_value(f, [Ref(l, o + i)]), a[1])))
@m("[T]::partition_point")
def sl_pp(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[1]); s = [truth(I, I.call_value(f, [Ref(l, o + i)])) for i in range(n)]
    k = sum(s)
    if not all(s[:k]): raise Undecided("partition_point of an unpartitioned slice")
    return k
@m("[T]::split_first_mut")
def sl_sfm(I, a, c): return B.M["[T]::split_first"](I, a, c)
@m("[T]::split_last_mut")
def sl_slm(I, a, c): return B.M["[T]::split_last"](I, a, c)
@m("[T]::first_chunk", "[T]::split_first_chunk", "[T]::last_chunk", "[T]::as_array")
def sl_fc(I, a, c): raise Undecided(c["p"])
@m("[T]::split_at_checked", "[T]::split_at_mut_checked")
def sl_sac(I, a, c):
    l, o, n = aslist(a[0]); k = conc(I, a[1])
    return none() if k > n else some(tup(SRef(l, o, k), SRef(l, o + k, n - k)))
@m("[T]::swap_with_slice")
def sl_sws(I, a, c):
    l, o, n = aslist(a[0]); p, q, k = aslist(a[1])
    if n != k: raise Panic("swap_with_slice lengths")
    touch(l); touch(p); x = l[o:o + n]; l[o:o + n] = p[q:q + k]; p[q:q + k] = x
    return unit()
@m("[T]::is_sorted", "Iterator::is_sorted")
def sl_is_sorted(I, a, c):
    l = items(a[0]) if c["p"].startswith("core::slice") or "[T]" in c["p"] else drain(I, it_arg(I, a[0]))
    return all(cmp_vals(I, x, y) <= 0 for x, y in zip(l, l[1:]))
@m("[T]::is_sorted_by_key")
def sl_is_sorted_key(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[1]); ks = [I.call_value(f, [Ref(l, o + i)]) for i in range(n)]
    return all(cmp_vals(I, x, y) <= 0 for x, y in zip(ks, ks[1:]))
@m("[T]::is_sorted_by")
def sl_is_sorted_by(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[1])
    return all(truth(I, I.call_value(f, [Ref(l, o + i), Ref(l, o + i + 1)])) for i in range(n - 1))
@m("[T]::repeat")
def sl_repeat(I, a, c): return Vec([clone_val(I, x) for _ in range(conc(I, a[1])) for x in items(a[0])])
@m("[T]::strip_prefix", "[T]::strip_suffix")
def sl_strip(I, a, c):
    l, o, n = aslist(a[0]); y = items(a[1]); k = len(y)
    if k > n: return none()
    pre = last(c) == "strip_prefix"
    z = l[o:o + k] if pre else l[o + n - k:o + n]
    for u, v in zip(z, y):
        if not truth(I, eq(I, u, v)): return none()
    return some(SRef(l, o + k if pre else o, n - k))
@m("[T]::split", "[T]::split_mut", "[T]::rsplit", "[T]::split_inclusive")
def sl_split(I, a, c):
    l, o, n = aslist(a[0]); f = fn(a[1]); out = []; s = 0; inc = last(c) == "split_inclusive"
    for i in range(n):
        if truth(I, I.call_value(f, [Ref(l, o + i)])):
            out.append(SRef(l, o + s, i + inc - s)); s = i + 1
    if not inc or s < n: out.append(SRef(l, o + s, n - s))
    return seq(out[::-1] if last(c) == "rsplit" else out)
@m("[T]::first_mut")
def sl_first_mut(I, a, c):
    l, o, n = aslist(a[0]); return some(Ref(l, o)) if n else none()
@m("[T]::last_mut")
def sl_last_mut(I, a, c):
    l, o, n = aslist(a[0]); return some(Ref(l, o + n - 1)) if n else none()
@m("[T]::select_nth_unstable")
def sl_select(I, a, c): raise Undecided("select_nth_unstable")
@m("[T]::iter_copied")
def sl_ic(I, a, c): raise Undecided("iter_copied")
@m("ParallelSliceMut::par_sort", "ParallelSliceMut::par_sort_unstable")
def par_sort(I, a, c): return B.sl_sort(I, a, c)
@m("ParallelSliceMut::par_sort_by", "ParallelSliceMut::par_sort_unstable_by")
def par_sort_by(I, a, c): return B.sl_sort_by(I, a, c)
@m("ParallelSliceMut::par_sort_by_key", "ParallelSliceMut::par_sort_unstable_by_key", "ParallelSliceMut::par_sort_by_cached_key")
def par_sort_key(I, a, c): return B.sl_sort_key(I, a, c)
@m("slice::from_mut")
def sl_from_mut(I, a, c): return SRef(a[0].c, a[0].k, 1) if type(a[0].k) is int else _und("slice::from_mut")
def _und(s): raise Undecided(s)
@m("[T; N]::each_ref", "array::each_ref")
def arr_each(I, a, c): l = deref(a[0]).f; return Arr([Ref(l, i) for i in range(len(l))])

# ------------------------------------------------------------------ iterators
@m("Iterator::map_while")
def it_map_while(I, a, c):
    it = to_iter(I, a[0]); f = fn(a[1])
    def pull():
        x = it.next()
        if x is STOP: return STOP
        v, l = opt2(I, I.call_value(f, [x]))
        return l[0] if v == 1 else STOP
    return Gen(pull)
def best(I, l, cmp, mx):
    if not l: return none()
    b = l[0]
    for x in l[1:]:
        r = cmp(x, b)
        if (mx and r >= 0) or (not mx and r < 0): b = x
    return some(b)
@m("Iterator::max_by", "Iterator::min_by")
def it_max_by(I, a, c):
    f = fn(a[1]); mx = last(c).startswith("max")
    # the comparison sees the earlier element first
    return best(I, drain(I, it_arg(I, a[0])), lambda x, b: -ordval(I, I.call_value(f, [Ref([b], 0), Ref([x], 0)])), mx)
@m("ParallelIterator::max_by_key", "ParallelIterator::min_by_key")
def par_max_key(I, a, c): return B.it_max_key(I, a, c)
@m("ParallelIterator::max_by", "ParallelIterator::min_by")
def par_max_by(I, a, c): return it_max_by(I, a, c)
def lexi(I, x, y):
    for u, v in zip(x, y):
        r = ordval(I, order(I, u, v))
        if r: return r
    return (len(x) > len(y)) - (len(x) < len(y))
@m("Iterator::cmp", "Iterator::partial_cmp", "Iterator::lt", "Iterator::le", "Iterator::gt", "Iterator::ge")
def it_cmp(I, a, c):
    r = lexi(I, drain(I, to_iter(I, a[0])), drain(I, to_iter(I, a[1]))); k = last(c)
    return {"cmp": lambda: ordagg(r), "partial_cmp": lambda: some(ordagg(r)), "lt": lambda: r < 0, "le": lambda: r <= 0, "gt": lambda: r > 0, "ge": lambda: r >= 0}[k]()
@m("Iterator::ne")
def it_ne(I, a, c): return t_not(B.it_eq(I, a, c))
@m("Iterator::eq_by")
def it_eq_by(I, a, c): raise Undecided("eq_by")
@m("DoubleEndedIterator::nth_back")
def it_nth_back(I, a, c):
    it = it_arg(I, a[0])
    for _ in range(conc(I, a[1])):
        if it.next_back() is STOP: return none()
    return opt(it.next_back())
@m("DoubleEndedIterator::rfind")
def it_rfind(I, a, c):
    it = it_arg(I, a[0]); f = fn(a[1])
    while True:
        x = it.next_back()
        if x is STOP: return none()
        if truth(I, I.call_value(f, [Ref([x], 0)])): return some(x)
@m("Iterator::partition_in_place", "Iterator::array_chunks", "Iterator::map_windows")
def it_unstable(I, a, c): raise Undecided(c["p"])
@m("Iterator::is_partitioned")
def it_isp(I, a, c): raise Undecided(c["p"])
@m("Iterator::intersperse", "Itertools::intersperse")
def it_intersperse(I, a, c):
    l = drain(I, to_iter(I, a[0])); out = []
    for i, x in enumerate(l):
        if i: out.append(clone_val(I, a[1]))
        out.append(x)
    return seq(out)
@m("Peekable::next_if", "Peekable::next_if_eq")
def next_if(I, a, c):
    p = deref(a[0])
    v = I.unphi(B.peek(I, a, c))
    if v.v == 0: return none()
    t = truth(I, I.call_value(a[1], [Ref(p.buf, 0)]) if last(c) == "next_if" else eq(I, p.buf[0], a[1]))
    return opt(p.next()) if t else none()
@m("Peekable::peek_mut")
def peek_mut(I, a, c): return B.peek(I, a, c)
@m("iter::from_fn", "from_fn::from_fn")
def iter_from_fn(I, a, c):
    f = fn(a[0])
    def pull():
        v, l = opt2(I, I.call_value(f, []))
        return l[0] if v == 1 else STOP
    return Gen(pull)
@m("once_with::once_with", "iter::once_with")
def once_with(I, a, c): f = fn(a[0]); return Seq(1, lambda i: I.call_value(f, []))
@m("repeat_with::repeat_with", "iter::repeat_with")
def repeat_with(I, a, c): f = fn(a[0]); return Gen(lambda: I.call_value(f, []))
def srt(I, l, cmp): return sorted(l, key=functools.cmp_to_key(cmp))
@m("Itertools::sorted", "Itertools::sorted_unstable")
def its_sorted(I, a, c): return seq(srt(I, drain(I, to_iter(I, a[0])), lambda x, y: cmp_vals(I, x, y)))
@m("Itertools::sorted_by", "Itertools::sorted_unstable_by")
def its_sorted_by(I, a, c):
    f = fn(a[1]); return seq(srt(I, drain(I, to_iter(I, a[0])), lambda x, y: ordval(I, I.call_value(f, [Ref([x], 0), Ref([y], 0)]))))
@m("Itertools::sorted_by_key", "Itertools::sorted_unstable_by_key", "Itertools::sorted_by_cached_key")
def its_sorted_key(I, a, c):
    f = fn(a[1]); l = [(I.call_value(f, [Ref([x], 0)]), x) for x in drain(I, to_iter(I, a[0]))]
    return seq([x for _, x in srt(I, l, lambda x, y: cmp_vals(I, x[0], y[0]))])
@m("Itertools::unique", "Itertools::unique_by")
def its_unique(I, a, c):
    it = to_iter(I, a[0]); f = fn(a[1]) if len(a) > 1 else None; seen = set(); out = []
    for x in drain(I, it):
        k = hkey(I.call_value(f, [Ref([x], 0)]) if f else x)
        if k not in seen: seen.add(k); out.append(x)
    return seq(out)
@m("Itertools::dedup", "Itertools::dedup_by")
def its_dedup(I, a, c):
    out = []
    for x in drain(I, to_iter(I, a[0])):
        if out and truth(I, I.call_value(fn(a[1]), [Ref(out, len(out) - 1), Ref([x], 0)]) if len(a) > 1 else eq(I, out[-1], x)): continue
        out.append(x)
    return seq(out)
@m("Itertools::cartesian_product")
def its_cp(I, a, c):
    x, y = drain(I, to_iter(I, a[0])), drain(I, to_iter(I, a[1]))
    return seq([tup(clone_val(I, u), clone_val(I, v)) for u in x for v in y])
@m("Itertools::interleave", "IndexedParallelIterator::interleave")
def its_interleave(I, a, c):
    x, y = drain(I, to_iter(I, a[0])), drain(I, to_iter(I, a[1])); out = []
    for i in range(max(len(x), len(y))): out += x[i:i + 1] + y[i:i + 1]
    return seq(out)
def tuple_len(I, c):
    for t in reversed([x for x in c.get("a", []) if isinstance(x, int)]):
        if I.types[t]["k"] == "tuple": return len(I.types[t]["e"])
    raise Undecided("tuple size")
@m("Itertools::tuples")
def its_tuples(I, a, c):
    n = tuple_len(I, c); l = drain(I, to_iter(I, a[0])); return seq([tup(*l[i:i + n]) for i in range(0, len(l) - n + 1, n)])
@m("Itertools::tuple_windows")
def its_tw(I, a, c):
    n = tuple_len(I, c); l = drain(I, to_iter(I, a[0])); return seq([tup(*[clone_val(I, x) for x in l[i:i + n]]) for i in range(len(l) - n + 1)])
@m("Itertools::collect_tuple", "Itertools::next_tuple")
def its_ct(I, a, c): raise Undecided(c["p"])
@m("Itertools::all_equal")
def its_ae(I, a, c):
    l = drain(I, it_arg(I, a[0])); acc = True
    for x in l[1:]: acc = t_and(acc, eq(I, l[0], x))
    return acc
@m("Itertools::all_unique")
def its_au(I, a, c):
    l = [hkey(x) for x in drain(I, it_arg(I, a[0]))]; return len(set(l)) == len(l)
@m("Itertools::exactly_one")
def its_eo(I, a, c):
    l = drain(I, to_iter(I, a[0])); return ok(l[0]) if len(l) == 1 else err()
@m("Itertools::at_most_one")
def its_amo(I, a, c):
    l = drain(I, to_iter(I, a[0])); return err() if len(l) > 1 else ok(some(l[0]) if l else none())
@m("Itertools::position_max", "Itertools::position_min")
def its_pm(I, a, c):
    l = drain(I, to_iter(I, a[0])); r = best(I, list(range(len(l))), lambda x, y: cmp_vals(I, l[x], l[y]), last(c) == "position_max")
    return r
@m("Itertools::minmax")
def its_minmax(I, a, c): raise Undecided("minmax")
@m("Itertools::counts")
def its_counts(I, a, c):
    mo = MapObj("hash")
    for x in drain(I, to_iter(I, a[0])):
        k = hkey(x); e = mo.d.setdefault(k, [x, 0]); e[1] += 1
    return mo
@m("Itertools::into_group_map")
def its_igm(I, a, c):
    mo = MapObj("hash")
    for x in drain(I, to_iter(I, a[0])):
        e = mo.d.setdefault(hkey(x.f[0]), [x.f[0], Vec([])]); e[1].f.append(x.f[1])
    return mo
@m("Itertools::fold_while", "Itertools::group_by", "Itertools::chunk_by", "Itertools::chunks", "Itertools::multi_cartesian_product", "Itertools::combinations", "Itertools::permutations", "Itertools::zip_longest", "Itertools::merge", "Itertools::kmerge")
def its_und(I, a, c): raise Undecided(c["p"])
@m("Itertools::fold_ok", "Itertools::try_collect", "Iterator::try_collect")
def its_und2(I, a, c): raise Undecided(c["p"])
@m("Itertools::contains")
def its_contains(I, a, c):
    acc = False
    for x in drain(I, it_arg(I, a[0])): acc = t_or(acc, eq(I, x, a[1]))
    return acc
@m("Itertools::rev_sorted")
def its_rs(I, a, c): raise Undecided("rev_sorted")
@m("Itertools::format")
def its_format(I, a, c): raise Undecided("format")
@m("Itertools::sum1", "Itertools::product1")
def its_sum1(I, a, c): raise Undecided("sum1")
@m("Itertools::set_from")
def its_sf(I, a, c): raise Undecided("set_from")
@m("Itertools::partition_map")
def its_pmap(I, a, c):
    f = fn(a[1]); x, y = [], []
    for v in drain(I, to_iter(I, a[0])):
        r = I.unphi(I.call_value(f, [v])); (y if r.v else x).append(r.f[0])
    return tup(Vec(x), Vec(y))
@m("Itertools::partition_result")
def its_pr(I, a, c): raise Undecided("partition_result")
# rayon
@m("ParallelIterator::map_with", "ParallelIterator::for_each_with", "ParallelIterator::map_init", "ParallelIterator::for_each_init")
def par_map_with(I, a, c):
    it = to_iter(I, a[0]); f = fn(a[2]); init = last(c).endswith("init")
    st = [I.call_value(a[1], []) if init else a[1]]
    def pull():
        x = it.next()
        return STOP if x is STOP else I.call_value(f, [Ref(st, 0), x])
    g = Gen(pull)
    if last(c).startswith("for_each"): drain(I, g); return unit()
    return g
@m("ParallelIterator::inspect")
def par_inspect(I, a, c): return B.it_inspect(I, a, c)
@m("ParallelIterator::update", "Itertools::update")
def par_update(I, a, c):
    it = to_iter(I, a[0]); f = fn(a[1])
    def pull():
        x = it.next()
        if x is STOP: return STOP
        cell = [x]; I.call_value(f, [Ref(cell, 0)]); return cell[0]
    return Gen(pull)
@m("ParallelIterator::chain")
def par_chain(I, a, c): return B.it_chain(I, a, c)
@m("ParallelIterator::find_last")
def par_find_last(I, a, c):
    f = fn(a[1])
    for x in reversed(drain(I, it_arg(I, a[0]))):
        if truth(I, I.call_value(f, [Ref([x], 0)])): return some(x)
    return none()
@m("ParallelIterator::find_map_first", "ParallelIterator::find_map_any")
def par_find_map(I, a, c): return B.it_find_map(I, a, c)
@m("ParallelIterator::partition")
def par_partition(I, a, c): return B.it_partition(I, a, c)
@m("IndexedParallelIterator::position_last")
def par_pos_last(I, a, c): return B.it_rposition(I, a, c)
@m("IndexedParallelIterator::chunks")
def par_chunks(I, a, c):
    l = drain(I, to_iter(I, a[0])); k = conc(I, a[1])
    if k == 0: raise Panic("chunk size 0")
    return seq([Vec(l[i:i + k]) for i in range(0, len(l), k)])
@m("IndexedParallelIterator::fold_chunks", "IndexedParallelIterator::fold_chunks_with")
def par_fc(I, a, c):
    l = drain(I, to_iter(I, a[0])); k = conc(I, a[1]); f = fn(a[3]); out = []
    for i in range(0, len(l), k):
        acc = I.call_value(a[2], []) if last(c) == "fold_chunks" else clone_val(I, a[2])
        for x in l[i:i + k]: acc = I.call_value(f, [acc, x])
        out.append(acc)
    return seq(out)
@m("IndexedParallelIterator::by_exponential_blocks", "IndexedParallelIterator::by_uniform_blocks", "ParallelIterator::panic_fuse")
def par_ident(I, a, c): return to_iter(I, a[0])
@m("ParallelIterator::fold_with")
def par_fold_with(I, a, c):
    it = it_arg(I, a[0]); acc = a[1]; f = fn(a[2])
    for x in drain(I, it): acc = I.call_value(f, [acc, x])
    return seq([acc])
@m("ParallelIterator::try_reduce", "ParallelIterator::try_fold", "ParallelIterator::try_reduce_with", "ParallelIterator::try_for_each_with", "ParallelIterator::while_some")
def par_try(I, a, c): raise Undecided(c["p"])
@m("ParallelIterator::unzip")
def par_unzip(I, a, c): return B.it_unzip(I, a, c)
@m("IndexedParallelIterator::unzip_into_vecs")
def par_uiv(I, a, c):
    l = drain(I, it_arg(I, a[0]))
    setlist(deref(a[1]), [x.f[0] for x in l]); setlist(deref(a[2]), [x.f[1] for x in l]); return unit()
@m("ParallelIterator::flatten_iter")
def par_fi(I, a, c): return B.it_flatten(I, a, c)

# ------------------------------------------------------------------ Option, Result
@m("Option::is_none_or")
def opt_is_none_or(I, a, c): return B.variants_tree(I, a[0], lambda v: I.call_value(a[1], [v.f[0]]) if v.v == 1 else True)
@m("Result::is_err_and")
def res_is_err_and(I, a, c): return B.variants_tree(I, a[0], lambda v: I.call_value(a[1], [v.f[0]]) if v.v == 1 else False)
@m("Option::and", "Result::and")
def opt_and(I, a, c):
    g = B.good(c); return B.map_variants(I, a[0], lambda v: a[1] if v.v == g else v)
@m("Option::get_or_insert", "Option::get_or_insert_default")
def opt_goi2(I, a, c):
    x = I.unphi(a[0].c[a[0].k])
    if x.v == 0:
        x = some(a[1] if len(a) > 1 else default_of(I, c["a"][0])); a[0].set(x)
    return Ref(x.f, 0)
@m("Option::transpose")
def opt_transpose(I, a, c):
    v, l = opt2(I, a[0])
    if v == 0: return ok(none())
    r, x = opt2(I, l[0])
    return ok(some(x[0])) if r == 0 else err(x[0])
@m("Result::transpose")
def res_transpose(I, a, c):
    v, l = opt2(I, a[0])
    if v == 1: return some(err(l[0]))
    r, x = opt2(I, l[0])
    return some(ok(x[0])) if r == 1 else none()
@m("Option::flatten", "Result::flatten")
def opt_flatten(I, a, c):
    g = B.good(c); return B.variants_tree(I, a[0], lambda v: v.f[0] if v.v == g else v)
@m("Option::inspect", "Result::inspect", "Result::inspect_err")
def opt_inspect(I, a, c):
    v, l = opt2(I, a[0])
    if v == (1 if "Option" in c["p"] or last(c) == "inspect_err" else 0): I.call_value(a[1], [Ref(l, 0)])
    return a[0]
@m("Option::take_if")
def opt_take_if(I, a, c):
    x = I.unphi(a[0].c[a[0].k])
    if x.v == 0 or not truth(I, I.call_value(a[1], [Ref(x.f, 0)])): return none()
    a[0].set(none()); return x
@m("Option::unzip")
def opt_unzip(I, a, c):
    v, l = opt2(I, a[0])
    return tup(some(l[0].f[0]), some(l[0].f[1])) if v else tup(none(), none())
@over("Option::xor")
def opt_xor2(I, a, c):
    x, y = I.unphi(a[0]), I.unphi(a[1])
    return x if x.v and not y.v else y if y.v and not x.v else none()
@m("Result::iter", "Result::iter_mut")
def res_iter(I, a, c):
    x = I.unphi(deref(a[0])); return Seq(1 if x.v == 0 else 0, lambda i: Ref(x.f, 0))
@m("Option::as_slice")
def opt_as_slice(I, a, c):
    x = I.unphi(deref(a[0])); return SRef(x.f, 0, len(x.f))
@m("Result::copied_err", "Result::into_ok")
def res_und(I, a, c): raise Undecided(c["p"])
@m("Option::ok_or_default", "Option::map_or_default", "Result::map_or_default")
def opt_mod(I, a, c):
    g = B.good(c); return B.variants_tree(I, a[0], lambda v: I.call_value(a[1], [v.f[0]]) if v.v == g else default_of(I, c["a"][1]))
@m("Ordering::then")
def ord_then(I, a, c): return B.variants_tree(I, a[0], lambda v: a[1] if v.v == 1 else v)
@m("Ordering::then_with")
def ord_then_with(I, a, c): return B.variants_tree(I, a[0], lambda v: I.call_value(a[1], []) if v.v == 1 else v)
@m("Ord::clamp")
def ord_clamp(I, a, c):
    return B.m_min(I, [B.m_max(I, [a[0], a[1]], c), a[2]], c)
@m("cmp::max_by", "cmp::min_by", "cmp::max_by_key", "cmp::min_by_key")
def cmp_by(I, a, c):
    f = fn(a[2]); k = last(c)
    if k.endswith("key"): r = ordval(I, order(I, I.call_value(f, [Ref([a[0]], 0)]), I.call_value(f, [Ref([a[1]], 0)])))
    else: r = ordval(I, I.call_value(f, [Ref([a[0]], 0), Ref([a[1]], 0)]))
    if k.startswith("max"): return a[0] if r > 0 else a[1]
    return a[1] if r > 0 else a[0]

# ------------------------------------------------------------------ maps and sets
def mk_entry(e): return tup(e[0], e[1])
def in_range(I, mo, r):
    ks = map_sorted(mo)
    r = I.unphi(r)
    p = I.types[r.ty].get("p", "").split("::")[-1] if isinstance(r, Agg) and r.ty is not None else None
    if isinstance(r, Seq): lo, hi = r.st; return [k for k in ks if lo <= k < hi]
    if p == "RangeFull": return ks
    def key(x): return hkey(x)
    if p == "Range": return [k for k in ks if key(r.f[0]) <= k < key(r.f[1])]
    if p == "RangeInclusive": return [k for k in ks if key(r.f[0]) <= k <= key(r.f[1])]
    if p == "RangeFrom": return [k for k in ks if key(r.f[0]) <= k]
    if p == "RangeTo": return [k for k in ks if k < key(r.f[0])]
    if p == "RangeToInclusive": return [k for k in ks if k <= key(r.f[0])]
    raise Undecided("map range")
@m("BTreeMap::range", "BTreeMap::range_mut")
def bm_range(I, a, c):
    mo = deref(a[0]); ks = in_range(I, mo, a[1]); return Seq(len(ks), lambda i: tup(Ref(mo.d[ks[i]], 0), Ref(mo.d[ks[i]], 1)))
@m("BTreeSet::range")
def bs_range(I, a, c):
    mo = deref(a[0]); ks = in_range(I, mo, a[1]); return Seq(len(ks), lambda i: Ref(mo.d[ks[i]], 0))
@m("BTreeMap::remove_entry", "HashMap::remove_entry")
def map_remove_entry(I, a, c):
    mo = deref(a[0]); touch(mo.d); e = mo.d.pop(hkey(a[1]), None)
    return some(mk_entry(e)) if e else none()
@m("BTreeMap::pop_first", "BTreeMap::pop_last", "BTreeSet::pop_first", "BTreeSet::pop_last")
def map_pop(I, a, c):
    mo = deref(a[0]); ks = map_sorted(mo)
    if not ks: return none()
    touch(mo.d); e = mo.d.pop(ks[0 if last(c) == "pop_first" else -1])
    return some(e[0] if "Set" in c["p"] else mk_entry(e))
@m("BTreeMap::append", "BTreeSet::append")
def map_append(I, a, c):
    x, y = deref(a[0]), deref(a[1]); touch(x.d); touch(y.d)
    for k, e in y.d.items():
        if k in x.d and "Map" in c["p"]: x.d[k] = [x.d[k][0], e[1]]
        elif k not in x.d: x.d[k] = e
    y.d.clear(); return unit()
@m("BTreeMap::split_off", "BTreeSet::split_off")
def map_split_off(I, a, c):
    mo = deref(a[0]); k = hkey(a[1]); r = MapObj(mo.kind); touch(mo.d)
    for x in [x for x in mo.d if x >= k]: r.d[x] = mo.d.pop(x)
    return r
@m("BTreeMap::into_values")
def map_into_values(I, a, c):
    mo = deref(a[0]); ks = map_sorted(mo); return Seq(len(ks), lambda i: mo.d[ks[i]][1])
@over("HashMap::into_values", "BTreeMap::into_values")
def map_iv(I, a, c): return map_into_values(I, a, c)
@over("HashMap::into_keys", "BTreeMap::into_keys")
def map_ik(I, a, c):
    mo = deref(a[0]); ks = map_sorted(mo); return Seq(len(ks), lambda i: mo.d[ks[i]][0])
@m("BTreeMap::get_key_value", "HashMap::get_key_value")
def map_gkv(I, a, c):
    e = deref(a[0]).d.get(hkey(a[1])); return some(tup(Ref(e, 0), Ref(e, 1))) if e else none()
@m("HashMap::drain", "HashSet::drain")
def map_drain(I, a, c):
    mo = deref(a[0]); l = [mo.d[k] for k in map_sorted(mo)]; touch(mo.d); mo.d.clear()
    return seq([e[0] if "Set" in c["p"] else mk_entry(e) for e in l])
@m("HashMap::try_insert", "BTreeMap::try_insert")
def map_ti(I, a, c): raise Undecided("try_insert")
@m("BTreeSet::remove", "HashSet::remove")
def set_remove(I, a, c):
    mo = deref(a[0]); touch(mo.d); return mo.d.pop(hkey(a[1]), None) is not None
@m("BTreeSet::take", "HashSet::take")
def set_take(I, a, c):
    mo = deref(a[0]); touch(mo.d); e = mo.d.pop(hkey(a[1]), None); return some(e[0]) if e else none()
@m("BTreeSet::get", "HashSet::get")
def set_get(I, a, c):
    e = deref(a[0]).d.get(hkey(a[1])); return some(Ref(e, 0)) if e else none()
@m("BTreeSet::replace", "HashSet::replace")
def set_replace(I, a, c):
    mo = deref(a[0]); k = hkey(a[1]); e = mo.d.get(k); touch(mo.d); mo.d[k] = [a[1], unit()]
    return some(e[0]) if e else none()
@m("BTreeSet::is_empty", "HashSet::is_empty")
def set_is_empty(I, a, c): return not deref(a[0]).d
@m("BTreeSet::first", "BTreeSet::last")
def set_first(I, a, c):
    mo = deref(a[0]); ks = map_sorted(mo)
    return some(Ref(mo.d[ks[0 if last(c) == "first" else -1]], 0)) if ks else none()
@m("BTreeSet::retain", "HashSet::retain")
def set_retain(I, a, c):
    mo = deref(a[0]); f = fn(a[1]); keep = {k: mo.d[k] for k in map_sorted(mo) if truth(I, I.call_value(f, [Ref(mo.d[k], 0)]))}
    touch(mo.d); mo.d.clear(); mo.d.update(keep); return unit()
@m("BTreeSet::union", "HashSet::union", "BTreeSet::intersection", "HashSet::intersection", "BTreeSet::difference", "HashSet::difference",
   "BTreeSet::symmetric_difference", "HashSet::symmetric_difference")
def set_op(I, a, c):
    x, y = deref(a[0]), deref(a[1]); k = last(c)
    l = {"union": lambda: list(x.d.items()) + [(n, e) for n, e in y.d.items() if n not in x.d],
         "intersection": lambda: [(n, e) for n, e in x.d.items() if n in y.d],
         "difference": lambda: [(n, e) for n, e in x.d.items() if n not in y.d],
         "symmetric_difference": lambda: [(n, e) for n, e in x.d.items() if n not in y.d] + [(n, e) for n, e in y.d.items() if n not in x.d]}[k]()
    if x.kind.startswith("btree"): l.sort(key=lambda t: t[0])
    return Seq(len(l), lambda i: Ref(l[i][1], 0))
@m("BTreeSet::is_subset", "HashSet::is_subset", "BTreeSet::is_superset", "HashSet::is_superset", "BTreeSet::is_disjoint", "HashSet::is_disjoint")
def set_rel(I, a, c):
    x, y = set(deref(a[0]).d), set(deref(a[1]).d)
    return {"is_subset": x <= y, "is_superset": x >= y, "is_disjoint": not x & y}[last(c)]
@m("BTreeMap::first_entry", "BTreeMap::last_entry")
def map_fe(I, a, c): raise Undecided(c["p"])
@m("OccupiedEntry::remove")
def oe_remove(I, a, c):
    e = B.ent(a[0]); touch(e.mo.d); return e.mo.d.pop(hkey(e.k))[1]
@m("OccupiedEntry::remove_entry")
def oe_remove_entry(I, a, c):
    e = B.ent(a[0]); touch(e.mo.d); return mk_entry(e.mo.d.pop(hkey(e.k)))
@m("VacantEntry::into_key")
def ve_key(I, a, c): return B.ent(a[0]).k
@m("Entry::insert_entry")
def e_ie(I, a, c): raise Undecided("insert_entry")

# ------------------------------------------------------------------ strings
def pats(I, p):
    """A pattern as ('s', text) or ('c', predicate)."""
    f = B.patchar(I, p)
    if f is None: return "s", cstr(p)
    return "c", f
def finds(I, s, p):
    """Non-overlapping matches, left to right: (start, end) in characters."""
    k, y = pats(I, p)
    if k == "c": return [(i, i + 1) for i, ch in enumerate(s) if y(ch)]
    if y == "": return [(i, i) for i in range(len(s) + 1)]
    out = []; i = 0
    while True:
        j = s.find(y, i)
        if j < 0: return out
        out.append((j, j + len(y))); i = j + len(y)
def blen(s): return len(s.encode())
@over("str::find")
def str_find2(I, a, c):
    s = cstr(a[0]); l = finds(I, s, a[1]); return some(blen(s[:l[0][0]])) if l else none()
@m("str::rfind")
def str_rfind(I, a, c):
    s = cstr(a[0]); k, y = pats(I, a[1])
    i = s.rfind(y) if k == "s" else max([i for i, ch in enumerate(s) if y(ch)], default=-1)
    return some(blen(s[:i])) if i >= 0 else none()
@m("str::matches")
def str_matches(I, a, c):
    s = cstr(a[0]); return seq([s[i:j] for i, j in finds(I, s, a[1])])
@m("str::match_indices")
def str_mi(I, a, c):
    s = cstr(a[0]); return seq([tup(blen(s[:i]), s[i:j]) for i, j in finds(I, s, a[1])])
def splits(I, s, p):
    out = []; o = 0
    for i, j in finds(I, s, p): out.append(s[o:i]); o = j
    return out + [s[o:]]
@over("str::split", "str::split_terminator", "str::rsplit", "str::split_inclusive", "str::rsplit_terminator")
def str_split2(I, a, c):
    s = cstr(a[0]); k = last(c)
    if k == "split_inclusive":
        out = []; o = 0
        for i, j in finds(I, s, a[1]): out.append(s[o:j]); o = j
        return seq(out + ([s[o:]] if s[o:] else []))
    l = splits(I, s, a[1])
    if "terminator" in k and l[-1] == "": l.pop()
    return seq(l[::-1] if k.startswith("rsplit") else l)
@over("str::splitn")
def str_splitn(I, a, c):
    s = cstr(a[0]); n = conc(I, a[1]); out = []; o = 0
    if n == 0: return seq([])
    for i, j in finds(I, s, a[2])[:n - 1]: out.append(s[o:i]); o = j
    return seq(out + [s[o:]])
@m("str::rsplitn")
def str_rsplitn(I, a, c):
    s = cstr(a[0]); n = conc(I, a[1]); out = []; e = len(s)
    if n == 0: return seq([])
    k, y = pats(I, a[2])
    if k == "s": return seq(s.rsplit(y, n - 1)[::-1])
    for i, j in finds(I, s, a[2])[::-1][:n - 1]: out.append(s[j:e]); e = i
    return seq(out + [s[:e]])
@over("str::split_once")
def str_split_once(I, a, c):
    s = cstr(a[0]); l = finds(I, s, a[1])
    return some(tup(s[:l[0][0]], s[l[0][1]:])) if l else none()
@m("str::rsplit_once")
def str_rsplit_once(I, a, c):
    s = cstr(a[0]); k, y = pats(I, a[1])
    if k == "s":
        x = s.rsplit(y, 1); return some(tup(*x)) if len(x) == 2 else none()
    l = finds(I, s, a[1]); return some(tup(s[:l[-1][0]], s[l[-1][1]:])) if l else none()
@m("str::eq_ignore_ascii_case")
def str_eic(I, a, c):
    low = lambda s: "".join(ch.lower() if ord(ch) < 128 else ch for ch in s)
    return low(cstr(a[0])) == low(cstr(a[1]))
@over("str::strip_prefix")
def str_sp(I, a, c):
    s = cstr(a[0]); k, y = pats(I, a[1])
    if k == "s": return some(s[len(y):]) if s.startswith(y) else none()
    return some(s[1:]) if s and y(s[0]) else none()
@over("str::strip_suffix")
def str_ss(I, a, c):
    s = cstr(a[0]); k, y = pats(I, a[1])
    if k == "s": return some(s[:len(s) - len(y)]) if s.endswith(y) else none()
    return some(s[:-1]) if s and y(s[-1]) else none()
@over("str::ends_with")
def str_ew(I, a, c):
    s = sval(a[0])
    if isinstance(s, SymStr): raise Undecided("ends_with of abstract string")
    k, y = pats(I, a[1]); return s.endswith(y) if k == "s" else bool(s) and y(s[-1])
@m("String::remove")
def s_remove(I, a, c):
    s = deref(a[0]); x = cstr(s); i = conc(I, a[1]); b = x.encode()
    if i >= len(b): raise Panic("String::remove")
    p = b[:i].decode(); r = b[i:].decode(); touch(s.f); s.f[0] = p + r[1:]; return ord(r[0])
@m("String::retain")
def s_retain(I, a, c):
    s = deref(a[0]); f = fn(a[1]); x = "".join(ch for ch in cstr(s) if truth(I, I.call_value(f, [ord(ch)]))); touch(s.f); s.f[0] = x; return unit()
@m("String::drain")
def s_drain(I, a, c):
    s = deref(a[0]); b = cstr(s).encode(); i, j = rng(I, a[1], len(b))
    if i > j or j > len(b): raise Panic("String::drain")
    touch(s.f); s.f[0] = (b[:i] + b[j:]).decode(); l = [ord(x) for x in b[i:j].decode()]; return seq(l)
@m("String::replace_range")
def s_rr(I, a, c):
    s = deref(a[0]); b = cstr(s).encode(); i, j = rng(I, a[1], len(b))
    if i > j or j > len(b): raise Panic("String::replace_range")
    touch(s.f); s.f[0] = scat(b[:i].decode(), sval(a[2]), b[j:].decode()); return unit()
@m("String::split_off")
def s_so(I, a, c):
    s = deref(a[0]); b = cstr(s).encode(); i = conc(I, a[1])
    if i > len(b): raise Panic("String::split_off")
    touch(s.f); s.f[0] = b[:i].decode(); return StrObj(b[i:].decode())
@over("String::insert")
def s_insert(I, a, c):
    s = deref(a[0]); b = cstr(s).encode(); i = conc(I, a[1])
    if i > len(b): raise Panic("String::insert")
    touch(s.f); s.f[0] = b[:i].decode() + chr(conc(I, a[2])) + b[i:].decode(); return unit()
@over("String::insert_str")
def s_insert_str2(I, a, c):
    s = deref(a[0]); b = cstr(s).encode(); i = conc(I, a[1])
    if i > len(b): raise Panic("String::insert_str")
    touch(s.f); s.f[0] = scat(b[:i].decode(), sval(a[2]), b[i:].decode()); return unit()
@over("String::truncate")
def s_trunc2(I, a, c):
    s = deref(a[0]); b = cstr(s).encode(); i = conc(I, a[1]); touch(s.f); s.f[0] = b[:i].decode(); return unit()
@over("str::is_char_boundary")
def s_icb(I, a, c):
    b = cstr(a[0]).encode(); i = conc(I, a[1])
    return i == len(b) or i < len(b) and (b[i] & 0xC0) != 0x80
@m("str::char_count")
def s_cc(I, a, c): raise Undecided("char_count")
@m("char::from_digit", "methods::from_digit")
def ch_fd(I, a, c):
    n, r = conc(I, a[0]), conc(I, a[1]); return some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[n])) if n < r else none()
@m("char::to_ascii_lowercase", "char::to_ascii_uppercase")
def ch_lc(I, a, c):
    x = conc(I, deref(a[0])); return ord((chr(x).lower() if last(c).endswith("lowercase") else chr(x).upper())) if x < 128 else x
@m("u8::to_ascii_lowercase", "u8::to_ascii_uppercase")
def u8_lc(I, a, c): return ch_lc(I, a, c)
@m("u8::is_ascii_digit", "u8::is_ascii_hexdigit", "u8::is_ascii_alphabetic", "u8::is_ascii_alphanumeric", "u8::is_ascii_whitespace", "char::is_ascii_alphabetic", "char::is_ascii_alphanumeric", "char::is_ascii_lowercase", "char::is_ascii_uppercase", "char::is_ascii", "u8::is_ascii", "char::is_ascii_whitespace", "char::is_lowercase", "char::is_uppercase", "char::is_ascii_punctuation", "char::is_control")
def ch_is2(I, a, c):
    n = conc(I, deref(a[0])); x = chr(n); asc = n < 128
    return {"is_ascii": asc, "is_ascii_digit": asc and x.isdigit(), "is_ascii_hexdigit": x in "0123456789abcdefABCDEF", "is_ascii_alphabetic": asc and x.isalpha(),
            "is_ascii_alphanumeric": asc and x.isalnum(), "is_ascii_whitespace": x in " \t\n\r\x0c", "is_ascii_lowercase": asc and x.islower(), "is_ascii_uppercase": asc and x.isupper(),
            "is_lowercase": x.islower(), "is_uppercase": x.isupper(), "is_ascii_punctuation": asc and x.isprintable() and not x.isalnum() and x != " ", "is_control": n < 32 or 127 <= n < 160}[last(c)]
@m("str::is_ascii")
def s_isa(I, a, c): return all(ord(x) < 128 for x in cstr(a[0]))
@m("str::get_unchecked")
def s_gu(I, a, c): raise Undecided("get_unchecked")
@m("str::escape_default", "str::escape_debug")
def s_esc(I, a, c): raise Undecided("escape")
@m("str::as_str")
def s_as(I, a, c): return sval(a[0])
@m("String::into_boxed_str", "str::into_string")
def s_ibs(I, a, c): return a[0]
@m("String::from_utf8_unchecked", "str::from_utf8_unchecked")
def s_fuu(I, a, c):
    s = bytes(conc(I, x, "byte") for x in items(a[0])).decode(); return StrObj(s) if "String" in c["p"] else s
@m("String::extend_from_within")
def s_efw(I, a, c): raise Undecided("extend_from_within")
@m("str::chars_rev")
def s_cr(I, a, c): raise Undecided("chars_rev")
@m("str::trim_ascii")
def s_ta(I, a, c): return cstr(a[0]).strip(" \t\n\r\x0c")

# ------------------------------------------------------------------ integers
def ireg(*names):
    def d(f):
        for t in A.INTW:
            for n in names: _M.setdefault("%s::%s" % (t, n), f)
        return f
    return d
for _t in A.INTW: _M.pop("%s::overflowing_neg" % _t, None)
def lim(w, s): return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
def wrapn(n, w, s):
    n &= (1 << w) - 1
    return n - (1 << w) if s and n >> (w - 1) else n
def tdiv(x, y):
    q = abs(x) // abs(y); return q if (x < 0) == (y < 0) else -q
@ireg("saturating_mul", "saturating_pow")
def i_satmul(I, a, c):
    w, s = B.iw(c); x, y = conc(I, a[0]), conc(I, a[1]); r = x * y if last(c).endswith("mul") else x ** y
    lo, hi = lim(w, s); return max(lo, min(hi, r))
@ireg("ilog10")
def i_log10(I, a, c):
    x = conc(I, a[0])
    if x <= 0: raise Panic("ilog of a non-positive number")
    return len(str(x)) - 1
@ireg("ilog")
def i_log(I, a, c):
    x, b = conc(I, a[0]), conc(I, a[1]); n = 0
    if x <= 0 or b < 2: raise Panic("ilog")
    while x >= b: x //= b; n += 1
    return n
@ireg("checked_ilog2")
def i_cl2(I, a, c):
    x = conc(I, a[0]); return some(x.bit_length() - 1) if x > 0 else none()
@ireg("checked_next_power_of_two")
def i_cnp(I, a, c):
    w, s = B.iw(c); x = conc(I, a[0]); r = 1 << max(0, (x - 1).bit_length()) if x > 1 else 1
    return some(r) if r < (1 << w) else none()
@ireg("isqrt")
def i_isqrt(I, a, c):
    import math
    return math.isqrt(conc(I, a[0]))
@ireg("div_euclid")
def i_de(I, a, c):
    x, y = conc(I, a[0]), conc(I, a[1])
    if y == 0: raise Panic("div by zero")
    return (x - x % abs(y)) // y
@ireg("div_floor")
def i_df(I, a, c): return conc(I, a[0]) // conc(I, a[1])
@ireg("signum")
def i_sg(I, a, c): x = conc(I, a[0]); return (x > 0) - (x < 0)
@ireg("is_negative")
def i_neg(I, a, c): return conc(I, a[0]) < 0
@ireg("is_positive")
def i_pos(I, a, c): return conc(I, a[0]) > 0
@ireg("leading_ones", "trailing_ones", "count_zeros")
def i_lo(I, a, c):
    w, s = B.iw(c); x = conc(I, a[0]) & ((1 << w) - 1); y = ~x & ((1 << w) - 1)
    return {"leading_ones": w - y.bit_length(), "trailing_ones": w if y == 0 else (y & -y).bit_length() - 1, "count_zeros": w - bin(x).count("1")}[last(c)]
@ireg("wrapping_div", "wrapping_rem")
def i_wd(I, a, c):
    w, s = B.iw(c); x, y = conc(I, a[0]), conc(I, a[1])
    if y == 0: raise Panic("div by zero")
    q = tdiv(x, y); return wrapn(q if last(c).endswith("div") else x - q * y, w, s)
@ireg("checked_neg")
def i_cn(I, a, c):
    w, s = B.iw(c); x = -conc(I, a[0]); lo, hi = lim(w, s); return some(x) if lo <= x <= hi else none()
@ireg("checked_abs")
def i_ca(I, a, c):
    w, s = B.iw(c); x = abs(conc(I, a[0])); return some(x) if x <= lim(w, s)[1] else none()
@ireg("checked_rem_euclid", "checked_div_euclid")
def i_cre(I, a, c):
    x, y = conc(I, a[0]), conc(I, a[1])
    if y == 0: return none()
    r = x % abs(y); return some(r if "rem" in last(c) else (x - r) // y)
@ireg("overflowing_neg")
def i_on(I, a, c):
    w, s = B.iw(c); x = -conc(I, a[0]); lo, hi = lim(w, s); return tup(wrapn(x, w, s), not lo <= x <= hi)
@ireg("overflowing_shl", "overflowing_shr")
def i_os(I, a, c):
    w, s = B.iw(c); y = conc(I, a[1]); return tup(I.binop("Shl" if last(c).endswith("shl") else "Shr", a[0], y % w, w, s), y >= w)
@ireg("overflowing_pow")
def i_op(I, a, c):
    w, s = B.iw(c); x = conc(I, a[0]) ** conc(I, a[1]); lo, hi = lim(w, s); return tup(wrapn(x, w, s), not lo <= x <= hi)
@ireg("is_multiple_of")
def i_imo(I, a, c):
    x, y = conc(I, a[0]), conc(I, a[1]); return x == 0 if y == 0 else x % y == 0
@ireg("to_be", "from_be")
def i_tobe(I, a, c): return B.swapb(I, a, c)
@ireg("midpoint")
def i_mid(I, a, c): return (conc(I, a[0]) + conc(I, a[1])) // 2
@ireg("checked_next_multiple_of")
def i_cnm(I, a, c):
    w, s = B.iw(c); x, y = conc(I, a[0]), conc(I, a[1])
    if y == 0: return none()
    r = -(-x // y) * y; return some(r) if r <= lim(w, s)[1] else none()
@ireg("unbounded_shl", "unbounded_shr")
def i_us(I, a, c):
    w, s = B.iw(c); y = conc(I, a[1]); return I.binop("Shl" if last(c).endswith("shl") else "Shr", a[0], y, w, s) if y < w else 0
@ireg("widening_mul", "carrying_mul", "carrying_add", "borrowing_sub")
def i_und(I, a, c): raise Undecided(c["p"])
@ireg("swap")
def i_swap(I, a, c): raise Undecided(c["p"])

# ------------------------------------------------------------------ cells and memory
@m("Cell::take", "RefCell::take")
def cell_take(I, a, c):
    b = B.deref_mutex(a[0]); touch(b.f); x = b.f[0]; b.f[0] = default_of(I, c["a"][0]); return x
@m("Cell::replace", "RefCell::replace")
def cell_replace(I, a, c):
    b = B.deref_mutex(a[0]); touch(b.f); x = b.f[0]; b.f[0] = a[1]; return x
@m("Cell::into_inner", "RefCell::into_inner", "Box::into_inner")
def cell_into(I, a, c): return a[0].f[0]
@m("Mutex::into_inner", "RwLock::into_inner")
def mutex_into(I, a, c): return ok(a[0].f[0])
@m("Rc::clone", "Arc::clone")
def rc_clone(I, a, c): return a[0].c[a[0].k] if type(a[0]) is Ref else a[0]
@m("Rc::ptr_eq", "Arc::ptr_eq")
def rc_pe(I, a, c): return deref_box(a[0]) is deref_box(a[1])
def deref_box(v):
    while type(v) is Ref: v = v.c[v.k]
    return v
@m("Rc::try_unwrap", "Arc::try_unwrap", "Arc::get_mut", "Rc::get_mut", "Arc::make_mut", "Rc::make_mut", "Rc::strong_count", "Arc::strong_count")
def rc_und(I, a, c): raise Undecided(c["p"])
@m("mem::forget")
def forget(I, a, c): return unit()
@m("convert::identity")
def identity(I, a, c): return a[0]
@m("array::try_from_fn")
def tff(I, a, c): raise Undecided("try_from_fn")
