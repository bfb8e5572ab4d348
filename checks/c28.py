import re
import flow, core
LEVEL = "other"
TECHNIQUE = "order- and entropy-effect analysis over type-checked MIR: every iteration of an unordered container, entropy source, address and scheduling-dependent operation of every body, with the uses of its result"
RULE = ("an iteration over a hash map or set (including its serialisation) ends in an order-independent result: a keyed container, a sort by key before any other use, a commutative reduction, or a loop whose effects on outer state are keyed inserts or commutative updates and which leaves early only with a value that does not come from the item; "
        "random generators occur only in Groth16 setup and proving and in random sampling itself, clocks only reach text for the log, addresses are not turned into numbers, seeded hashers are not used, directory listings are sorted; "
        "tasks of the thread pool do not append to shared sequences, choose 'any' element, or use the ticket of an atomic counter (that the number of workers changes no result is decided by C07 and C09, which evaluate for several numbers)")
ASSUME = ["sorting is by a key that the entries do not share (checked: the key is derived from the map's key)", "functions that only receive shared references have no effect that depends on call order"]
CRATES = {"starky", "algebraic", "algebraic_gpu", "fields", "groth16", "recursion", "recursion_gnark_ffi", "recursion_gnark_cli", "dsl_compile", "eigen_zkit"}
HASH = re.compile(r"(^|::)(HashMap|HashSet|hash_map::\w+|hash_set::\w+|AHashMap|AHashSet|FxHashMap|DashMap)$|std::collections::hash::|hashbrown::")
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|extract_if|par_iter|into_par_iter|par_iter_mut|intersection|union|difference|symmetric_difference)$")
ADAPT = re.compile(r"::(map|filter|filter_map|cloned|copied|inspect|flat_map|flatten|into_iter|iter|by_ref|rev|chain|fuse|peekable|map_while)$")
ORDERED = re.compile(r"::(next|last|nth|find|find_map|position|take|skip|take_while|skip_while|step_by|enumerate|zip|reduce|try_fold|fold|scan|next_back|partition|cmp|eq|unzip|for_each|try_for_each|min_by_key|max_by_key|min_by|max_by|is_sorted|collect_vec|join|sorted_by_key)$")
COMM = re.compile(r"::(count|sum|product|min|max|any|all|len|size_hint|is_empty)$")
KEYED = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)")
FMT = flow.FMT
SORT = re.compile(r"::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|sorted|par_sort\w*)$")
RNG = re.compile(r"thread_rng$|OsRng|::random$|from_entropy$|getrandom|EntropyRng|rand::rng$|::try_fill_bytes$|StdRng.*::from_rng$")
CLOCK = re.compile(r"(Instant|SystemTime)::now$|::UNIX_EPOCH|SystemTime::elapsed$")
RSTATE = re.compile(r"RandomState(::|$)|::RandomState>::|hash_one$")
# places documented to be randomised: the trapdoor of a Groth16 setup and the blinding of a proof; sampling functions
RANDOM_OK = [re.compile(p) for p in (r"^groth16::api::groth16_(setup|prove)\w*$", r"^groth16::groth16::", r" as rand::(Rand|distributions::)", r" as ff_ce::Field>::(rand|random)", r"::dev::", r" as ff::Field>::random")]


class Body:
    def __init__(s, m, f):
        s.m = m; s.T = m.types; s.f = f; s.B = f["blocks"]
        s.defs = {}; s.uses = {}
        for bi, b in enumerate(s.B):
            if b["c"]: continue
            for x in b["s"]:
                if x[0] != "=": continue
                s.defs.setdefault(x[1][0], []).append((bi, x))
                for l in locs(x[2]): s.uses.setdefault(l, []).append((bi, x))
            t = b["t"]
            if t[0] == "call":
                s.defs.setdefault(t[3][0], []).append((bi, t))
                for o in t[2]:
                    if o[0] != "k": s.uses.setdefault(o[1][0], []).append((bi, t))
            elif t[0] == "switch" and t[1][0] != "k": s.uses.setdefault(t[1][1][0], []).append((bi, t))
        s.succ = [[] if b["c"] else succ(b["t"]) for b in s.B]
        s._reach = {}

    def reach(s, a):
        if a in s._reach: return s._reach[a]
        seen = set(); w = list(s.succ[a])
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x); w += s.succ[x]
        s._reach[a] = seen
        return seen

    def strip(s, t):
        x = s.T[t]
        while x["k"] == "ref": x = s.T[x["e"]]
        return x

    def derived(s, roots, stop=None):
        """locals holding values derived from the roots (moves, references, projections, pure calls)"""
        out = set(roots); w = list(roots)
        while w:
            l = w.pop()
            for bi, u in s.uses.get(l, []):
                if u[0] == "=": d = u[1][0]
                elif u[0] == "call":
                    if stop and stop(u): continue
                    d = u[3][0]
                else: continue
                if d not in out: out.add(d); w.append(d)
        return out


def locs(rv):
    out = []
    def go(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] in ("mv", "cp") and isinstance(o[1], list): out.append(o[1][0]); idx(o[1][1])
            elif o and o[0] == "k": return
            else:
                for x in o: go(x)
    def idx(pr):
        for p in pr:
            if isinstance(p, list) and p[0] == "i": out.append(p[1])
    if rv[0] in ("ref", "addr", "rawref"): out.append(rv[2][0]); idx(rv[2][1])
    elif rv[0] in ("discr", "len"): out.append(rv[1][0])
    else: go(rv[1:])
    return out


def succ(t):
    if t[0] == "call": return [t[4]] if t[4] is not None else []
    if t[0] == "drop": return [t[2]]
    if t[0] == "switch": return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if t[0] == "goto": return [t[1]]
    if t[0] == "assert": return [t[4]]
    return []


def name(t): return t[1].get("r") or t[1].get("p") or ""
def hashy(T, t):
    x = T[t]
    while x["k"] == "ref": x = T[x["e"]]
    return x["k"] == "adt" and bool(HASH.search(x["p"]))
def mentions(T, t, depth=0):
    """an unordered container somewhere inside the type"""
    x = T[t]
    if depth > 6: return False
    if x["k"] == "adt":
        if re.search(r"::(HashMap|HashSet)$", x["p"]): return True
        return any(mentions(T, a, depth + 1) for a in x.get("a", []) if isinstance(a, int))
    if x["k"] in ("ref", "array", "slice"): return mentions(T, x["e"], depth + 1)
    if x["k"] == "tuple": return any(mentions(T, a, depth + 1) for a in x["e"])
    return False


def closure_of(m, T, t, bypath):
    x = T[t]
    return bypath.get(x["p"]) if x["k"] in ("closure", "fndef") else None


def keyed_sort(m, T, t, bypath):
    """the closure of sort_by_key / sort_by reads the key (first component) of the entries"""
    n = name(t).split("::")[-1]
    if n in ("sort", "sort_unstable", "sorted", "par_sort", "par_sort_unstable"): return True
    for a in t[6]:
        g = closure_of(m, T, a, bypath)
        if g is None: continue
        txt = str([b["s"] for b in g["blocks"]] + [b["t"][2] for b in g["blocks"] if b["t"][0] == "call"])
        if re.search(r"\['f', 0, \d+\]", txt) : return True
        return False
    return True


def order(b, bypath, m):
    """complaints about unordered iteration in one body"""
    T = b.T; bad = []
    for bi, blk in enumerate(b.B):
        t = blk["t"]
        if blk["c"] or t[0] != "call": continue
        n = name(t)
        if not t[6]: continue
        # serialisation of an unordered container
        if re.search(r"::(serialize_field|serialize_element|serialize_entry|serialize_value|serialize_newtype_struct|to_string|to_string_pretty|to_writer|to_writer_pretty|to_vec|serialize|serialize_into|collect_map|collect_seq)$", n) and ("serde" in n or "bincode" in n or "Serialize" in n):
            if any(mentions(T, a) for a in list(t[6]) + [x for x in (t[1].get("a") or []) if isinstance(x, int)]):
                bad.append("an unordered container is serialised in its iteration order (%s)" % t[5]); continue
        if not (ITER.search(n) and hashy(T, t[6][0])): continue
        if HASH.search(T[t[7]].get("p", "")) is None and T[t[7]]["k"] != "adt": continue
        x = T[t[6][0]]
        if x["k"] == "adt" and re.search(r"hash::(map|set)::\w+$|hash_map::\w+$", x["p"]) and not re.search(r"::(HashMap|HashSet)$", x["p"]): continue   # into_iter of an iterator
        bad += follow(b, t[3][0], t[5], bypath, m, set())
    return bad


def follow(b, local, sp, bypath, m, seen):
    """the iterator in `local` ends in something order-independent"""
    T = b.T; bad = []
    if local in seen: return bad
    seen.add(local)
    for bi, u in b.uses.get(local, []):
        if u[0] == "=":
            if not u[1][1] or True: bad += follow(b, u[1][0], sp, bypath, m, seen)
            continue
        if u[0] != "call": continue
        n = name(u)
        if COMM.search(n): continue
        if re.search(r"::(collect|from_iter|extend|collect_into)$|FromIterator", n):
            d = T[u[7]]
            tgt = u[7] if n.split("::")[-1] != "extend" else u[6][0]
            x = T[tgt]
            while x["k"] == "ref": x = T[x["e"]]
            if x["k"] == "adt" and x["p"].split("::")[-1] in ("Result", "Option") and x["a"]: x = T[x["a"][0]]
            if KEYED.search(x.get("p", "")): continue
            if n.split("::")[-1] == "extend": bad.append("items are appended to a sequence in the iteration order (%s)" % u[5]); continue
            bad += sorted_before_use(b, u[3][0], bi, u[5], bypath, m); continue
        if re.search(r"::next$", n):
            bad += loop(b, bi, u, bypath, m); continue
        if ADAPT.search(n) or re.search(r"::into_iter$", n): bad += follow(b, u[3][0], sp, bypath, m, seen); continue
        if FMT.search(n): continue
        if re.search(r"core::mem::drop$|::drop$", n): continue
        if ORDERED.search(n): bad.append("%s takes the items of an unordered container in their iteration order (%s)" % (n.split("::")[-1], u[5])); continue
        if bypath.get(n): bad.append("the iterator of an unordered container is handed to %s (%s)" % (n, u[5])); continue
    return bad


def sorted_before_use(b, v, bi, sp, bypath, m):
    """a sequence built in iteration order is sorted before anything else looks at it"""
    T = b.T
    group = {v}; ch = True
    while ch:   # moves and references of the vector
        ch = False
        for l in list(group):
            for _, u in b.uses.get(l, []):
                d = None
                if u[0] == "=" and u[2][0] in ("use", "ref", "cast") and not u[1][1]: d = u[1][0]
                elif u[0] == "call" and re.search(r"::(deref|deref_mut|as_mut_slice|as_slice|unwrap|expect|as_mut|as_ref|branch|from_residual|into_iter_sorted)$", name(u)): d = u[3][0]
                if d is not None and d not in group: group.add(d); ch = True
    sorts = []; looks = []
    for l in group:
        for ui, u in b.uses.get(l, []):
            if u[0] != "call": continue
            n = name(u)
            if SORT.search(n): sorts.append((ui, u))
            elif re.search(r"::(deref|deref_mut|as_mut_slice|as_slice|unwrap|expect|as_mut|as_ref|branch|from_residual|len|is_empty|capacity|with_capacity|dedup|drop)$", n) or FMT.search(n): continue
            elif re.search(r"::(collect|from_iter)$", n) and KEYED.search(T[u[7]].get("p", "")): continue
            else: looks.append((ui, u))
        if l == 0: looks.append((len(b.B), ["call", {"r": "return"}, [], [0, []], None, b.f["span"], [], 0]))
    good = [(si, s) for si, s in sorts if keyed_sort(m, T, s, bypath)]
    for ui, u in looks:
        if ui == len(b.B):
            ok = bool(good)
        else: ok = any(ui in b.reach(si) and not bypasses(b, bi, ui, si) for si, _ in good)
        if not ok:
            if sorts and not good: return ["a sequence from an unordered container is sorted by something its entries may share (%s)" % sp]
            return ["a sequence is built in the iteration order of an unordered container and used (%s) before it is sorted (%s)" % (name(u).split("::")[-1], sp)]
    return []


def bypasses(b, a, z, mid):
    """a path from a to z that avoids mid"""
    seen = {mid}; w = [a]
    while w:
        x = w.pop()
        for y in b.succ[x]:
            if y == z and x != mid: return True
            if y not in seen: seen.add(y); w.append(y)
    return False


MUTOK = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|hash_map|btree_map|hash_set|btree_set|map::Entry|Entry)(<.*>|::<.*>)?::(\w+)$")
def loop(b, bi, u, bypath, m):
    T = b.T
    if bi not in b.reach(bi): return ["the first item of an unordered container is chosen (%s)" % u[5]]
    inside = {x for x in b.reach(bi) if bi in b.reach(x)}
    items = b.derived([u[3][0]])
    bad = []
    # locals that live across iterations: used in the loop, defined outside
    outer = set()
    for l, ds in b.defs.items():
        if any(d not in inside for d, _ in ds): outer.add(l)
    argc = b.f.get("argc", 0)
    def root(l, n=0):
        """the outer local a reference points to"""
        if n > 15: return l
        ds = b.defs.get(l, [])
        if len(ds) == 1:
            x = ds[0][1]
            if x[0] == "=" and x[2][0] == "ref": return root(x[2][2][0], n + 1)
            if x[0] == "=" and x[2][0] == "use" and x[2][1][0] != "k": return root(x[2][1][1][0], n + 1)
            if x[0] == "call" and x[2] and x[2][0][0] != "k" and T[x[7]]["k"] == "ref" and re.search(r"::(deref_mut|index_mut|get_mut|as_mut|unwrap|or_insert|or_insert_with|or_default|borrow_mut|iter_mut)$", name(x)): return root(x[2][0][1][0], n + 1)
        return l
    own = root(u[2][0][1][0]) if u[2] and u[2][0][0] != "k" else None
    for x in inside:
        blk = b.B[x]
        if blk["c"]: continue
        for st in blk["s"]:
            if st[0] != "=": continue
            l = st[1][0]
            tgt = root(l) if "*" in st[1][1] else l
            if tgt in outer and tgt != own and not b.T[b.f["locals"][tgt]]["k"] == "never":
                if st[2][0] in ("ref", "discr"): continue
                if "*" not in st[1][1] and not any(d in inside for d, _ in b.defs.get(tgt, [])): continue
                if commutes(b, st, tgt, inside): continue
                if tgt == 0: continue
                if set(locs(st[2])) & items: bad.append("the last item of an unordered container decides (%s)" % st[3])
        t = blk["t"]
        if t[0] == "call" and t is not u:
            n = name(t)
            for i, o in enumerate(t[2]):
                if o[0] == "k": continue
                ty = T[t[6][i]]
                if ty["k"] != "ref" or not ty.get("m"): continue
                r = root(o[1][0])
                if r in outer and r != own:
                    if FMT.search(n): continue
                    if MUTOK.search(n) or KEYED.search(T[b.f["locals"][r]].get("p", "")) and r == o[1][0]: continue
                    if re.search(r"::(get_mut|entry|insert|remove|or_insert|or_insert_with|deref_mut|index_mut|or_default|add_assign|mul_assign|bitor_assign|bitxor_assign|bitand_assign)$", n): continue
                    if re.search(r"::(push|extend|append|push_back)$", n):
                        w = sorted_before_use_after_loop(b, o[1], inside, bypath, m)
                        if w is None: continue
                    bad.append("the items of an unordered container are handled in their iteration order by %s (%s)" % (n.split("::")[-1], t[5]))
    # leaving early with the item
    for x in inside:
        for y in b.succ[x]:
            if y in inside: continue
            for z in [y] + sorted(b.reach(y)):
                for st in b.B[z]["s"]:
                    if st[0] == "=" and st[1][0] == 0 and set(locs(st[2])) & items and not iserr(b, st): bad.append("the item met first in an unordered container is returned (%s)" % st[3])
            if b.B[x]["t"][0] == "switch" and x != b_after(b, bi): pass
    return bad


def b_after(b, bi): return b.B[bi]["t"][4]
def iserr(b, st):
    rv = st[2]
    return rv[0] == "agg" and isinstance(rv[1], list) and "Result" in str(rv[1]) and rv[1][2] == 1 if len(rv[1]) > 2 else False


def commutes(b, st, tgt, inside):
    """x = x op y with a commutative, associative op (also through the overflow-checked pair)"""
    def op(rv, n=0):
        if rv[0] == "bin" and re.match(r"(Add|Mul|BitOr|BitAnd|BitXor)", rv[1]): return any(src(o) == tgt for o in rv[2:4])
        if rv[0] == "use" and rv[1][0] != "k" and n < 4:
            for _, d in b.defs.get(rv[1][1][0], []):
                if d[0] == "=" and op(d[2], n + 1): return True
                if d[0] == "call" and re.search(r"::(max|min|add|mul|bitor|bitand|wrapping_add|saturating_add)$", name(d)) and any(src(o) == tgt for o in d[2]): return True
        return False
    def src(o, n=0):
        if o[0] == "k": return None
        l = o[1][0]
        if l == tgt or n > 4: return l
        ds = b.defs.get(l, [])
        if len(ds) == 1 and ds[0][1][0] == "=" and ds[0][1][2][0] == "use": return src(ds[0][1][2][1], n + 1)
        if len(ds) == 1 and ds[0][1][0] == "=" and ds[0][1][2][0] == "ref": return ds[0][1][2][2][0]
        return l
    rv = st[2]
    if rv[0] == "use" and rv[1][0] == "k": return True     # a constant: the same whichever item set it
    return op(rv)


def path(b, pl, n=0):
    """(root local, fields) a place stands for, through references and moves"""
    l, proj = pl; fs = tuple(p[1] for p in proj if isinstance(p, list) and p[0] == "f")
    if n > 15: return (l, fs)
    ds = b.defs.get(l, [])
    if len(ds) == 1:
        x = ds[0][1]
        if x[0] == "=" and not x[1][1]:
            src = x[2][2] if x[2][0] in ("ref", "rawref", "addr") else x[2][1][1] if x[2][0] == "use" and x[2][1][0] != "k" else None
            if src is not None:
                r, g = path(b, src, n + 1)
                return (r, g + fs)
        if x[0] == "call" and x[2] and x[2][0][0] != "k" and NOUSE.search(name(x)):
            r, g = path(b, x[2][0][1], n + 1)
            return (r, g + fs)
    return (l, fs)
NOUSE = re.compile(r"::(deref|deref_mut|as_mut_slice|as_slice|as_mut|as_ref|borrow_mut|len|is_empty|with_capacity|capacity|dedup|reserve)$|::drop$")


def sorted_before_use_after_loop(b, place, inside, bypath, m):
    """on every way out of the loop the sequence at this place is sorted before anything else looks at it"""
    T = b.T; P = path(b, place)
    def touches(q): return q[0] == P[0] and (q[1][:len(P[1])] == P[1] or P[1][:len(q[1])] == q[1])
    local = P[0] > b.f.get("argc", 0) or not P[1]
    w = [y for x in inside for y in b.succ[x] if y not in inside]; seen = set()
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x); t = b.B[x]["t"]; done = False
        for st in b.B[x]["s"]:
            if st[0] != "=" : continue
            if st[1][0] == 0 and any(touches(path(b, [l, []])) for l in locs(st[2])) : return "unsorted"
        if t[0] == "call":
            n = name(t)
            hit = [i for i, o in enumerate(t[2]) if o[0] != "k" and touches(path(b, o[1]))]
            if hit:
                if SORT.search(n) and 0 in hit and keyed_sort(m, T, t, bypath): done = True
                elif not NOUSE.search(n) and not FMT.search(n): return "unsorted"
        elif t[0] == "ret" and T[b.f["locals"][P[0]]]["k"] == "ref": return "unsorted"
        elif t[0] == "ret" and P[0] == 0: return "unsorted"
        if not done: w += b.succ[x]
    return None


def entropy(b, path, bypath):
    T = b.T; bad = []
    for bi, blk in enumerate(b.B):
        if blk["c"]: continue
        for x in blk["s"]:
            if x[0] == "=" and x[2][0] == "cast":
                c = x[2]
                if re.search(r"ExposeProvenance|ExposeAddr|PointerExpose", c[1]): bad.append("an address becomes a number (%s)" % x[3])
                elif c[1] == "Transmute" and len(c) > 4 and T[c[3]]["k"] in ("uint", "int") and T[c[4]]["k"] in ("ptr", "ref", "fnptr"): bad.append("an address becomes a number (%s)" % x[3])
        t = blk["t"]
        if t[0] != "call": continue
        n = name(t)
        if RNG.search(n) or re.search(r"OsRng", str([T[a].get("s", "") for a in t[6]])) and "rand" in n:
            if not any(r.search(path) for r in RANDOM_OK): bad.append("unseeded randomness (%s, %s)" % (n.split("::")[-1], t[5]))
        if RSTATE.search(n): bad.append("a hash with a random key (%s)" % t[5])
        if re.search(r"::new_pointer$", n): bad.append("an address is printed (%s)" % t[5])
        if re.search(r"<\*(const|mut) .* as core::hash::Hash>|ptr::hash$|ptr::addr$|::addr$|expose_provenance$", n): bad.append("an address becomes a number (%s)" % t[5])
        if re.search(r"std::thread::current$|ThreadId|current_thread_index$|std::process::id$|std::env::vars|hostname", n): bad.append("the identity of the thread, process or host is read (%s)" % t[5])
        if CLOCK.search(n):
            w = clock(b, t[3][0])
            if w: bad.append(w)
        if re.search(r"std::fs::read_dir$", n):
            w = [u for _, u in b.uses.get(t[3][0], [])]
            if not any(SORT.search(name(u["t"])) for u in [dict(t=bb["t"]) for bb in b.B if bb["t"][0] == "call"]): bad.append("a directory is listed in the order the system gives (%s)" % t[5])
    return bad


def clock(b, l):
    """what is derived from a clock only reaches text"""
    seen = set(); w = [l]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        if x == 0: return "a time is returned (%s)" % b.f["span"]
        for bi, u in b.uses.get(x, []):
            if u[0] == "=":
                if u[2][0] in ("ref", "use", "cast", "agg", "bin"): w.append(u[1][0])
            elif u[0] == "call":
                n = name(u)
                if FMT.search(n) or re.search(r"core::fmt::rt::Argument|fmt::", n): continue
                if re.search(r"(Instant|Duration|SystemTime)(<.*>|::<.*>)?::\w+$|core::time::Duration|core::result::Result|core::option::Option|core::ops::arith", n): w.append(u[3][0]); continue
                if re.search(r"drop$|Argument", n): continue
                return "a time reaches %s (%s)" % (n.split("::")[-1], u[5])
            elif u[0] == "switch": return "a time decides a branch (%s)" % b.f["span"]
    return None


PARCALL = re.compile(r"^<?rayon|rayon_core|ParallelIterator|std::thread::(spawn|scope|Builder)|Scope.*::spawn|crossbeam|scoped_threadpool")
def parallel(m, T, fi, f, F, bypath, clos):
    """effects of tasks: everything reachable from closures handed to the pool"""
    bad = []
    for b in f["blocks"]:
        t = b["t"]
        if b["c"] or t[0] != "call": continue
        n = name(t)
        if re.search(r"::(find_any|position_any|find_map_any|par_bridge|collect_into_set|try_find_any)$", n): bad.append("%s takes whichever item a thread meets first (%s)" % (n.split("::")[-1], t[5]))
        if re.search(r"ParallelIterator.*::(fold_chunks|fold|fold_with)$", n): pass
    return bad


def run(ctx):
    m = ctx.mir(); T = m.types
    fl = flow.Flow(m)
    fns = {i: f for i, f in fl.poly.items() if f["k"] in CRATES}
    bypath = {f["p"]: f for f in fns.values()}
    import checks.c29 as c29
    L = c29.Locks(m)
    # bodies that run as tasks
    tasks = {}
    for fi, f in L.fns.items():
        for _, t in L.calls(fi):
            if PARCALL.search(name(t)):
                for a in t[6]:
                    for g in L.closures(a): tasks.setdefault(g, "%s (%s)" % (f["p"], t[5]))
    w = list(tasks)
    while w:
        g = w.pop()
        for _, t in L.calls(g):
            for h in L.reach(L.fns[g], t):
                if h not in tasks: tasks[h] = tasks[g]; w.append(h)
    ctx.count("task_bodies", len(tasks))
    def one(fi, f):
        b = Body(m, f)
        disp = re.search(r" as core::fmt::(Debug|Display)>::fmt$", f["p"])
        bad = [] if disp else order(b, bypath, m)
        bad += entropy(b, f["p"], bypath)
        bad += parallel(m, T, fi, f, fl, bypath, None)
        if fi in tasks: bad += taskeffects(b, L, tasks[fi])
        return "; ".join(sorted(set(bad))[:4]) if bad else None
    for fi, f in sorted(fns.items()):
        ctx.count("bodies")
        n = sum(1 for b in f["blocks"] if b["t"][0] == "call" and b["t"][6] and hashy(T, b["t"][6][0]) and ITER.search(name(b["t"])))
        if n: ctx.count("unordered_iterations", n)
        ctx.ob("%s %s" % (re.sub(r":\d+$", "", f["span"] or "?"), f["p"]), "no result depends on iteration order, entropy, addresses or scheduling", one, fi, f)
    # types that serialise an unordered container by derive
    if not ctx.counts.get("unordered_iterations"): raise core.Missing("no iteration over a hash map found")


def taskeffects(b, L, why):
    """order of completion must not be visible: no appends behind a lock, no tickets"""
    T = b.T; bad = []
    for bi, blk in enumerate(b.B):
        t = blk["t"]
        if blk["c"] or t[0] != "call": continue
        n = name(t)
        if re.search(r"mpsc::(Sender|SyncSender)(::<.*>)?::send$|channel::Sender.*::send$", n): bad.append("results are sent in the order tasks finish (%s; task of %s)" % (t[5], why))
        if re.search(r"Atomic\w*(::<.*>)?::fetch_(add|sub|max|min)$|AtomicUsize::swap$", n):
            if [u for _, u in b.uses.get(t[3][0], []) if u[0] != "switch" or True]: bad.append("the ticket of a shared counter is used (%s; task of %s)" % (t[5], why))
        if re.search(r"::(push|push_str|extend|append|push_back|extend_from_slice|write_all|write)$", n) and t[2] and t[2][0][0] != "k":
            # receiver behind a guard
            l = t[2][0][1][0]; k = 0
            while k < 12:
                k += 1
                if L.guards(b.f["locals"][l]): bad.append("tasks append to a shared sequence in the order they run (%s; task of %s)" % (t[5], why)); break
                ds = b.defs.get(l, [])
                if len(ds) != 1: break
                x = ds[0][1]
                if x[0] == "=" and x[2][0] == "ref": l = x[2][2][0]
                elif x[0] == "=" and x[2][0] == "use" and x[2][1][0] != "k": l = x[2][1][1][0]
                elif x[0] == "call" and x[2] and x[2][0][0] != "k": l = x[2][0][1][0]
                else: break
    return bad


