import re
import flow, core
LEVEL = "other"
TECHNIQUE = "lock-order and guard-lifetime dataflow over type-checked MIR with an interprocedural may-acquire summary; typestate of values taken out of a shared container; abstract evaluation of the bit-reversal cache over call histories"
RULE = ("per body of every crate: a guard is followed from the acquisition through moves to its drop; while it is held no call may (transitively, through closures, trait implementations and lazy initialisers) acquire the same lock, "
        "the acquisition order over all bodies is acyclic, no parallel operation is awaited whose tasks take the held lock; a value taken out of shared data is put back before the guard goes, and shared data is not overwritten without having been looked at under the same guard; "
        "no static mut, no mutable access made from a shared reference, no Sync claim for interior mutability; the bit-reversal cache returns the reversal after every history of calls evaluated")
ASSUME = ["locks are told apart by the static or the struct field they live in; those reached only through a parameter are told apart by type and not reported against each other", "the standard library and rayon do not call back except through closures and trait implementations handed to them"]
CRATES = {"starky", "algebraic", "algebraic_gpu", "fields", "groth16", "recursion", "recursion_gnark_ffi", "recursion_gnark_cli", "dsl_compile", "eigen_zkit"}
GUARD = re.compile(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedMutexGuard|RwLockUpgradableReadGuard)$")
ACQ = re.compile(r"(?:Mutex|ReentrantMutex)(?:::<[^>]*>)?::lock$|RwLock(?:::<[^>]*>)?::(?:read|write|upgradable_read)$|lock_api::\w+::\w+.*::(?:lock|read|write)$")
INIT = re.compile(r"(?:lazy::Lazy|once_lock::OnceLock|OnceCell|Once|LazyLock|lazy_lock::LazyLock)(?:::<.*>)?::(?:get|get_or_init|get_or_try_init|call_once|call_once_force|force)$")
PAR = re.compile(r"^(rayon|<rayon|rayon_core)|::ParallelIterator::|IndexedParallelIterator|ParallelSlice")
TAKE = re.compile(r"::(remove|remove_entry|clear|drain|retain|truncate|pop|pop_front|pop_back|swap_remove|split_off)$|^core::mem::(take|replace|swap)$")
PUT = re.compile(r"::(insert|push|push_back|extend|append|or_insert|or_insert_with|or_default|extend_from_slice)$|^core::mem::(replace|swap)$")
LOOK = re.compile(r"::(contains_key|get|get_mut|entry|remove|remove_entry|is_empty|len|first|last|iter|index|get_or_insert_with|or_insert|keys|values|capacity|range|peek|contains)$|Index")


class Locks:
    def __init__(s, m):
        s.m = m; s.F = flow.Flow(m); s.T = m.types
        s.fns = {i: f for i, f in s.F.poly.items() if f["k"] in CRATES}
        s.by = {}
        for i, f in s.fns.items(): s.by.setdefault(f["p"], i)
        s.impls = {}
        for i, f in s.fns.items():
            g = re.match(r"<(.*) as ([^<>]+(?:<.*>)?)>::(\w+)$", f["p"])
            if g: s.impls.setdefault((re.sub(r"<.*", "", g.group(2)), g.group(3)), []).append(i)
        s.deep = {}
        s.acq = {}; s.ret = {}
        s.sites = 0
        s.fix()

    # ---- types
    def guards(s, t, seen=None):
        """type holds a lock guard by value"""
        k = ("g", t)
        if k in s.deep: return s.deep[k]
        s.deep[k] = False; x = s.T[t]; r = False
        if x["k"] == "adt":
            if GUARD.search(x["p"]): r = True
            elif not x["p"].startswith("core::marker"): r = any(s.guards(a) for a in x.get("a", []) if isinstance(a, int))
        elif x["k"] in ("tuple",): r = any(s.guards(a) for a in x["e"])
        elif x["k"] in ("array", "slice"): r = s.guards(x["e"])
        s.deep[k] = r
        return r

    def closures(s, t, seen=None):
        """bodies a value of this type can run"""
        k = ("c", t)
        if k in s.deep: return s.deep[k]
        s.deep[k] = frozenset(); x = s.T[t]; r = set()
        if x["k"] in ("closure", "fndef"):
            i = s.by.get(x["p"])
            if i is not None: r.add(i)
            elif x["k"] == "fndef": r |= s.traitfns(x["p"])
        for key in ("a", "e"):
            v = x.get(key)
            for a in (v if isinstance(v, list) else [v]):
                if isinstance(a, int) and not isinstance(a, bool): r |= s.closures(a)
        s.deep[k] = frozenset(r)
        return s.deep[k]

    def traitfns(s, p):
        g = re.match(r"(.*)::(\w+)$", p)
        return set(s.impls.get((re.sub(r"<.*", "", g.group(1)), g.group(2)), [])) if g else set()

    def targets(s, c):
        r = c.get("r") or c.get("p") or ""
        i = s.by.get(r)
        if i is not None: return {i}
        i = s.by.get(c.get("p") or "")
        if i is not None: return {i}
        if c.get("trait") and (c.get("rk") in (None, "") or r == c.get("p")):
            return set(s.impls.get((re.sub(r"<.*", "", c["trait"]), r.split("::")[-1]), []))
        return set()

    # ---- lock identity
    def defs(s, f):
        if "_defs" not in f:
            d = {}
            for b in f["blocks"]:
                for x in b["s"]:
                    if x[0] == "=" and not x[1][1]: d.setdefault(x[1][0], []).append(x[2])
                if b["t"][0] == "call" and not b["t"][3][1]: d.setdefault(b["t"][3][0], []).append(("call", b["t"]))
            f["_defs"] = d
        return f["_defs"]

    def place(s, f, pl, n=0):
        loc, proj = pl
        fl = [x for x in proj if x != "*"]
        fs = [x for x in fl if x[0] == "f"]
        if fs:
            # a field: named by the type that holds it
            return "field %s" % s.fieldname(f, pl)
        if n > 20: return None
        ds = s.defs(f).get(loc, [])
        if len(ds) != 1: return None
        d = ds[0]
        if d[0] == "ref": return s.place(f, d[2], n + 1)
        if d[0] == "use": return s.operand(f, d[1], n + 1)
        if d[0] == "cast": return s.operand(f, d[2], n + 1)
        if d[0] == "call":
            t = d[1]; c = t[1]; r = c.get("r") or c.get("p") or ""
            if re.search(r"::(deref|borrow|as_ref|get|clone|force|as_deref)$", r) or re.search(r" as core::ops::deref::Deref", r):
                g = re.match(r"<(.*) as core::ops::deref::Deref>::deref$", r)
                if g and s.by.get(r) is not None and "lazy" in str(s.fns[s.by[r]]["blocks"])[:6000]: return "static " + g.group(1)
                if t[2]: return s.operand(f, t[2][0], n + 1)
        return None

    def fieldname(s, f, pl):
        loc, proj = pl; t = f["locals"][loc]; name = None
        for x in proj:
            k = s.T[t]
            if x == "*": t = k.get("e", k["a"][0] if k.get("a") else t)
            elif x[0] == "f":
                name = "%s.%d" % (k.get("p", k["k"]), x[1]); t = x[2]
        return name

    def operand(s, f, o, n=0):
        if o[0] == "k": return "static " + o[2]["static"] if isinstance(o[2], dict) and "static" in o[2] else None
        return s.place(f, o[1], n)

    def lockid(s, f, t):
        i = s.operand(f, t[2][0]) if t[2] else None
        if i: return i
        return "type " + str(s.T[t[6][0]].get("s", t[6][0])) if t[6] else "?"

    # ---- summaries
    def calls(s, fi):
        f = s.fns[fi]
        for bi, b in enumerate(f["blocks"]):
            if b["c"] or b["t"][0] != "call": continue
            yield bi, b["t"]

    def direct(s, f, t):
        """locks the call itself takes"""
        c = t[1]; r = c.get("r") or c.get("p") or ""
        if ACQ.search(r) or ACQ.search(c.get("p") or ""): return {s.lockid(f, t)}
        if INIT.search(r): return {s.lockid(f, t)}
        return set()

    def reach(s, f, t):
        """bodies the call can run"""
        r = set(s.targets(t[1]))
        for a in t[6]: r |= s.closures(a)
        for a in t[1].get("a") or []:
            if isinstance(a, int): r |= s.closures(a)
        return r

    def fix(s):
        for fi in s.fns: s.acq[fi] = set(); s.ret[fi] = set()
        pre = {fi: [(s.direct(f, t), s.reach(f, t)) for _, t in s.calls(fi)] for fi, f in s.fns.items()}
        ch = True
        while ch:
            ch = False
            for fi in s.fns:
                a = set(s.acq[fi])
                for d, r in pre[fi]:
                    a |= d
                    for g in r: a |= s.acq[g]
                if a != s.acq[fi]: s.acq[fi] = a; ch = True
        # guards handed out
        for _ in range(3):
            for fi in s.fns:
                if s.guards(s.fns[fi]["locals"][0]): s.ret[fi] = s.flow(fi)[1]
        # locks taken by tasks of the thread pool
        s.pool = {}
        for fi, f in s.fns.items():
            for _, t in s.calls(fi):
                if PAR.search(t[1].get("r") or t[1].get("p") or ""):
                    for a in t[6]:
                        for g in s.closures(a):
                            for l in s.acq[g]: s.pool.setdefault(l, s.fns[g]["p"])

    def may(s, f, t):
        a = set(s.direct(f, t)); why = {}
        for l in a: why[l] = t[1].get("r") or t[1].get("p")
        for g in s.reach(f, t):
            for l in s.acq[g]: a.add(l); why.setdefault(l, s.fns[g]["p"])
        return a, why

    def flow(s, fi, report=None):
        """held guards: {local: frozenset of (lock)}; -> (edges, locks held by the returned value)"""
        f = s.fns[fi]; B = f["blocks"]; edges = set(); out = set()
        entry = frozenset()
        g = re.search(r"^(.*)::__static_ref_initialize$", f["p"])
        base = set()
        if g:
            h = re.match(r"<(.*) as core::ops::deref::Deref>", f["p"])
            base.add("lazy " + h.group(1) if h else "lazy " + f["p"])
        state = {0: {}}; work = [0]; seen = {}
        def join(bi, st):
            old = state.get(bi)
            if old is None: state[bi] = dict(st); work.append(bi); return
            ch = False
            for k, v in st.items():
                if not v <= old.get(k, frozenset()): old[k] = old.get(k, frozenset()) | v; ch = True
            if ch: work.append(bi)
        def mv(st, op, consume=True):
            """locks inside an operand; a move empties the local"""
            if op[0] not in ("mv", "cp"): return frozenset()
            l = op[1][0]; v = st.get(l, frozenset())
            if not v: return v
            if op[0] == "mv" and "*" not in op[1][1]:
                st.pop(l, None)
                return v
            return frozenset()
        n = 0
        while work and n < 20000:
            n += 1; bi = work.pop(); b = B[bi]
            if b["c"]: continue
            st = dict(state[bi])
            for x in b["s"]:
                if x[0] == "=":
                    rv = x[2]; ops = {"use": lambda: [rv[1]], "cast": lambda: [rv[2]], "agg": lambda: rv[2]}.get(rv[0], lambda: [])()
                    v = frozenset()
                    for o in ops: v |= mv(st, o)
                    if v: st[x[1][0]] = st.get(x[1][0], frozenset()) | v if x[1][1] else v
                elif x[0] == "dead": st.pop(x[1], None)
            t = b["t"]
            if t[0] == "call":
                taken = frozenset()
                held = frozenset().union(*st.values()) if st else frozenset()
                c = t[1]; r = c.get("r") or c.get("p") or ""
                for o in t[2]: taken |= mv(st, o)
                isdrop = taken and not s.guards(t[7])
                live = held - taken if isdrop and re.search(r"mem::drop$", r) else held
                live = set(live) | base
                if live or report is not None:
                    may, why = s.may(f, t)
                    for h in live:
                        for l in may:
                            edges.add((h, l, t[5], why.get(l)))
                    if report is not None and live:
                        report(bi, t, live, may, why)
                d = frozenset()
                if s.guards(t[7]):
                    if ACQ.search(r) or ACQ.search(c.get("p") or ""): d = frozenset([s.lockid(f, t)])
                    else:
                        for g2 in s.targets(c): d |= frozenset(s.ret[g2])
                        d |= taken
                if t[3]:
                    if d: st[t[3][0]] = d
                    elif not t[3][1]: st.pop(t[3][0], None)
                if t[4] is not None: join(t[4], st)
            elif t[0] == "drop":
                if not t[1][1]: st.pop(t[1][0], None)
                join(t[2], st)
            elif t[0] == "switch":
                for _, x in t[2]: join(x, st)
                if t[3] is not None: join(t[3], st)
            elif t[0] == "goto": join(t[1], st)
            elif t[0] == "assert": join(t[4], st)
            elif t[0] == "ret": out |= st.get(0, frozenset())
        return edges, out

    def opaque(s, l): return l.startswith("type ") or l == "?"


def rel(sp): return re.sub(r":\d+$", "", sp or "?")


def poison(L, fi, f):
    """what the caller passed is checked, with a panic, inside the critical section; a contended try_lock is taken for granted"""
    ev = set(); B = f["blocks"]; D = L.defs(f); nargs = f.get("argc", f.get("nargs"))
    for b in B:
        t = b["t"]
        if b["c"] or t[0] != "call": continue
        r = t[1].get("r") or t[1].get("p") or ""
        if re.search(r"::(unwrap|expect|unwrap_unchecked)$", r) and t[6] and L.guards(t[6][0]) and "TryLockError" in str(L.T[t[6][0]].get("s", "")):
            ev.add((t[5], "a lock that another thread holds for a moment is treated as a failure (try_lock)"))
    heldat = {}
    def rep(bi, t, live, may, why):
        if any(not L.opaque(h) and not h.startswith("lazy ") for h in live): heldat[bi] = live
    L.flow(fi, rep)
    pred = {}
    for bi, b in enumerate(B):
        t = b["t"]
        if t[0] == "switch":
            for x in [y for _, y in t[2]] + ([t[3]] if t[3] is not None else []): pred.setdefault(x, []).append((bi, t))
        elif t[0] == "goto": pred.setdefault(t[1], []).append((bi, t))
    for bi in heldat:
        t = B[bi]["t"]
        r = t[1].get("r") or t[1].get("p") or ""
        if not re.match(r"core::panicking::(panic|panic_fmt|assert_failed)|std::rt::begin_panic|std::rt::panic_fmt", r): continue
        x = bi; n = 0
        while x in pred and n < 8:
            n += 1; pb, pt = pred[x][0]
            if pt[0] == "switch":
                seen = set(); work = [pt[1]]; shared = False
                while work:
                    o = work.pop()
                    if o[0] == "k": continue
                    l = o[1][0]
                    if l in seen: continue
                    seen.add(l)
                    if L.guards(f["locals"][l]): shared = True
                    for d in D.get(l, []):
                        if d[0] == "use": work.append(d[1])
                        elif d[0] == "bin": work += [d[2], d[3]]
                        elif d[0] == "un": work.append(d[2])
                        elif d[0] == "cast": work.append(d[2])
                        elif d[0] in ("ref", "discr", "len"): work.append(["cp", d[2] if d[0] == "ref" else d[1]])
                        elif d[0] == "agg": work += d[2]
                        elif d[0] == "call": work += d[1][2]
                if not shared: ev.add((t[5], "what the caller passed is checked by a panic inside the critical section: it poisons the lock for every other thread"))
                break
            x = pb
    return sorted(ev)


def typestate(L, fi):
    """values taken out of shared data are put back under the same guard; shared data is looked at before it is overwritten"""
    f = L.fns[fi]; B = f["blocks"]; bad = []
    gl = {l for l, t in enumerate(f["locals"]) if L.guards(t)}
    if not gl: return []
    # locals that are references into data behind a mutable guard
    into = {}; ch = True
    def src(o): return o[1][0] if o[0] in ("mv", "cp") else None
    while ch:
        ch = False
        for b in B:
            for x in b["s"]:
                if x[0] != "=" or x[1][1]: continue
                rv = x[2]; s = None
                if rv[0] == "ref": s = rv[2][0]
                elif rv[0] == "use": s = src(rv[1])
                if s is not None and x[1][0] not in into and x[1][0] not in gl:
                    if s in into: into[x[1][0]] = into[s]; ch = True
                    elif s in gl and rv[0] == "ref": into[x[1][0]] = s; ch = True
            t = b["t"]
            if t[0] == "call" and t[2] and not t[3][1] and t[3][0] not in into and t[3][0] not in gl:
                s = src(t[2][0]); r = t[1].get("r") or t[1].get("p") or ""
                if s in into and re.search(r"::(deref|deref_mut|index_mut|index|get_mut|borrow_mut|as_mut|unwrap|expect|entry|or_insert_with|or_insert|or_default|as_mut_slice|iter_mut)$", r) and L.T[t[7]]["k"] in ("ref", "adt") :
                    if L.T[t[7]]["k"] == "ref" or "Entry" in str(L.T[t[7]].get("p")) or "Option" in str(L.T[t[7]].get("p")): into[t[3][0]] = into[s]; ch = True
    # forward: per path (taken?, looked?)
    start = {}
    state = {0: frozenset([(False, False)])}; work = [0]
    def go(bi, st):
        o = state.get(bi, frozenset()); n = o | st
        if n != o: state[bi] = n; work.append(bi)
    ev = set()
    while work:
        bi = work.pop(); b = B[bi]
        if b["c"]: continue
        st = state[bi]; t = b["t"]
        if t[0] == "call":
            r = t[1].get("r") or t[1].get("p") or ""
            hits = [src(o) for o in t[2] if src(o) in into]
            if hits and L.T[f["locals"][hits[0]]].get("m", True):
                nt = set()
                for tk, lk in st:
                    if LOOK.search(r): lk = True
                    if PUT.search(r):
                        if re.search(r"::insert$", r) and "Map" in r and not lk and not tk: ev.add((t[5], "shared data is overwritten without having been looked at under the same guard"))
                        tk = False; lk = True
                    elif TAKE.search(r): tk = t[5]; lk = True
                    nt.add((tk, lk))
                st = frozenset(nt)
            elif hits and LOOK.search(r): st = frozenset((tk, True) for tk, lk in st)
            moved = [src(o) for o in t[2] if o[0] == "mv" and src(o) in gl]
            if moved and not L.guards(t[7]):
                for tk, lk in st:
                    if tk: ev.add((tk, "the lock is released while what was taken out of the shared data has not been put back"))
                st = frozenset([(False, False)])
            if ACQ.search(r): st = frozenset([(False, False)])
            if t[4] is not None: go(t[4], st)
        elif t[0] == "drop":
            if t[1][0] in gl and not t[1][1]:
                for tk, lk in st:
                    if tk: ev.add((tk, "the lock is released while what was taken out of the shared data has not been put back"))
                st = frozenset([(False, False)])
            go(t[2], st)
        elif t[0] == "switch":
            for _, x in t[2]: go(x, st)
            if t[3] is not None: go(t[3], st)
        elif t[0] == "goto": go(t[1], st)
        elif t[0] == "assert": go(t[4], st)
    return sorted(ev)


def run(ctx):
    m = ctx.mir(); L = Locks(m); T = m.types
    graph = {}; und = []
    nheld = [0]
    def one(fi, f):
        bad = []
        def rep(bi, t, live, may, why):
            nheld[0] += 1
            for h in live:
                if L.opaque(h): continue
                if h in may: bad.append("%s is acquired again (through %s, %s) while it is held" % (h, why[h], t[5]))
                r = t[1].get("r") or t[1].get("p") or ""
                if PAR.search(r) and h in L.pool: bad.append("a parallel operation (%s) is awaited while %s is held, which tasks of the pool take (%s)" % (t[5], h, L.pool[h]))
        e, _ = L.flow(fi, rep)
        for a, b, sp, w in e:
            if a != b and not L.opaque(a) and not L.opaque(b): graph.setdefault(a, {}).setdefault(b, "%s %s" % (f["p"], sp))
        for sp, w in poison(L, fi, f): bad.append("%s (%s)" % (w, sp))
        for sp, w in typestate(L, fi): bad.append("%s (%s)" % (w, sp))
        return "; ".join(sorted(set(bad))[:4]) if bad else None
    for fi, f in sorted(L.fns.items()):
        ctx.count("bodies")
        if L.acq[fi]: ctx.count("acquiring_bodies")
        ctx.ob("%s %s" % (rel(f["span"]), f["p"]), "no lock is acquired while it is held, and taken data is put back", one, fi, f)
    ctx.count("calls_under_a_lock", nheld[0])
    if not any(L.acq.values()): raise core.Missing("no lock acquisition found")
    # initialisers hold their own lazy value: add init edges through names
    def cyc():
        g = {}
        for a, d in graph.items():
            for b, w in d.items(): g.setdefault(norm(a), {}).setdefault(norm(b), w)
        color = {}; st = []
        def dfs(x):
            color[x] = 1; st.append(x)
            for y, w in g.get(x, {}).items():
                if color.get(y) == 1:
                    c = st[st.index(y):] + [y]
                    return " -> ".join(c) + " (" + w + ")"
                if y not in color:
                    r = dfs(y)
                    if r: return r
            st.pop(); color[x] = 2
        for x in sorted(g):
            if x not in color:
                r = dfs(x)
                if r: return "locks are acquired in a cycle: " + r
    ctx.ob("lock order", "the acquisition order is acyclic", cyc)
    ctx.count("lock_order_edges", sum(len(d) for d in graph.values()))
    shared(ctx, L)
    cache(ctx)


def norm(l):
    l = re.sub(r"^(lazy|static) ", "", l)
    g = re.match(r"<(.*) as core::ops::deref::Deref>::deref::__stability::LAZY$", l)
    return g.group(1) if g else l


def shared(ctx, L):
    m = L.m; T = m.types
    def body(fi, f):
        bad = []
        D = L.defs(f)
        for b in f["blocks"]:
            for x in b["s"]:
                if x[0] != "=": continue
                rv = x[2]
                if rv[0] == "cast" and rv[1] == "Transmute" and T[rv[3]]["k"] == "ref" and T[rv[3]].get("m"): bad.append("a mutable reference is transmuted (%s)" % x[3])
                for o in (rv[1:] if isinstance(rv, (list, tuple)) else []):
                    if isinstance(o, list) and o and o[0] == "k" and isinstance(o[2], dict) and "static" in o[2] and T[o[1]]["k"] == "ptr" and T[o[1]].get("m"): bad.append("a static mut is used (%s)" % x[3])
            t = b["t"]
            if t[0] == "call":
                r = t[1].get("r") or t[1].get("p") or ""
                if re.search(r"UnsafeCell.*::(get|raw_get)$|::from_raw_parts_mut$|SyncUnsafeCell", r):
                    if r.endswith("from_raw_parts_mut") and mutsrc(L, f, t): continue
                    bad.append("%s makes shared memory writable (%s)" % (r.split("::")[-1], t[5]))
        bad += constmut(L, f) + atomics(L, f)
        return "; ".join(bad[:4]) if bad else None
    n = 0
    for fi, f in sorted(L.fns.items()):
        ctx.ob("%s %s (memory)" % (rel(f["span"]), f["p"]), "shared memory is written only through exclusive references or locks", body, fi, f)
    # hand-written Sync / Send
    def claim(name, path, lt):
        bad = []; seen = set()
        def walk(t, trail):
            if t in seen: return
            seen.add(t); x = T[t]
            if x["k"] == "ptr": bad.append("%s is a raw pointer" % trail)
            elif x["k"] == "adt":
                p = x["p"]
                if re.search(r"(^|::)(UnsafeCell|Cell|RefCell|OnceCell|Rc|Weak|NonNull)$", p) and not p.startswith("alloc::sync"): bad.append("%s is a %s" % (trail, p.split("::")[-1])); return
                if p.split("::")[0] in ("alloc", "core", "std", "hashbrown"):
                    if re.search(r"Mutex|RwLock|Atomic|Once", p): return
                    for a in x.get("a", []):
                        if isinstance(a, int): walk(a, trail)
                    return
                for ad in adts(m, x):
                    for fn_, ft in ad: walk(ft, trail + "." + fn_)
            else:
                for key in ("e", "a"):
                    v = x.get(key)
                    for a in (v if isinstance(v, list) else [v]):
                        if isinstance(a, int) and not isinstance(a, bool): walk(a, trail)
        walk(lt, path.split("::")[-1])
        return "; ".join(sorted(set(bad))[:3]) if bad else None
    import os
    for root, _, files in os.walk(core.REPO):
        if "/target" in root or "/.git" in root or "/zkvm" in root: continue
        for fn in files:
            if not fn.endswith(".rs"): continue
            try: s = open(os.path.join(root, fn)).read()
            except Exception: continue
            for g in re.finditer(r"unsafe\s+impl\s*(?:<[^{;]*?>)?\s*(Sync|Send)\s+for\s+(\w+)", s):
                nm = g.group(2)
                ts = [i for i, x in enumerate(T) if x["k"] == "adt" and x["p"].split("::")[-1] == nm and x["p"].split("::")[0] in CRATES]
                for t in ts[:2]:
                    ctx.ob("%s unsafe impl %s for %s" % (os.path.relpath(os.path.join(root, fn), core.REPO), g.group(1), nm), "the type holds nothing that is unsafe to share", claim, g.group(1), T[t]["p"], t)
                    ctx.count("thread_safety_claims")
            code = re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S)
            for g in re.finditer(r"\bstatic\s+mut\s+(\w+)", code):
                ctx.violation("%s static mut %s" % (os.path.relpath(os.path.join(root, fn), core.REPO), g.group(1)), "a static mut can be written by several threads at once")


def constmut(L, f):
    """writes through a pointer for writing that was made from one for reading"""
    T = L.T; bad = []; mark = {}
    def isconst(o):
        if o[0] == "k" or o[1][1]: return False
        x = T[f["locals"][o[1][0]]]
        return x["k"] in ("ptr", "ref") and not x.get("m")
    ch = True
    while ch:
        ch = False
        for b in f["blocks"]:
            for x in b["s"]:
                if x[0] != "=" or x[1][1] or x[1][0] in mark: continue
                rv = x[2]; t = T[f["locals"][x[1][0]]]
                if t["k"] != "ptr" or not t.get("m"): continue
                o = rv[1] if rv[0] == "use" else rv[2] if rv[0] == "cast" else None
                if o and o[0] != "k" and ((rv[0] == "cast" and isconst(o)) or (not o[1][1] and o[1][0] in mark)): mark[x[1][0]] = x[3]; ch = True
            t = b["t"]
            if t[0] == "call" and not t[3][1] and t[3][0] not in mark and t[2] and T[t[7]]["k"] == "ptr" and T[t[7]].get("m"):
                r = t[1].get("r") or t[1].get("p") or ""; o = t[2][0]
                if o[0] != "k" and not o[1][1] and (re.search(r"::cast_mut$", r) and isconst(o) or re.search(r"ptr.*::(cast|add|sub|offset|wrapping_add|byte_add)$", r) and o[1][0] in mark): mark[t[3][0]] = t[5]; ch = True
    if not mark: return bad
    for b in f["blocks"]:
        if b["c"]: continue
        for x in b["s"]:
            if x[0] != "=": continue
            if x[1][0] in mark and x[1][1][:1] == ["*"]: bad.append("memory is written through a pointer made for reading (%s)" % x[3])
            rv = x[2]
            if rv[0] in ("ref", "addr", "rawref") and rv[1] is True and rv[2][0] in mark and "*" in rv[2][1]: bad.append("a mutable reference is made from a pointer for reading (%s)" % x[3])
            if rv[0] == "agg" and any(o[0] != "k" and not o[1][1] and o[1][0] in mark for o in rv[2]): bad.append("a pointer for writing made from one for reading is stored (%s)" % x[3])
        t = b["t"]
        if t[0] == "call" and any(o[0] != "k" and not o[1][1] and o[1][0] in mark for o in t[2]):
            r = t[1].get("r") or t[1].get("p") or ""
            if re.search(r"::(write|write_volatile|write_unaligned|write_bytes|copy|copy_nonoverlapping|copy_from|copy_from_nonoverlapping|replace|swap|as_mut|from_raw_parts_mut|drop_in_place)$", r) or L.by.get(r) is not None: bad.append("a pointer for writing made from one for reading is used by %s (%s)" % (r.split("::")[-1], t[5]))
    return bad


def adts(m, x):
    """[(field name, type)] per variant"""
    for v in x.get("v", []) or []:
        yield [(str(fl[0]), fl[1]) if isinstance(fl, (list, tuple)) else (str(i), fl) for i, fl in enumerate(v.get("f", v) if isinstance(v, dict) else (v[1] if isinstance(v, (list, tuple)) and len(v) > 1 else []))]


def mutsrc(L, f, t):
    """from_raw_parts_mut of a pointer obtained from an exclusive reference"""
    o = t[2][0]; D = L.defs(f); n = 0
    while o[0] in ("mv", "cp") and n < 10:
        n += 1; l = o[1][0]
        x = L.T[f["locals"][l]]
        ds = D.get(l, [])
        if not ds: return x["k"] in ("ref", "ptr") and bool(x.get("m"))
        d = ds[0]
        if d[0] == "use": o = d[1]
        elif d[0] == "cast": o = d[2]
        elif d[0] in ("ref", "addr", "rawref"): return bool(d[1])
        elif d[0] == "call":
            r = d[1][1].get("r") or ""
            if re.search(r"as_mut_ptr$|cast$|add$|offset$", r): o = d[1][2][0]
            else: return False
        else: return bool(x.get("m"))
        if L.T[f["locals"][l]]["k"] == "ref" and L.T[f["locals"][l]].get("m"): return True
    return False


def atomics(L, f):
    """load then dependent store of the same atomic in one body"""
    loads = {}; bad = []
    D = L.defs(f)
    for b in f["blocks"]:
        t = b["t"]
        if b["c"] or t[0] != "call": continue
        r = t[1].get("r") or t[1].get("p") or ""
        if re.search(r"sync::atomic::Atomic\w*(::<.*>)?::load$", r): loads.setdefault(L.operand(f, t[2][0]), []).append(t[3][0])
    if not loads: return bad
    for b in f["blocks"]:
        t = b["t"]
        if b["c"] or t[0] != "call": continue
        r = t[1].get("r") or t[1].get("p") or ""
        if re.search(r"sync::atomic::Atomic\w*(::<.*>)?::store$", r):
            k = L.operand(f, t[2][0])
            if k is None or k not in loads: continue
            dep = set(); work = [t[2][1]]
            while work:
                o = work.pop()
                if o[0] == "k": continue
                l = o[1][0]
                if l in dep: continue
                dep.add(l)
                for d in D.get(l, []):
                    if d[0] == "use": work.append(d[1])
                    elif d[0] == "bin": work += [d[2], d[3]]
                    elif d[0] == "cast": work.append(d[2])
                    elif d[0] == "agg": work += d[2]
                    elif d[0] == "call": work += d[1][2]
            if dep & set(loads[k]): bad.append("%s is loaded, changed and stored in separate steps (%s)" % (k, t[5]))
    return bad


def cache(ctx):
    """bit reversal through the shared cache after every short history of calls"""
    import models as M, dom
    from aeval import Ref
    def rev(x, d): return int(bin(x)[2:].zfill(d)[::-1], 2) if d else 0
    D = 4 if ctx.tier == "quick" else 6
    def hist(seq):
        I = ctx.interp(names="BR", mode="wrap") if False else ctx.interp()
        for x, d in seq:
            r = I.invoke("starky::fft_p::BR", [dom.const(x, 64) if hasattr(dom, "const") else x, d], [])
            v = M.conc(I, r)
            if v != rev(x, d): return "BR(%d, %d) = %s after %s" % (x, d, v, seq)
    import itertools
    hs = []
    for d in range(1, D + 1):
        n = 1 << d
        xs = sorted({0, 1, n // 2, n - 1, n - 2} & set(range(n)))
        for a in xs:
            for b in xs: hs.append([(a, d), (b, d)])
        for a in xs: hs.append([(a, d), (0, 1), (n - 1, d)])
    for h in hs: ctx.ob("starky/src/fft_p.rs BR %s" % (h,), "the cached reversal is the reversal after this history", hist, h); ctx.count("histories")
