"""Where failure values go: a forward dataflow over MIR bodies that assumes one fallible call failed and follows the failure.

State: facts place -> abstract value:
  ('V', n, c)  an enum value known to be of variant n; c: it carries the failure (a Result::Err always does)
  ('B', b, c)  a boolean known to be b
  ('N', n)     a discriminant known to be n
  ('R', k)     a reference to the place k
  ('P',)       (part of) the error value itself
Everything else is unknown, and both edges of an unknown branch are followed.  The failure is accounted for when the path stops
(panic, exit), when it is handed on (stored outside the function's own locals, passed to code that is not known to drop it) or
when the function returns a failing value.  A path on which the function returns anything else has lost it.
"""
import re
RES = "core::result::Result"; OPT = "core::option::Option"; CF = "core::ops::control_flow::ControlFlow"
FMT = re.compile(r"^(core::fmt::|alloc::fmt::|log::|std::io::stdio::|std::io::_?e?print|core::any::type_name|tracing|<.* as core::fmt::(Display|Debug)>)|fmt::Arguments")
# Err is an answer here, not a failure
ANSWERS = re.compile(r"::binary_search\w*$|::compare_exchange\w*$|^std::env::var$|::try_unwrap$|::try_init$|::select_nth|OnceCell.*::set$|::is_sorted")
SAME = re.compile(r"::(clone|to_string|to_owned|into|from|new|to_err|borrow|as_ref|deref|context|msg|to_string_lossy|source|unwrap_or_clone)$")
KEEP = {"map", "map_err", "and_then", "inspect", "inspect_err", "as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "context", "with_context", "and", "transpose", "flatten", "filter", "zip"}


def kcat(k, *x): return (k[0], k[1] + x)


class Lost(Exception): pass


class Flow:
    CAP = 64

    def __init__(s, mir):
        s.m = mir; s.T = mir.types; s.fns = mir.fns
        s.poly = {i: f for i, f in enumerate(s.fns) if f and f.get("poly") and f.get("blocks")}
        s.bypath = {}
        for i, f in s.poly.items(): s.bypath.setdefault(f["p"], i)
        s.memo = {}

    # ---- types
    def adt(s, t):
        T = s.T[t]
        return T["p"] if T["k"] == "adt" else None

    def targ(s, t, i=0):
        a = [x for x in s.T[t].get("a", []) if isinstance(x, int)]
        return a[i] if i < len(a) else None

    def fallible(s, t):
        """Result with an inhabited error"""
        if s.adt(t) != RES: return False
        e = s.targ(t, 1)
        return e is None or not (s.T[e]["k"] == "never" or s.T[e].get("p", "").endswith("convert::Infallible"))

    def fails(s, t):
        """failing variant of an enum type"""
        return {RES: 1, OPT: 0, CF: 1}.get(s.adt(t))

    def seeds_of(s, t, k, deep=True):
        """assumptions 'this value of type t at place k is (or holds) a failure': fact dictionaries"""
        T = s.T[t]
        if s.fallible(t):
            out = [{k: ("V", 1, True)}]
            a = s.targ(t)
            if a is not None:
                for d in s.seeds_of(a, kcat(k, ("d", 0), ("f", 0))): out.append({k: ("V", 0, False), **d})
            return out
        if s.adt(t) in (OPT, RES):
            i = 1 if s.adt(t) == OPT else 0
            a = s.targ(t)
            return [{k: ("V", i, False), **d} for d in s.seeds_of(a, kcat(k, ("d", i), ("f", 0)))] if a is not None else []
        if T["k"] == "ref": return s.seeds_of(T["e"], kcat(k, "*"))
        if T["k"] == "tuple":
            out = []
            for i, a in enumerate(T["e"]): out += s.seeds_of(a, kcat(k, ("f", i)))
            return out
        if T["k"] in ("array", "slice") and s.fallible(T["e"]): return [{k: ("P",)}]
        if T["k"] == "adt" and T["p"].split("::")[0] in ("alloc", "std", "core") and not T["p"].startswith("core::iter") \
                and re.search(r"::(Vec|VecDeque|BTreeMap|HashMap|Box|LinkedList|JoinHandle|ScopedJoinHandle)$", T["p"]) and any(isinstance(a, int) and s.fallible(a) for a in T["a"]):
            return [{k: ("P",)}]
        return []

    def verdict(s, t, p, k):
        """assumption 'this check said no'"""
        if p.startswith("serde::"): return []
        if s.adt(t) == RES and s.fallible(t) and s.targ(t) is not None and s.T[s.targ(t)]["k"] == "bool":
            return [{k: ("V", 0, False), kcat(k, ("d", 0), ("f", 0)): ("B", False, True)}]
        if s.T[t]["k"] == "bool" and re.search(r"verif|is_on_curve|in_correct_subgroup", p.split("::")[-1]): return [{k: ("B", False, True)}]
        return []

    # ---- places
    def key(s, p, st):
        """normalised place (references resolved), None when through an index"""
        k = (p[0], ())
        for x in p[1]:
            if x == "*":
                v = st.get(k)
                k = v[1] if v and v[0] == "R" else kcat(k, "*")
            elif x[0] == "f": k = kcat(k, ("f", x[1]))
            elif x[0] == "d": k = kcat(k, ("d", x[1]))
            else: return None
        return k

    @staticmethod
    def under(k, j): return k[0] == j[0] and j[1][:len(k[1])] == k[1]

    def get(s, k, st):
        if k is None: return None
        v = st.get(k)
        if v: return v
        # inside the payload of a carrying failure, or of an error value
        for n in range(len(k[1]) - 1, -1, -1):
            u = st.get((k[0], k[1][:n]))
            if u is None: continue
            if u[0] == "P": return ("P",)
            if u[0] == "V" and u[2] and k[1][n] == ("d", u[1]) and len(k[1]) > n + 1: return ("P",)
            if u[0] == "R":
                r = (u[1][0], u[1][1] + k[1][n + 1:]) if k[1][n] == "*" else None
                return s.get(r, st) if r else None
        return None

    def kill(s, k, st):
        for j in [j for j in st if s.under(k, j)]: del st[j]
        # a value whose part is overwritten keeps its variant
        for j in [j for j, v in st.items() if v[0] == "R" and s.under(k, v[1]) and k[1] == ()]: del st[j]

    def put(s, k, v, st):
        if v is not None: st[k] = v

    def carries(s, v): return v is not None and (v[0] == "P" or (v[0] in "VB" and v[2]))

    def anyunder(s, k, st):
        return s.carries(s.get(k, st)) or any(s.under(k, j) and s.carries(v) for j, v in st.items())

    # ---- operands
    def opval(s, o, st):
        if o[0] in ("mv", "cp"): return s.get(s.key(o[1], st), st)
        v = o[2] if len(o) > 2 else None
        t = o[1]
        if t is None: return None
        if s.T[t]["k"] == "bool" and v in (0, 1, "0", "1", True, False): return ("B", bool(int(v)), False)
        if isinstance(v, dict) and v.get("var") is not None and s.adt(t) in (RES, OPT, CF): return ("V", v["var"], s.adt(t) == RES and v["var"] == 1)
        if isinstance(v, dict) and "ref" in v and isinstance(v["ref"], (int, bool)): pass
        return None

    def assign(s, k, o, st):
        """k = operand"""
        if o[0] in ("mv", "cp"):
            src = s.key(o[1], st)
            if src is None: s.kill(k, st); return
            v = s.get(src, st)
            sub = {(k[0], k[1] + j[1][len(src[1]):]): w for j, w in st.items() if s.under(src, j) and j != src}
            if o[0] == "mv": 
                for j in [j for j in st if s.under(src, j)]: del st[j]
            s.kill(k, st)
            if v is not None: st[k] = v
            st.update(sub)
        else:
            v = s.opval(o, st); s.kill(k, st); s.put(k, v, st)

    def stmt(s, x, st):
        """True when the failure is handed on"""
        if x[0] == "dead":
            return False
        if x[0] == "sd":
            k = s.key(x[1], st)
            if k: st[k] = ("V", x[2], False)
            return False
        if x[0] != "=": return False
        k = s.key(x[1], st); r = x[2]
        if k is None or "*" in k[1]:
            # a store through a pointer or an index: handed on when it carries the failure
            ops = [r[1]] if r[0] == "use" else r[2] if r[0] == "agg" else []
            return any(o[0] in ("mv", "cp") and (lambda q: q is not None and s.anyunder(q, st))(s.key(o[1], st)) for o in ops)
        if r[0] == "use": s.assign(k, r[1], st); return False
        if r[0] == "ref":
            q = s.key(r[2], st); s.kill(k, st)
            if q is not None and "*" not in q[1]: st[k] = ("R", q)
            elif q is not None:
                v = s.get(q, st)
                if v: st[kcat(k, "*")] = v
            return False
        if r[0] == "discr":
            v = s.get(s.key(r[1], st), st); s.kill(k, st)
            if v and v[0] == "V": st[k] = ("N", v[1])
            return False
        if r[0] == "agg":
            kind = r[1]
            vals = []
            for o in r[2]:
                if o[0] in ("mv", "cp"):
                    q = s.key(o[1], st)
                    vals.append((s.get(q, st), {j[1][len(q[1]):]: w for j, w in st.items() if q and s.under(q, j) and j != q} if q else {}, q))
                else: vals.append((s.opval(o, st), {}, None))
            s.kill(k, st)
            if isinstance(kind, list) and kind[0] == "adt":
                base = kcat(k, ("d", kind[2])) if kind[1] in (RES, OPT, CF) or s.T[r[3]].get("enum") else k
                if s.T[r[3]].get("enum"): st[k] = ("V", kind[2], kind[1] == RES and kind[2] == 1)
            elif kind == "tup": base = k
            elif kind == "arr":
                return any(s.carries(v) or any(map(s.carries, d.values())) for v, d, _ in vals)
            elif isinstance(kind, list) and kind[0] == "clo":
                # captured by a closure: handed on
                return any(s.carries(v) or any(map(s.carries, d.values())) or (v and v[0] == "R" and s.anyunder(v[1], st)) for v, d, _ in vals)
            else: base = k
            for i, (v, d, _) in enumerate(vals):
                f = kcat(base, ("f", i))
                if v: st[f] = v
                for j, w in d.items(): st[(f[0], f[1] + j)] = w
            return False
        if r[0] == "bin":
            a, b = s.opval(r[2], st), s.opval(r[3], st); s.kill(k, st)
            A = a[1] if a and a[0] in "BN" else None; B = b[1] if b and b[0] in "BN" else None
            c = any(v and v[0] == "B" and v[2] for v in (a, b))
            def cst(o):
                return o[2] if o[0] == "k" and isinstance(o[2], int) and not isinstance(o[2], bool) else None
            if A is None: A = cst(r[2])
            if B is None: B = cst(r[3])
            op = r[1]; v = None
            if op == "BitAnd" and (A is False or B is False): v = False
            elif op == "BitOr" and (A is True or B is True): v = True
            elif A is not None and B is not None:
                if op == "Eq": v = int(A) == int(B)
                elif op == "Ne": v = int(A) != int(B)
                elif op == "BitXor": v = bool(A) != bool(B)
                elif op == "BitAnd": v = bool(A) and bool(B)
                elif op == "BitOr": v = bool(A) or bool(B)
            if v is not None: st[k] = ("B", bool(v), c)
            return False
        if r[0] == "un":
            a = s.opval(r[2], st); s.kill(k, st)
            if r[1] == "Not" and a and a[0] == "B": st[k] = ("B", not a[1], a[2])
            return False
        if r[0] == "cast":
            v = s.opval(r[2], st); s.kill(k, st)
            if v and v[0] in ("N", "P", "R"): st[k] = v
            elif v and v[0] == "B": st[k] = v
            return False
        s.kill(k, st)
        return False

    # ---- calls
    def closure(s, t):
        T = s.T[t]
        if T["k"] == "closure": return s.bypath.get(T.get("p"))
        if T["k"] == "fndef": return T.get("p")
        return None

    def closure_loses(s, arg, at):
        """whether the closure given as fallback can return a value that is no failure (None: unknown)"""
        c = s.closure(at)
        if isinstance(c, int):
            f = s.poly[c]
            n = f["argc"]
            st = {}
            if n >= 2: st[(2, ())] = ("P",)
            return bool(s.explore(c, 0, 0, st, into=True)[0])
        return True

    def payload(s, k, n):
        return kcat(k, ("d", n), ("f", 0))

    def below(s, k, st):
        """facts strictly inside the place k, relative"""
        return {j[1][len(k[1]):]: w for j, w in st.items() if k is not None and s.under(k, j) and j != k}

    def call(s, f, t, st):
        """('go', target) | ('stop',) | ('handled',)"""
        _, c, args, dest, target, sp, at, dt, _uw = t
        p = c.get("p") or ""
        dk = s.key(dest, st)
        vals = [s.opval(a, st) if a[0] == "k" else s.get(s.key(a[1], st), st) for a in args]
        keys = [s.key(a[1], st) if a[0] != "k" else None for a in args]
        def tgt(i):
            v = vals[i]
            return (s.get(v[1], st), v[1]) if v and v[0] == "R" else (v, keys[i])
        if target is None: return ("stop",)
        nm = p.split("::")[-1]
        isres = p.startswith("core::result::Result::"); isopt = p.startswith("core::option::Option::")
        new = None; sub = {}
        v0, k0 = tgt(0) if args else (None, None)
        handled = False
        if p.endswith("ops::try_trait::Try::branch"):
            if v0 and v0[0] == "V":
                a = s.adt(at[0]); n = v0[1]
                new = ("V", {RES: n, OPT: 1 - n, CF: n}.get(a, n), v0[2])
                if a == RES and n == 0: sub = {j: w for j, w in s.below(k0, st).items() if j[:1] == (("d", 0),)}
        elif p.endswith("FromResidual::from_residual"):
            fl = s.fails(dt)
            new = ("V", fl if fl is not None else 1, True) if (v0 and (v0[0] == "P" or (v0[0] == "V" and v0[2]))) else (("V", fl, False) if fl is not None else None)
        elif (isres or isopt or (nm in ("context", "with_context") and "nyhow" in p)) and v0 and v0[0] == "V":
            rs = isres or (not isopt and at and s.adt(at[0]) == RES)
            bad = v0[1] == (1 if rs else 0)
            if nm in ("unwrap", "expect", "unwrap_unchecked"):
                if bad: return ("stop",)
                q = s.payload(k0, 0 if rs else 1) if k0 else None
                if q:
                    new = s.get(q, st); sub = s.below(q, st)
                    if new and new[0] == "P": new = None
            elif nm in ("unwrap_err", "expect_err", "into_err"): new = ("P",) if bad and v0[2] else None
            elif nm in KEEP:
                if nm in ("and", "zip") and not bad and len(vals) > 1 and vals[1]: new = vals[1]
                elif bad: new = ("V", s.fails(dt) if s.fails(dt) is not None else v0[1], v0[2])
                elif nm == "map": new = ("V", v0[1], v0[2])
                elif nm in ("map_err", "context", "with_context", "inspect", "inspect_err", "cloned", "copied"):
                    new = ("V", v0[1], v0[2]); sub = s.below(k0, st) if k0 else {}
                if nm == "map" and isopt and not bad and s.anyunder(kcat(k0, ("d", 1), ("f", 0)) if k0 else (-1, ()), st): handled = True
            elif nm == "ok": new = ("V", 0 if bad else 1, bad and v0[2])
            elif nm == "err": new = ("V", 1 if bad else 0, bad and v0[2])
            elif nm in ("ok_or", "ok_or_else"): new = ("V", 1 if bad else 0, bad)
            elif nm in ("is_ok", "is_some", "is_ok_and", "is_some_and"):
                if bad or not nm.endswith("and"): new = ("B", not bad, v0[2])
            elif nm in ("is_err", "is_none"): new = ("B", bad, v0[2])
            elif nm in ("unwrap_or_else", "or_else", "map_or_else"):
                if bad:
                    i = 1
                    lose = s.closure_loses(args[i], at[i])
                    if not lose:
                        if nm != "or_else" : return ("stop",)
                        new = ("V", s.fails(dt), True)
            # the rest (unwrap_or, unwrap_or_default, map_or, or, iter ..) replaces the failure: explore on with nothing known
        elif FMT.search(p): 
            pass
        elif p.startswith("core::mem::drop") or p.startswith("core::mem::forget") or "ptr::drop_in_place" in p:
            pass
        elif p.endswith("cmp::PartialEq::eq") or p.endswith("cmp::PartialEq::ne"):
            a, b = tgt(0)[0], tgt(1)[0] if len(args) > 1 else None
            if a and b and a[0] == b[0] and a[0] in "BN":
                e = a[1] == b[1]
                new = ("B", e if p.endswith("eq") else not e, True)
            elif any(s.carries(x) for x in (a, b)): handled = True
        else:
            for i, a in enumerate(args):
                v, k = tgt(i)
                if s.carries(v) or (k is not None and s.anyunder(k, st)):
                    if SAME.search(p) and dk is not None:
                        if v and v[0] == "V": new = v
                        else: new = ("P",)
                    else: handled = True
        if handled: return ("handled",)
        for a, k in zip(args, keys):
            if a[0] == "mv" and k is not None:
                for j in [j for j in st if s.under(k, j)]: del st[j]
        if dk is not None:
            s.kill(dk, st)
            if new is not None:
                if "*" in dk[1] and s.carries(new): return ("handled",)
                st[dk] = new
            for j, w in sub.items(): st[(dk[0], dk[1] + j)] = w
        elif s.carries(new): return ("handled",)
        return ("go", target)

    # ---- return
    def accepted(s, f, st, none_ok=True):
        t = f["locals"][0]
        for j, v in st.items():
            if j[0] != 0: continue
            if v[0] == "P": return True
            if v[0] == "V":
                # the type of the part is not kept; carrying values are failures, an Option's None is one where the function returns Option
                if v[2]: return True
                if j == (0, ()) and s.fails(t) == v[1] and (s.adt(t) != OPT or none_ok): return True
            if v[0] == "B" and not v[1]:
                if j == (0, ()) and s.T[t]["k"] == "bool": return True
                if j == (0, (("d", 0), ("f", 0))) and s.adt(t) == RES: return True
            if v[0] == "B" and v[2]: return True
        return False

    def explore(s, fi, bb, si, st, into=False, none_ok=True):
        """paths from statement si of block bb: ([lost return descriptions], merged?)"""
        f = s.fns[fi]; B = f["blocks"]
        seen = {}; work = [(bb, si, dict(st), False)]; lost = []; steps = 0
        while work:
            b, i, st, merged = work.pop()
            steps += 1
            if steps > 20000: return (lost, True)
            if i == 0:
                key = frozenset(st.items())
                ss = seen.setdefault(b, set())
                if key in ss: continue
                if len(ss) >= s.CAP:
                    # join: keep what every state agrees on
                    keep = set(key)
                    for o in ss: keep &= o
                    key = frozenset(keep); st = dict(keep); merged = True
                    if key in ss: continue
                ss.add(key)
            else: st = dict(st)
            blk = B[b]; done = False
            for x in blk["s"][i:]:
                if s.stmt(x, st): done = True; break
            if done: continue
            t = blk["t"]; k = t[0]
            if k == "goto": work.append((t[1], 0, dict(st), merged))
            elif k == "drop": 
                work.append((t[2], 0, dict(st), merged))
            elif k == "assert": work.append((t[4], 0, dict(st), merged))
            elif k == "switch":
                v = s.opval(t[1], st)
                n = int(v[1]) if v and v[0] in "BN" else None
                if n is not None:
                    d = [b2 for val, b2 in t[2] if int(val) == n]
                    work.append((d[0] if d else t[3], 0, dict(st), merged))
                else:
                    q = s.key(t[1][1], st) if t[1][0] != "k" else None
                    isb = s.T[t[4]]["k"] == "bool"
                    for val, b2 in t[2]:
                        st2 = dict(st)
                        if isb and q is not None and t[1][0] == "cp": st2[q] = ("B", bool(int(val)), False)
                        work.append((b2, 0, st2, merged))
                    st2 = dict(st)
                    if isb and q is not None and t[1][0] == "cp": st2[q] = ("B", True, False)
                    work.append((t[3], 0, st2, merged))
            elif k == "call":
                r = s.call(f, t, st)
                if r[0] == "go": work.append((r[1], 0, dict(st), merged))
            elif k == "ret":
                if not s.accepted(f, st, none_ok): lost.append(merged)
        return (lost, bool(lost) and all(lost))

    # ---- what is checked
    def derived(s, p):
        return p.endswith("from_residual") or (p.startswith("core::result::Result::") ) or p.endswith("::clone")

    def seeds(s, fi):
        """(block, statement, place, what, span) of every value that may be a failure"""
        f = s.fns[fi]; out = []
        for l in range(1, f["argc"] + 1):
            for d in s.seeds_of(f["locals"][l], (l, ())): out.append((0, 0, d, "a failure given as argument", f["span"], None))
        for bi, b in enumerate(f["blocks"]):
            if b["c"]: continue
            for si, x in enumerate(b["s"]):
                if x[0] == "=" and x[2][0] == "agg" and isinstance(x[2][1], list) and x[2][1][0] == "adt" and x[2][1][1] == RES and x[2][1][2] == 1 and s.fallible(x[2][3]):
                    k = s.key(x[1], {})
                    if k and "*" not in k[1]: out.append((bi, si + 1, {k: ("V", 1, True)}, "an error it constructs", x[3], None))
            t = b["t"]
            if t[0] == "call" and t[4] is not None:
                p = t[1].get("p") or "an indirect call"
                if s.derived(p) or ANSWERS.search(p): continue
                k = s.key(t[3], {})
                if k is None or "*" in k[1]: continue
                for d in s.seeds_of(t[7], k): out.append((t[4], 0, d, "a failure of " + p, t[5], t))
                for d in s.verdict(t[7], p, k): out.append((t[4], 0, d, "a negative verdict of " + p, t[5], t))
        return out

    # ---- combinators that drop failures wholesale
    def item(s, t, depth=0):
        """item type of an iterator type where it can be read off"""
        if t is None or depth > 12: return None
        T = s.T[t]; p = T.get("p", "")
        if T["k"] == "ref": return s.item(T["e"], depth + 1)
        if T["k"] != "adt": return None
        nm = p.split("::")[-1]; a = [x for x in T["a"] if isinstance(x, int)]
        if nm == "Map" and len(a) > 1:
            c = s.closure(a[1])
            if isinstance(c, int): return s.fns[c]["locals"][0]
            return None
        if nm in ("Filter", "Skip", "Take", "Rev", "StepBy", "Peekable", "Fuse", "Inspect", "TakeWhile", "SkipWhile", "Chain", "Cycle") and a: return s.item(a[0], depth + 1)
        if nm == "Lines" and p.startswith("std::io"): return "lines"
        if nm == "IntoIter" and a and s.fallible(a[0]): return a[0]
        return None

    def drops(s, fi):
        """(what, span) of iterator uses that silently drop failing items"""
        f = s.fns[fi]; out = []
        for b in f["blocks"]:
            t = b["t"]
            if b["c"] or t[0] != "call": continue
            p = t[1].get("p") or ""; nm = p.split("::")[-1]
            # Result's own methods handed on as functions
            for a, ty in zip(t[2], t[6]):
                T = s.T[ty]
                if T["k"] == "fndef" and T["p"].startswith(RES + "::") and T["p"].split("::")[-1] in ("ok", "unwrap_or_default", "into_iter", "iter", "unwrap_or"):
                    e = s.T[ty].get("a") or []
                    out.append(("failures are dropped by %s(Result::%s)" % (nm, T["p"].split("::")[-1]), t[5]))
                if T["k"] == "fndef" and T["p"] in ("core::mem::drop", "core::mem::forget") and any(isinstance(x, int) and s.fallible(x) for x in T.get("a") or []):
                    out.append(("failures are dropped by %s(drop)" % nm, t[5]))
                c = s.closure(ty) if nm in ("filter_map", "flat_map", "find_map", "map_while", "flat_map_iter", "scan") else None
                if isinstance(c, int):
                    if s.fallible(s.fns[c]["locals"][0]): out.append(("failures of the items are dropped by %s" % nm, t[5]))
                    else:
                        for bi, si, d, what, sp, _ in s.seeds(c):
                            if s.explore(c, bi, si, d, none_ok=False)[0] and not s.explore(c, bi, si, d)[0]: out.append(("%s turns into a missing item of %s" % (what, nm), sp))
            if nm in ("flatten", "count", "last") and ("Iterator::" in p or "ParallelIterator::" in p) and t[6]:
                i = s.item(t[6][0])
                if i is not None and (i == "lines" or s.fallible(i)): out.append(("failing items are dropped by %s" % nm, t[5]))
        return out

    # ---- buffered writers
    BUF = re.compile(r"::(BufWriter|LineWriter|GzEncoder|ZlibEncoder|DeflateEncoder)$")

    def buffered(s, fi):
        """(span, message) of buffered writers whose last write may fail unseen: created here and dropped without flush"""
        f = s.fns[fi]; out = []
        for b in f["blocks"]:
            t = b["t"]
            if b["c"] or t[0] != "call" or t[4] is None or t[3][1]: continue
            p = t[1].get("p") or ""
            if s.adt(t[7]) and s.BUF.search(s.adt(t[7])) and p.split("::")[-1] in ("new", "with_capacity"):
                if s.targ(t[7]) is not None and s.T[s.targ(t[7])].get("p", "").startswith("alloc::vec::Vec"): continue
                r = s.flushed(fi, t[3][0], set())
                if r: out.append((t[5], r))
        return out

    def flushed(s, fi, l, seen):
        """None when the writer in local l is flushed, finished or handed to code outside the analysed crates; else why not"""
        if (fi, l) in seen: return None
        seen.add((fi, l))
        f = s.fns[fi]; own = {l}; refs = set()
        why = "dropped without a flush in %s" % f["p"]; ok = False
        for _ in range(4):
            for b in f["blocks"]:
                if b["c"]: continue
                for x in b["s"]:
                    if x[0] != "=": continue
                    r = x[2]
                    if r[0] == "use" and r[1][0] in ("mv", "cp") and not x[1][1]:
                        if r[1][1][0] in own and not r[1][1][1]: own.add(x[1][0])
                        if r[1][1][0] in refs: refs.add(x[1][0])
                    if r[0] == "ref" and (r[2][0] in own or r[2][0] in refs) and not x[1][1]: refs.add(x[1][0])
                    if r[0] == "agg" and any(o[0] == "mv" and o[1][0] in own and not o[1][1] for o in r[2]): return None
        if 0 in own: return None
        for b in f["blocks"]:
            t = b["t"]
            if b["c"] or t[0] != "call": continue
            p = t[1].get("p") or ""; nm = p.split("::")[-1]
            for i, a in enumerate(t[2]):
                if a[0] == "k" or a[1][1]: continue
                if a[1][0] in refs and nm in ("flush", "into_inner", "finish", "try_finish", "sync_all"): ok = True
                if a[1][0] in own and a[0] == "mv":
                    if nm in ("into_inner", "finish", "flush", "into_parts", "clone", "into"): ok = True; continue
                    if p.startswith("serde_json::") or p.startswith("bincode::") or "mem::drop" in p: continue
                    g = s.bypath.get(t[1].get("r") or "") or s.bypath.get(p)
                    if g is None: ok = True; continue
                    r = s.flushed(g, i + 1, seen)
                    if r is None: ok = True
                    else: why = r
                elif a[1][0] in refs and i > 0 and not p.startswith(("core::", "std::", "alloc::", "serde", "byteorder", "bincode")):
                    # lent to a function that may flush it
                    g = s.bypath.get(t[1].get("r") or "") or s.bypath.get(p)
                    if g is not None and s.lent(g, i + 1): ok = True
        return None if ok else why

    def lent(s, fi, l):
        return any(b["t"][0] == "call" and (b["t"][1].get("p") or "").endswith("::flush") for b in s.fns[fi]["blocks"] if not b["c"])
