"""Abstract documents: what a serialiser writes and a deserialiser reads (engine/vroots/sd.rs), as trees of
None, bool, int/BV, Str, list and Obj.  Strings may be abstract (the decimal of a symbolic value)."""
from dom import *
from aeval import *
import models as M, aeval
class Str:
    def __init__(self, s): self.s = s
    def __repr__(self): return "Str(%r)" % (self.s,)
    def __eq__(self, o): return isinstance(o, Str) and o.s == self.s
class Sgn(int): pass
class Obj:
    def __init__(self, kv=()): self.kv = list(kv)
    def get(self, k):
        for a, b in self.kv:
            if a == k: return b
        return None
    def keys(self): return [k for k, _ in self.kv]
    def __repr__(self): return "{%s}" % ", ".join("%s: %r" % x for x in self.kv)
    def __eq__(self, o): return isinstance(o, Obj) and o.kv == self.kv
P = "vroots::sd::"
class Tape:
    def __init__(self, I):
        self.I = I
        self.stack = []; self.done = []; self.key = None
        self.cur = None; self.rd = []
        H = I.hooks
        leaf = lambda f: (lambda J, a, c: (self.put(f(a[0]) if a else None), unit())[1])
        H[P + "tape_str"] = leaf(lambda v: Str(M.sval(v))); H[P + "tape_char"] = leaf(lambda v: Str(chr(v)))
        H[P + "tape_u"] = leaf(lambda v: I.resolve(v)); H[P + "tape_bool"] = leaf(lambda v: I.resolve(v))
        H[P + "tape_i"] = leaf(lambda v: I.resolve(v)); H[P + "tape_float"] = leaf(lambda v: v); H[P + "tape_null"] = leaf(None)
        H[P + "tape_bytes"] = leaf(lambda v: [I.resolve(x) for x in M.items(v)])
        def begin(J, a, c):
            self.guard(); n = [] if I.resolve(a[0]) == 0 else Obj(); self.stack.append((n, self.key)); self.key = None; return unit()
        def key(J, a, c):
            self.guard(); self.key = M.cstr(a[0]); return unit()
        def end(J, a, c):
            self.guard(); n, k = self.stack.pop(); self.key = k; self.put(n); return unit()
        H[P + "tape_begin"] = begin; H[P + "tape_key"] = key; H[P + "tape_end"] = end
        H[P + "read_kind"] = lambda J, a, c: self.kind()
        for n in ("bool", "u", "i", "float"): H[P + "read_" + n] = lambda J, a, c: (self.guard(), self.cur)[1]
        H[P + "read_str"] = lambda J, a, c: (self.guard(), StrObj(self.cur.s))[1]
        def enter(J, a, c):
            self.guard(); n = self.cur
            self.rd.append([n.kv if isinstance(n, Obj) else [(None, x) for x in n], 0, None]); return unit()
        def more(J, a, c): self.guard(); f = self.rd[-1]; return f[1] < len(f[0])
        def rkey(J, a, c):
            self.guard(); f = self.rd[-1]; k, v = f[0][f[1]]; f[1] += 1; f[2] = v; self.cur = Str(k); return unit()
        def rval(J, a, c):
            self.guard(); f = self.rd[-1]
            if f[0] and f[0][0][0] is not None: self.cur = f[2]
            else: self.cur = f[0][f[1]][1]; f[1] += 1
            return unit()
        def leave(J, a, c): self.guard(); f = self.rd.pop(); return f[1] >= len(f[0])
        H[P + "read_enter"] = enter; H[P + "read_more"] = more; H[P + "read_key"] = rkey; H[P + "read_value"] = rval; H[P + "read_leave"] = leave
    def guard(self):
        if aeval.J: raise Undecided("a document is read or written under an undecided condition")
    def put(self, v):
        self.guard()
        if not self.stack: self.done.append(v)
        elif isinstance(self.stack[-1][0], Obj): self.stack[-1][0].kv.append((self.key, v)); self.key = None
        else: self.stack[-1][0].append(v)
    def kind(self):
        self.guard(); n = self.cur
        if n is None: return 0
        if isinstance(n, bool): return 1
        if isinstance(n, int): return 3 if n < 0 else 2
        if isinstance(n, (BV, Term)): return 2
        if isinstance(n, float): return 4
        if isinstance(n, Str): return 5
        if isinstance(n, Obj): return 7
        return 6
    def write(self, fn, x):
        """The document the serialisation root fn writes for x; None when it reports an error."""
        self.stack = []; self.done = []; self.key = None
        r = self.I.unphi(self.I.invoke(P + fn, [Ref([x], 0)]))
        if r.v: return None
        if len(self.done) != 1: raise Undecided("%d documents written" % len(self.done))
        return self.done[0]
    def read(self, fn, doc):
        """The value the deserialisation root fn reads from doc; None when it reports an error."""
        self.cur = doc; self.rd = []
        r = self.I.unphi(self.I.invoke(P + fn, []))
        return None if r.v else r.f[0]
def dec(v): return Str(SymStr([T("display", v)]) if not isinstance(v, int) else str(v))

# ------------------------------------------------------------------ serde_json
import json
class Doc:
    """An abstract document inside a text."""
    def __init__(self, d): self.d = d
    def __repr__(self): return "Doc(%r)" % (self.d,)
def concrete(d):
    if d is None or isinstance(d, (bool, int, float)): return True
    if isinstance(d, Str): return isinstance(d.s, str)
    if isinstance(d, Obj): return all(concrete(v) for _, v in d.kv)
    if isinstance(d, list): return all(concrete(v) for v in d)
    return False
def to_text(d, pretty=False):
    if not concrete(d): return SymStr([T("json", Doc(d))])
    def py(d):
        if isinstance(d, Str): return json.dumps(d.s, ensure_ascii=False)
        if isinstance(d, Obj): return "{" + ",".join(json.dumps(k, ensure_ascii=False) + ":" + py(v) for k, v in d.kv) + "}"
        if isinstance(d, list): return "[" + ",".join(py(v) for v in d) + "]"
        return json.dumps(d)
    return py(d)
class BadJson(Exception): pass
def from_text(s):
    if isinstance(s, SymStr):
        if len(s.pieces) == 1 and isinstance(s.pieces[0], Term) and s.pieces[0].op == "json": return s.pieces[0].args[0].d
        raise Undecided("document in an abstract text")
    def conv(x):
        if isinstance(x, str): return Str(x)
        if isinstance(x, list) and not (isinstance(x, Pairs)): return [conv(y) for y in x]
        if isinstance(x, Pairs): return Obj([(k, conv(v)) for k, v in x])
        return x
    class Pairs(list): pass
    try: return conv(json.loads(s, object_pairs_hook=Pairs))
    except ValueError: raise BadJson()
VAL = {"Null": 0, "Bool": 1, "Number": 2, "String": 3, "Array": 4, "Object": 5}
def to_value(I, d):
    tid = I.mir.tid("serde_json::value::Value")
    def A(v, *f): return Agg(tid, v, list(f))
    if d is None: return A(0)
    if isinstance(d, bool): return A(1, d)
    if isinstance(d, (int, float, BV, Term)): return A(2, Agg(None, 0, [d]))
    if isinstance(d, Str): return A(3, StrObj(d.s))
    if isinstance(d, list): return A(4, Vec([to_value(I, x) for x in d]))
    m = MapObj("btree")
    for k, v in d.kv: m.d[k] = [StrObj(k), to_value(I, v)]
    return A(5, Agg(None, 0, [m]))
def from_value(I, v):
    v = I.unphi(M.deref(v))
    if v.v == 0: return None
    x = M.deref(v.f[0])
    if v.v == 1: return I.resolve(x)
    if v.v == 2: return x.f[0]
    if v.v == 3: return Str(M.sval(x))
    if v.v == 4: return [from_value(I, y) for y in M.items(x)]
    m = x
    while isinstance(m, Agg): m = M.deref(m.f[0])
    return Obj([(M.cstr(m.d[k][0]), from_value(I, m.d[k][1])) for k in M.map_sorted(m)])
def install(I):
    t = Tape(I); I.tape = t
    I.hooks["serde::de::size_hint::cautious"] = lambda J, a, c: 0  # a capacity only
    def de(tid, doc):
        s = I.types[tid]["s"]
        if s == "serde_json::value::Value" or s == "serde_json::Value": return M.ok(to_value(I, doc))
        ids = I.mir.find(P + "de", [s])
        if not ids: raise Undecided("no reading root for %s" % s)
        sv = (t.cur, t.rd); t.cur = doc; t.rd = []
        try: return I.run(ids[0], [])
        finally: t.cur, t.rd = sv
    def ser(tid, v):
        while I.types[tid]["k"] == "ref": tid = I.types[tid]["e"]; v = v.get() if type(v) is Ref and type(v.get()) is Ref else v
        s = I.types[tid]["s"]
        if "serde_json" in s and s.endswith("::Value"): return M.ok(unit()), from_value(I, v)
        ids = I.mir.find(P + "ser", [s])
        if not ids and I.types[tid]["k"] == "slice":
            ids = I.mir.find(P + "ser", ["alloc::vec::Vec<%s>" % I.types[I.types[tid]["e"]]["s"]]); v = Ref([M.Vec(list(M.items(v)))], 0)
        if not ids: raise Undecided("no writing root for %s" % s)
        sv = (t.stack, t.done, t.key); t.stack, t.done, t.key = [], [], None
        try:
            r = I.unphi(I.run(ids[0], [v]))
            return r, (t.done[0] if t.done else None)
        finally: t.stack, t.done, t.key = sv
    I.json_de, I.json_ser = de, ser
    def tys(c): return [x for x in c["a"] if isinstance(x, int)]
    mm = I.extra_models = getattr(I, "extra_models", {})
    def m(*names):
        def d(f):
            for n in names: I.hooks[n] = f
            return f
        return d
    @m("serde_json::value::from_value", "serde_json::from_value")
    def f1(J, a, c): return de(tys(c)[-1], from_value(I, a[0]))
    @m("serde_json::de::from_str", "serde_json::from_str")
    def f2(J, a, c):
        try: d = from_text(M.sval(a[0]))
        except BadJson: return M.err()
        return de(tys(c)[-1], d)
    @m("serde_json::ser::to_string", "serde_json::ser::to_string_pretty", "serde_json::to_string", "serde_json::to_string_pretty")
    def f3(J, a, c):
        r, d = ser(tys(c)[0], a[0])
        return M.err() if r.v else M.ok(StrObj(to_text(d)))
    @m("<serde_json::value::Value as serde::de::Deserialize<'de>>::deserialize", "serde_json::value::de::<impl serde::de::Deserialize<'de> for serde_json::value::Value>::deserialize")
    def f5(J, a, c): t.guard(); return M.ok(to_value(I, t.cur))
    @m("<serde_json::value::Value as serde::ser::Serialize>::serialize", "serde_json::value::ser::<impl serde::ser::Serialize for serde_json::value::Value>::serialize")
    def f6(J, a, c): t.put(from_value(I, a[0])); return M.ok(unit())
    @m("serde_json::ser::to_writer", "serde_json::ser::to_writer_pretty")
    def f7(J, a, c):
        import iomodels
        r, d = ser(tys(c)[-1], a[1])
        if r.v: return M.err()
        x = to_text(d); iomodels.writer(J, a[0], list(x.encode()) if isinstance(x, str) else [x]); return M.ok(unit())
    @m("serde_json::de::from_reader", "serde_json::de::from_slice")
    def f8(J, a, c):
        import iomodels
        if c["p"].endswith("slice"): l = iomodels.content(J, a[0])
        else: l, adv = iomodels.reader(J, a[0])
        try: d = from_text(iomodels.text_of(l))
        except (BadJson, UnicodeDecodeError): return M.err()
        if not c["p"].endswith("slice"): adv(len(l))
        return de(tys(c)[-1], d)
    @m("serde_json::value::to_value", "serde_json::to_value")
    def f4(J, a, c):
        r, d = ser(tys(c)[0], a[0])
        return M.err() if r.v else M.ok(to_value(I, d))
    return t
