"""The subset of Solidity the exported verifier is written in: parser and evaluator over symbolic curve points.

Words are integers or tokens; curve points are formal combinations of named points, their coordinates the tokens
("x", point), ("y", point), ("ny", point).  The precompiled contracts act on those formally."""
import re
class Bad(Exception): pass          # the text means something else than it should
class Unsup(Exception): pass        # outside the subset
class Revert(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v
TOK = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(0[xX][0-9a-fA-F]+|\d+)|([A-Za-z_$][\w$]*)|(\|\||&&|==|!=|<=|>=|\+\+|--|\+=|-=|:=|=>|[-+*/%<>=!(){}\[\];,.?:^~])|(\"[^\"]*\")", re.S)
def lex(s):
    r, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Bad("unexpected text %r" % s[i:i + 20])
        i = m.end()
        for k, g in zip("nios", m.groups()):
            if g is not None: r.append((k, g))
    return r + [("e", "")]
class P:
    def __init__(self, s): self.t = lex(s); self.i = 0
    def pk(self, k=0): return self.t[min(self.i + k, len(self.t) - 1)][1]
    def kd(self, k=0): return self.t[min(self.i + k, len(self.t) - 1)][0]
    def nx(self): self.i += 1; return self.t[self.i - 1][1]
    def ex(self, s):
        if self.pk() != s: raise Bad("expected %r, found %r" % (s, " ".join(x[1] for x in self.t[self.i:self.i + 6])))
        self.i += 1
    def ac(self, s):
        if self.pk() == s and self.kd() != "e": self.i += 1; return True
        return False
    def ident(self):
        if self.kd() != "i": raise Bad("expected a name, found %r" % self.pk())
        return self.nx()
    # -- declarations
    def unit(self):
        u = {}
        while self.kd() != "e":
            if self.ac("pragma"):
                while not self.ac(";"): self.nx()
            elif self.pk() in ("library", "contract", "interface"):
                self.nx(); n = self.ident(); u[n] = self.body()
            else: raise Bad("unexpected %r" % self.pk())
        return u
    def body(self):
        b = {"structs": {}, "fns": {}}
        self.ex("{")
        while not self.ac("}"):
            if self.ac("using"):
                while not self.ac(";"): self.nx()
            elif self.ac("struct"):
                n = self.ident(); self.ex("{"); f = []
                while not self.ac("}"): t = self.type(); f.append((self.ident(), t)); self.ex(";")
                b["structs"][n] = f
            elif self.ac("function"):
                n = self.ident(); p = self.params(); mods = []; rets = []
                while self.pk() not in ("{", ";"):
                    if self.ac("returns"): rets = self.params()
                    else: mods.append(self.nx())
                b["fns"].setdefault(n, []).append((p, rets, self.block(), mods))
            else: raise Unsup("declaration %r" % self.pk())
        return b
    def type(self):
        n = self.ident()
        while self.ac("."): n += "." + self.ident()
        dims = []
        while self.pk() == "[":
            self.nx()
            if self.ac("]"): dims.append(None)
            else: dims.append(int(self.nx(), 0)); self.ex("]")
        return (n, tuple(dims))
    def params(self):
        self.ex("("); r = []
        while not self.ac(")"):
            t = self.type(); loc = None
            while self.pk() in ("memory", "calldata", "storage"): loc = self.nx()
            r.append((self.ident() if self.kd() == "i" else None, t)); 
            if self.pk() != ")": self.ex(",")
        return r
    def block(self):
        self.ex("{"); r = []
        while not self.ac("}"): r.append(self.stmt())
        return ("block", r)
    def isdecl(self):
        j = self.i
        try:
            if self.kd() != "i": return False
            self.type()
            while self.pk() in ("memory", "calldata", "storage"): self.nx()
            return self.kd() == "i"
        except Bad: return False
        except ValueError: return False
        finally: self.i = j
    def simple(self):
        if self.isdecl():
            t = self.type()
            while self.pk() in ("memory", "calldata", "storage"): self.nx()
            n = self.ident(); e = self.expr() if self.ac("=") else None
            return ("decl", t, n, e)
        e = self.expr()
        if self.pk() in ("=", "+=", "-="):
            o = self.nx(); return ("asg", e, o, self.expr())
        if self.pk() in ("++", "--"): return ("asg", e, "+=" if self.nx() == "++" else "-=", ("n", 1))
        return ("ex", e)
    def stmt(self):
        if self.pk() == "{": return self.block()
        if self.ac("if"):
            self.ex("("); c = self.expr(); self.ex(")"); a = self.stmt(); b = self.stmt() if self.ac("else") else None
            return ("if", c, a, b)
        if self.ac("for"):
            self.ex("("); i = None if self.pk() == ";" else self.simple(); self.ex(";")
            c = self.expr(); self.ex(";"); u = self.simple(); self.ex(")")
            return ("for", i, c, u, self.stmt())
        if self.ac("while"):
            self.ex("("); c = self.expr(); self.ex(")"); return ("for", None, c, None, self.stmt())
        if self.ac("return"):
            e = None if self.pk() == ";" else self.expr(); self.ex(";"); return ("ret", e)
        if self.ac("unchecked"): return self.block()
        if self.ac("assembly"):
            self.ex("{"); r = []
            while not self.ac("}"):
                if self.ac("switch"):
                    v = self.expr(); cs = []
                    while self.pk() in ("case", "default"):
                        k = self.nx(); val = self.expr() if k == "case" else None
                        self.ex("{"); l = []
                        while not self.ac("}"): l.append(self.expr())
                        cs.append((val, l))
                    r.append(("switch", v, cs))
                elif self.kd() == "i" and self.pk(1) == ":=":
                    n = self.nx(); self.nx(); r.append((":=", n, self.expr()))
                elif self.ac("let"):
                    n = self.nx(); self.ex(":="); r.append((":=", n, self.expr()))
                else: r.append(("ex", self.expr()))
            return ("asm", r)
        s = self.simple(); self.ex(";"); return s
    PREC = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("+", "-"), ("*", "/", "%")]
    def expr(self, lvl=0):
        if lvl == len(self.PREC): return self.unary()
        e = self.expr(lvl + 1)
        while self.kd() == "o" and self.pk() in self.PREC[lvl]: o = self.nx(); e = ("bin", o, e, self.expr(lvl + 1))
        if lvl == 0 and self.ac("?"):
            a = self.expr(); self.ex(":"); return ("cond", e, a, self.expr())
        return e
    def unary(self):
        if self.pk() in ("!", "-") and self.kd() == "o": o = self.nx(); return ("un", o, self.unary())
        if self.pk() in ("++", "--"): o = self.nx(); return ("un", o, self.unary())
        e = self.prim()
        while True:
            if self.ac("."): e = ("mem", e, self.ident())
            elif self.pk() == "[":
                self.nx(); x = self.expr(); self.ex("]"); e = ("idx", e, x)
            elif self.pk() == "(":
                self.nx(); a = []
                while not self.ac(")"):
                    a.append(self.expr())
                    if self.pk() != ")": self.ex(",")
                e = ("call", e, a)
            else: return e
    def prim(self):
        if self.ac("("):
            e = self.expr()
            if self.pk() == ",":
                l = [e]
                while self.ac(","): l.append(self.expr())
                self.ex(")"); return ("tup", l)
            self.ex(")"); return e
        if self.ac("["):
            l = []
            while not self.ac("]"):
                l.append(self.expr())
                if self.pk() != "]": self.ex(",")
            return ("arr", l)
        if self.ac("new"): return ("new", self.type())
        k = self.kd(); t = self.nx()
        if k == "n": return ("n", int(t, 0))
        if k == "i": return ("n", t == "true") if t in ("true", "false") else ("v", t)
        if k == "s": return ("s", t)
        raise Bad("unexpected %r" % t)
class Struct:
    def __init__(self, ty, f): self.ty = ty; self.f = f
class Point:
    """formal combination of named points: name -> {symbol or 1: integer}"""
    def __init__(self, d): self.d = {k: {s: c for s, c in v.items() if c} for k, v in d.items()}; self.d = {k: v for k, v in self.d.items() if v}
    def key(self): return tuple(sorted((k, tuple(sorted(v.items(), key=str))) for k, v in self.d.items()))
    def __eq__(self, o): return isinstance(o, Point) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def add(self, o, s=1):
        d = {k: dict(v) for k, v in self.d.items()}
        for k, v in o.d.items():
            e = d.setdefault(k, {})
            for m, c in v.items(): e[m] = e.get(m, 0) + s * c
        return Point(d)
    def mul(self, w):
        if isinstance(w, int): return Point({k: {m: c * w for m, c in v.items()} for k, v in self.d.items()})
        if any(m != 1 for v in self.d.values() for m in v): raise Unsup("product of symbols")
        return Point({k: {w: v[1]} for k, v in self.d.items()})
    def __repr__(self): return " + ".join("%s*%s" % ("+".join(("%s" % c if m == 1 else "%s*%s" % (c, m)) for m, c in v.items()), k) for k, v in sorted(self.d.items())) or "0"
class Sym:
    """an input word"""
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def __lt__(self, o): return str(self) < str(o)
JUNK = object()
Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617
class Ev:
    """oracle: below(sym, const) decides range tests of inputs; pairing result and failing precompile call are chosen by the harness"""
    def __init__(self, unit, known, below, result, failing=None):
        self.u = unit; self.known = known; self.below = below; self.result = result; self.failing = failing
        self.calls = 0; self.pairings = []
    # -- points
    def tok(self, w):
        return self.known.get(w, w) if isinstance(w, int) and w > 2 else w
    def point(self, x, y):
        x, y = self.tok(x), self.tok(y)
        if x == 0 and y == 0: return Point({})
        if x == 1 and y == 2: return Point({"P1": {1: 1}})
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "x" and y[0] in ("y", "ny") and x[1] == y[1]:
            return x[1] if y[0] == "y" else x[1].mul(-1)
        raise Bad("%s and %s are not the coordinates of a point" % (x, y))
    def coords(self, p): return [("x", p), ("y", p)] if p.d else [0, 0]
    def g2(self, w):
        w = [self.tok(x) for x in w]
        if all(isinstance(x, tuple) and x[0] == "g2" for x in w) and len({x[1] for x in w}) == 1:
            if [x[2] for x in w] != [1, 0, 3, 2]: raise Bad("the coordinates of %s reach the pairing in the order %s (imaginary part first is required)" % (w[0][1], [x[2] for x in w]))
            return w[0][1]
        raise Bad("%s are not the coordinates of a point of G2" % (w,))
    def precompile(self, k, w, outn):
        n = self.calls; self.calls += 1
        if n == self.failing: return 0, None
        w = w[:{6: 4, 7: 3}.get(k)]         # these two ignore what follows their operands
        if any(x is JUNK for x in w): raise Bad("precompiled contract %d reads beyond its operands" % k)
        if k == 6:
            if len(w) != 4: raise Bad("addition of %d words" % len(w))
            return 1, self.coords(self.point(*w[:2]).add(self.point(*w[2:])))
        if k == 7:
            if len(w) != 3: raise Bad("multiplication of %d words" % len(w))
            return 1, self.coords(self.point(*w[:2]).mul(self.tok(w[2])))
        if k == 8:
            if len(w) % 6: raise Bad("pairing of %d words" % len(w))
            l = [(self.point(*w[i:i + 2]), self.g2(w[i + 2:i + 6])) for i in range(0, len(w), 6)]
            self.pairings.append(l); return 1, [self.result]
        raise Bad("precompiled contract %s" % k)
    # -- values
    def default(self, t, c):
        n, d = t
        if d:
            if d[-1] is None: return []
            return [self.default((n, d[:-1]), c) for _ in range(d[-1])]
        s = self.struct(n, c)
        if s: return Struct(n.split(".")[-1], {f: self.default(ft, s[1]) for f, ft in s[0]})
        return False if n == "bool" else 0
    def struct(self, n, c):
        if "." in n: lib, n = n.rsplit(".", 1)
        else: lib = c
        u = self.u.get(lib)
        return (u["structs"][n], lib) if u and n in u["structs"] else None
    def run(self, c, fn, args):
        l = [f for f in self.u[c]["fns"].get(fn, []) if len(f[0]) == len(args)]
        if len(l) != 1: raise Unsup("function %s.%s" % (c, fn))
        p, rets, body, _ = l[0]
        env = {n: v for (n, _), v in zip(p, args)}
        for n, t in rets:
            if n: env[n] = self.default(t, c)
        env["#types"] = {n: t for n, t in list(p) + list(rets) if n}
        try: self.st(body, env, c)
        except Ret as r: return r.v if r.v is not None or not rets or not rets[0][0] else env[rets[0][0]]
        if rets and rets[0][0]: return env[rets[0][0]] if len(rets) == 1 else tuple(env[n] for n, _ in rets)
    def st(self, s, env, c):
        k = s[0]
        if k == "block":
            for x in s[1]: self.st(x, env, c)
        elif k == "decl":
            env["#types"][s[2]] = s[1]; env[s[2]] = self.default(s[1], c) if s[3] is None else self.ev(s[3], env, c)
        elif k == "asg":
            v = self.ev(s[3], env, c)
            if s[2] != "=": v = self.bin(s[2][0], self.ev(s[1], env, c), v)
            self.set(s[1], v, env, c)
        elif k == "ex":
            if s[1][0] == "un" and s[1][1] in ("++", "--"): self.set(s[1][2], self.bin(s[1][1][0], self.ev(s[1][2], env, c), 1), env, c)
            else: self.ev(s[1], env, c)
        elif k == "if":
            if self.truth(self.ev(s[1], env, c)): self.st(s[2], env, c)
            elif s[3]: self.st(s[3], env, c)
        elif k == "for":
            if s[1]: self.st(s[1], env, c)
            n = 0
            while self.truth(self.ev(s[2], env, c)):
                self.st(s[4], env, c)
                if s[3]: self.st(s[3], env, c)
                n += 1
                if n > 5000: raise Bad("endless loop")
        elif k == "ret": raise Ret(None if s[1] is None else self.ev(s[1], env, c))
        elif k == "asm": self.asm(s[1], env, c)
        else: raise Unsup(k)
    def truth(self, v):
        if isinstance(v, bool): return v
        raise Unsup("condition %r" % (v,))
    def set(self, l, v, env, c):
        if l[0] == "v":
            if l[1] not in env: raise Bad("unknown name " + l[1])
            env[l[1]] = v
        elif l[0] == "mem":
            o = self.ev(l[1], env, c)
            if not isinstance(o, Struct) or l[2] not in o.f: raise Bad("no member " + l[2])
            o.f[l[2]] = v
        elif l[0] == "idx":
            o = self.ev(l[1], env, c); i = self.ev(l[2], env, c)
            if not isinstance(i, int): raise Unsup("index")
            if i >= len(o): raise Revert("index %d of %d" % (i, len(o)))
            o[i] = v
        elif l[0] == "tup":
            for x, y in zip(l[1], v): self.set(x, y, env, c)
        else: raise Unsup("assignment")
    def bin(self, o, a, b):
        a, b = self.tok(a), self.tok(b)
        if isinstance(a, int) and isinstance(b, int):
            if o == "+": return a + b
            if o == "-":
                if b > a: raise Revert("underflow")
                return a - b
            if o == "*": return a * b
            if o in "/%" and b == 0: raise Revert("division by zero")
            if o == "/": return a // b
            if o == "%": return a % b
        ta, tb = self.tok(a), self.tok(b)
        if o == "%" and isinstance(ta, tuple) and isinstance(b, int):
            if b != Q: raise Bad("a coordinate is reduced modulo %d" % b)
            return ta
        if o == "-" and isinstance(a, int) and isinstance(tb, tuple):
            if a != Q or tb[0] not in ("y", "ny"): raise Bad("%s - %s" % (a, tb))
            return ("ny" if tb[0] == "y" else "y", tb[1])
        raise Unsup("%r %s %r" % (a, o, b))
    def ev(self, e, env, c):
        k = e[0]
        if k == "n": return e[1]
        if k == "s": return e[1]
        if k == "v":
            if e[1] in env: return env[e[1]]
            raise Bad("unknown name " + e[1])
        if k == "arr": return [self.ev(x, env, c) for x in e[1]]
        if k == "tup": return tuple(self.ev(x, env, c) for x in e[1])
        if k == "mem":
            o = self.ev(e[1], env, c)
            if e[2] == "length" and isinstance(o, list): return len(o)
            if isinstance(o, Struct):
                if e[2] not in o.f: raise Bad("no member " + e[2])
                return o.f[e[2]]
            raise Unsup("member " + e[2])
        if k == "idx":
            o = self.ev(e[1], env, c); i = self.ev(e[2], env, c)
            if not isinstance(i, int) or not isinstance(o, list): raise Unsup("index")
            if i >= len(o): raise Revert("index %d of %d" % (i, len(o)))
            return o[i]
        if k == "cond": return self.ev(e[2] if self.truth(self.ev(e[1], env, c)) else e[3], env, c)
        if k == "un":
            v = self.ev(e[2], env, c)
            if e[1] == "!": return not self.truth(v)
            raise Unsup(e[1])
        if k == "bin":
            o = e[1]
            if o == "&&": return self.truth(self.ev(e[2], env, c)) and self.truth(self.ev(e[3], env, c))
            if o == "||": return self.truth(self.ev(e[2], env, c)) or self.truth(self.ev(e[3], env, c))
            a, b = self.ev(e[2], env, c), self.ev(e[3], env, c)
            if o in ("==", "!="):
                ta, tb = self.tok(a), self.tok(b)
                if isinstance(ta, (Sym, tuple)) or isinstance(tb, (Sym, tuple)): r = ta == tb if type(ta) is type(tb) else False     # generic
                else: r = a == b
                return r == (o == "==")
            if o in ("<", ">", "<=", ">="):
                if isinstance(a, Sym) and isinstance(b, int) and o in ("<", "<=", ">="):
                    r = self.below(a, b if o != "<=" else b + 1); return r if o != ">=" else not r
                if isinstance(b, Sym) and isinstance(a, int) and o in (">", ">=", "<="):
                    r = self.below(b, a if o != ">=" else a + 1); return r if o != "<=" else not r
                if isinstance(a, int) and isinstance(b, int): return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]
                raise Unsup("comparison %r %s %r" % (a, o, b))
            return self.bin(o, a, b)
        if k == "call": return self.call(e, env, c)
        raise Unsup(k)
    def call(self, e, env, c):
        f, a = e[1], e[2]
        if f[0] == "new":
            n = self.ev(a[0], env, c); t = f[1]
            return [self.default((t[0], t[1][:-1]), c) for _ in range(n)]
        if f[0] == "v":
            n = f[1]
            if re.fullmatch(r"uint\d*", n): return self.ev(a[0], env, c)
            if n in ("require", "assert"):
                if not self.truth(self.ev(a[0], env, c)): raise Revert("require")
                return None
            if n == "revert": raise Revert("revert")
            s = self.struct(n, c)
            if s: return self.build(n, s, [self.ev(x, env, c) for x in a])
            return self.run(c, n, [self.ev(x, env, c) for x in a])
        if f[0] == "mem":
            if f[1][0] == "v" and f[1][1] in self.u and f[1][1] not in env:
                lib, n = f[1][1], f[2]; v = [self.ev(x, env, c) for x in a]
                s = self.u[lib]["structs"].get(n)
                if s: return self.build(n, (s, lib), v)
                return self.run(lib, n, v)
            o = self.ev(f[1], env, c)
            if isinstance(o, Struct):          # using for
                for lib in self.u:
                    if f[2] in self.u[lib]["fns"]: return self.run(lib, f[2], [o] + [self.ev(x, env, c) for x in a])
        raise Unsup("call")
    def build(self, n, s, v):
        if len(v) != len(s[0]): raise Bad("%s is built from %d values" % (n, len(v)))
        for (f, t), x in zip(s[0], v):
            if t[1] and t[1][-1] is not None and (not isinstance(x, list) or len(x) != t[1][-1]): raise Bad("%s.%s is not %d words" % (n, f, t[1][-1]))
            if not t[1] and isinstance(x, list): raise Bad("%s.%s is a list" % (n, f))
        return Struct(n, {f: x for (f, _), x in zip(s[0], v)})
    # -- inline assembly
    def num(self, e, env):
        if e[0] == "n": return int(e[1])
        if e[0] == "v":
            v = env.get(e[1])
            if isinstance(v, bool) or not isinstance(v, int): raise Unsup("assembly value " + e[1])
            return v
        if e[0] == "call" and e[1][0] == "v":
            n, a = e[1][1], e[2]
            if n == "gas": return 10 ** 9
            x, y = [self.num(z, env) for z in a]
            return {"add": x + y, "sub": x - y, "mul": x * y}[n]
        raise Unsup("assembly")
    def mem(self, e, env):
        """(list of words or struct, is dynamic, word offset)"""
        if e[0] == "v":
            t = env["#types"].get(e[1]); return env[e[1]], bool(t and t[1] and t[1][-1] is None), 0
        if e[0] == "call" and e[1] == ("v", "add"):
            for x, y in (e[2], e[2][::-1]):
                if x[0] == "v" and not isinstance(env.get(x[1]), int):
                    o, d, k = self.mem(x, env); b = self.num(y, env)
                    if b % 32: raise Bad("misaligned memory")
                    return o, d, k + b // 32
        raise Unsup("memory operand")
    def words(self, m, n):
        o, d, k = m
        w = list(o.f.values()) if isinstance(o, Struct) else list(o)
        if any(isinstance(x, (list, Struct)) for x in w): raise Bad("a pointer is passed as a word")
        if d: w = [len(w)] + w
        return (w + [JUNK] * n)[k:k + n]
    def asm(self, l, env, c):
        for s in l:
            if s[0] == "switch":
                v = env[s[1][1]] if s[1][0] == "v" else None
                v = int(v)
                for val, body in s[2]:
                    if val is None or int(val[1]) == v:
                        for x in body:
                            if x[0] == "call" and x[1][0] == "v" and x[1][1] in ("invalid", "revert"): raise Revert("assembly")
                            raise Unsup("assembly")
                        break
            elif s[0] == ":=":
                e = s[2]
                if e[0] == "call" and e[1] == ("v", "staticcall"):
                    g, k, i, n, o, m = e[2]; k, n, m = self.num(k, env), self.num(n, env), self.num(m, env)
                    if n % 32 or m % 32: raise Bad("byte count %d" % n)
                    ok, r = self.precompile(k, self.words(self.mem(i, env), n // 32), m // 32)
                    env[s[1]] = bool(ok)
                    if ok:
                        dst, dyn, off = self.mem(o, env)
                        if dyn or off: raise Unsup("output operand")
                        size = len(dst.f) if isinstance(dst, Struct) else len(dst)
                        # the contract writes its own number of words, at most the requested one; the template asks for 0x60 of an addition (memory after a struct is free)
                        if len(r) > m // 32: raise Bad("the output is cut to %d words" % (m // 32))
                        if len(r) > size: raise Bad("%d words are written to %d" % (len(r), size))
                        for j, x in enumerate(r):
                            if isinstance(dst, Struct): dst.f[list(dst.f)[j]] = x
                            else: dst[j] = x
                else: env[s[1]] = self.num(e, env)
            else: raise Unsup("assembly statement")
