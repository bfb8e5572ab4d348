"""The compressor circuit: what the generated arithmetisation of a constraint system means, row by row."""
import json, os
from dom import *
from aeval import *
import models as M, fieldmodels as FM, iomodels as IO, wtns as W, serdemodels as S, pil as PL
HERE = os.path.dirname(os.path.abspath(__file__))
GLREF = json.load(open(os.path.join(HERE, "..", "ref", "poseidon_gl.json")))
class Circ:
    """n_out, n_in public wires, nw wires in all, constraints [(A, B, C)] of [(wire, coefficient)], gates [(template, parameters)], uses [(id, signals)]"""
    def __init__(self, nout, nin, nw, cons, gates=(), uses=()):
        self.nout, self.nin, self.nw, self.cons, self.gates, self.uses = nout, nin, nw, cons, list(gates), list(uses)
    def bytes(self, p):
        le = W.le
        h = le(8, 4) + le(p, 8) + le(self.nw, 4) + le(self.nout, 4) + le(self.nin, 4) + le(0, 4) + le(self.nw, 8) + le(len(self.cons), 4)
        c = []
        for con in self.cons:
            for lc in con:
                c += le(len(lc), 4)
                for w, e in lc: c += le(w, 4) + le(e % p, 8)
        m = sum((le(i, 8) for i in range(self.nw)), [])
        secs = [(1, h), (2, c), (3, m)]
        if self.gates:
            g = le(len(self.gates), 4)
            for n, ps in self.gates:
                g += list(n.encode()) + [0] + le(len(ps), 4)
                for e in ps: g += le(e % p, 8)
            u = le(len(self.uses), 4)
            for i, sg in self.uses:
                u += le(i, 4) + le(len(sg), 4)
                for x in sg: u += le(x, 8)
            secs += [(4, g), (5, u)]
        out = list(b"r1cs") + le(1, 4) + le(len(secs), 4)
        for t, d in secs: out += le(t, 4) + le(len(d), 8) + d
        return out
def install(I):
    tape = S.install(I)
    F = I.F["GL"]
    def comp(J, a, c): return tape.read("de_pil", PL.Pil(M.cstr(M.deref(a[0])), F).doc())
    def comp_path(J, a, c):
        o = IO.fs(I).get(M.cstr(M.deref(a[0])))
        if o is None: raise Panic("no PIL file")
        return tape.read("de_pil", PL.Pil(bytes(o.f).decode(), F).doc())
    I.hooks["recursion::pilcom::compile_pil_from_str"] = comp
    I.hooks["recursion::pilcom::compile_pil_from_path"] = comp_path
def words(b):
    if len(b) % 8: raise PL.PilError("a file of %d bytes" % len(b))
    return [int.from_bytes(bytes(b[i:i + 8]), "little") for i in range(0, len(b), 8)]
class Out:
    """what the setup wrote"""
    def __init__(self, I, circ, nbits):
        F = self.F = I.F["GL"]; fs = IO.fs(I)
        for n in ("c.pil", "c.const", "c.exec"): fs.pop(n, None)
        fs["c.r1cs"] = IO.FileObj(circ.bytes(F.p))
        r = I.unphi(I.invoke("recursion::compressor12::compressor12_setup::setup", [M.StrObj("c.r1cs"), M.StrObj("c.pil"), M.StrObj("c.const"), M.StrObj("c.exec"), nbits]))
        if r.v: raise PL.PilError("setup fails")
        self.text = bytes(fs["c.pil"].f).decode(); self.pil = PL.Pil(self.text, F)
        w = words(fs["c.const"].f); self.nc = self.pil.n["constant"]
        self.N = self.pil.deg
        if len(w) != self.nc * self.N: raise PL.PilError("%d constants for %d columns of %d rows" % (len(w), self.nc, self.N))
        self.const = [[w[r * self.nc + c] for c in range(self.nc)] for r in range(self.N)]
        e = json.loads(bytes(fs["c.exec"].f).decode()); self.exec = e
        na, ns = e[0], e[1]
        if len(e) != 2 + 4 * na + 12 * ns: raise PL.PilError("execution file of %d words for %d additions and %d rows" % (len(e), na, ns))
        self.adds = [e[2 + 4 * i:6 + 4 * i] for i in range(na)]
        self.smap = [e[2 + 4 * na + 12 * i:2 + 4 * na + 12 * i + 12] for i in range(ns)]
        if ns > self.N: raise PL.PilError("%d rows assigned in %d" % (ns, self.N))
def ext(F, a, b):
    """product modulo x^3 - x - 1"""
    m = lambda i, j: fmul(a[i], b[j])
    d = [m(0, 0), fadd(m(0, 1), m(1, 0)), fadd(fadd(m(0, 2), m(1, 1)), m(2, 0)), fadd(m(1, 2), m(2, 1)), m(2, 2)]
    return [fadd(d[0], d[3]), fadd(d[1], fadd(d[3], d[4])), fadd(d[2], d[4])]
def eadd(a, b): return [fadd(x, y) for x, y in zip(a, b)]
def esub(a, b): return [fsub(x, y) for x, y in zip(a, b)]
def esc(F, k, a): return [fmul(F.const(k), x) for x in a]
def gate_polys(F, name, ps, s):
    """what a custom gate demands of its signals (polynomials that must vanish)"""
    p = F.p
    if name == "CMulAdd": return esub(eadd(ext(F, s[0:3], s[3:6]), s[6:9]), s[9:12])
    if name == "EvPol4":
        c, x, z, o = [s[0:3], s[3:6], s[6:9], s[9:12]], s[12:15], s[15:18], s[18:21]
        acc = x
        for k in (3, 2, 1, 0): acc = eadd(ext(F, acc, z), c[k])
        return esub(acc, o)
    if name == "FFT4":
        w, inc, sc, ty = ps; e = [s[3 * i:3 * i + 3] for i in range(4)]; o = [s[12 + 3 * i:15 + 3 * i] for i in range(4)]
        if ty == 4:
            k = [sc, sc * w * w, sc * w, sc * w**3, sc * w * inc, sc * w**3 * inc]
            rows = [(k[0], k[1], k[2], k[3]), (k[0], -k[1], k[4], -k[5]), (k[0], k[1], -k[2], -k[3]), (k[0], -k[1], -k[4], k[5])]
        else:
            a, b, c = sc, sc * w, sc * w * inc
            rows = [(a, b, 0, 0), (a, -b, 0, 0), (0, 0, a, c), (0, 0, a, -c)]
        out = []
        for q, r in enumerate(rows):
            acc = [F.zero] * 3
            for k, x in zip(r, e): acc = eadd(acc, esc(F, k % p, x))
            out += esub(acc, o[q])
        return out
    if name == "Poseidon12":
        C = GLREF["C"]; Mx = [[GLREF["circ"][(j - i) % 12] + (GLREF["diag"][i] if i == j else 0) for j in range(12)] for i in range(12)]; out = []
        C = C + [0] * (372 - len(C))
        for j in range(30):
            u = []
            for k in range(12):
                x = fadd(s[12 * j + k], F.const(C[12 * j + k]))
                if k == 0 or not 4 <= j < 26:
                    y = fmul(x, x); y = fmul(fmul(fmul(y, y), y), x); u.append(y)
                else: u.append(x)
            for i in range(12):
                acc = fneg(s[12 * (j + 1) + i])
                for k in range(12): acc = fadd(acc, fmul(F.const(Mx[i][k]), u[k]))
                out.append(acc)
        return out
    raise PL.PilError("gate " + name)
def meaning(I, circ, nbits):
    """None when the arithmetisation means exactly the constraint system; a message otherwise"""
    try: o = Out(I, circ, nbits)
    except PL.PilError as e: return str(e)
    # the coefficients of additions are words read back by the execution phase (their agreement is C21's): stored or canonical representation
    r = denote(o, circ, o.F.Ri)
    return r if r is None or denote(o, circ, 1) is not None else None
def denote(o, circ, unit_):
    F, P = o.F, o.pil; p = F.p
    npub = circ.nout + circ.nin
    if P.n["commit"] != 12: return "%d committed columns" % P.n["commit"]
    def cell(c, r):
        if r < len(o.smap) and o.smap[r][c]:
            s = o.smap[r][c]
            return wires[s] if s < len(wires) else None
        return F.var("cell %d %d" % (c, r))
    wires = [F.var("w0")] + [F.var("w%d" % i) for i in range(1, circ.nw)]
    for a, b, ca, cb in o.adds:
        if max(a, b) >= len(wires): return "an addition refers to wire %d before it is defined" % max(a, b)
        wires.append(F.var("v%d" % len(wires)))
    nv = len(wires)
    for r, row in enumerate(o.smap):
        for c, s in enumerate(row):
            if s >= nv: return "row %d column %d is assigned wire %d of %d" % (r, c, s, nv)
    # publics
    pubwire = {}
    for n, (q, ix, r) in P.publics.items():
        k, i0, ln, d = P.decl.get(q, (None, 0, None, 0))
        if k != "commit": return "public %s is not a committed cell" % n
        pubwire[n] = (i0 + (ix or 0), r)
    ws = []
    for n, (c, r) in pubwire.items():
        s = o.smap[r][c] if r < len(o.smap) else 0
        if not s: return "public %s is a cell without a wire" % n
        ws.append((n, s))
    if sorted(s for n, s in ws) != list(range(1, npub + 1)): return "the wires exposed are %s instead of 1 to %d" % (sorted(s for n, s in ws), npub)
    if any(n != "pub%d" % (s - 1) for n, s in ws): return "public wires are exposed in another order"
    # identities, row by row
    got = []; S0 = P.decl.get("Compressor.S")
    scols = range(S0[1], S0[1] + S0[2]) if S0 else range(0)
    comp = []
    for e in P.identities:
        vs = PL.names(e)
        comp.append((e, vs))
        if any(v.strip("'") in {"c%d" % c for c in scols} for v in vs): return "an identity uses a permutation column"
    seen = set()
    parts = {}
    for e, vs in comp:
        # coefficients of the constants' monomials, so that a row costs only substitutions of numbers
        pt = {}
        for m, k in e.d.items():
            cm, am = [], []
            for v, x in F.monos[m]:
                n = F.atoms[v].args[1]
                (cm if n[0] == "c" else am).append((n, x))
            pt.setdefault(tuple(cm), []).append((k, tuple(am)))
        parts[id(e)] = pt
    for r in range(o.N):
        val = {}
        for c in range(o.nc):
            val["c%d" % c] = o.const[r][c]; val["c%d'" % c] = o.const[(r + 1) % o.N][c]
        cv = {}
        for e, vs in comp:
            res = {}
            for cm, lst in parts[id(e)].items():
                k = 1
                for n, x in cm: k = k * pow(val[n], x, p) % p
                if k:
                    for q, am in lst: res[am] = (res.get(am, 0) + k * q) % p
            res = {am: k for am, k in res.items() if k}
            if not res: continue
            t = F.zero
            for am, k in res.items():
                x = F.const(k)
                for n, q in am:
                    if n not in cv:
                        if n[0] == ":": cv[n] = F.var(n)
                        else:
                            sh = n.endswith("'"); c = int(n.strip("a'"))
                            cv[n] = cell(c, (r + 1) % o.N if sh else r)
                    for _ in range(q): x = fmul(x, cv[n])
                t = fadd(t, x)
            if t.d: got.append((r, t))
    need = []
    for i in range(npub): need.append(("public wire %d" % (i + 1), fsub(wires[i + 1], F.var(":pub%d" % i))))
    defs = {}
    def expand(e):
        return PL.subst(F, e, lambda n: defs.get(n) or F.var(n))
    for k, (a, b, ca, cb) in enumerate(o.adds):
        d = fadd(fmul(F.const(ca * unit_ % p), wires[a]), fmul(F.const(cb * unit_ % p), wires[b]))
        need.append(("added wire %d" % (circ.nw + k), fsub(wires[circ.nw + k], d)))
        defs["v%d" % (circ.nw + k)] = expand(d)
    def lin(lc):
        e = F.zero
        for w, k in lc: e = fadd(e, fmul(F.const(k % p), F.one if w == 0 else wires[w]))
        return e
    have = {}
    for r, t in got: have.setdefault(PL.pkey(t), r)
    allowed = set()
    for n, e in need:
        if PL.pkey(e) not in have: return "%s: %s = 0 is not enforced by any row" % (n, e)
        allowed.add(PL.pkey(e))
    exp = {}
    for r, t in got:
        if PL.pkey(t) in allowed: continue
        exp.setdefault(PL.pkey(expand(t)), (r, t))
    rest = []
    for i, c in enumerate(circ.cons):
        e = fsub(fmul(lin(c[0]), lin(c[1])), lin(c[2]))
        if e.d: rest.append(("constraint %d" % i, e))
    for i, (g, sg) in enumerate(circ.uses):
        name, ps = circ.gates[g]
        if any(s >= circ.nw for s in sg): raise Undecided("signal out of range")
        s = [wires[x] for x in sg]
        for j, e in enumerate(gate_polys(F, name, ps, s)):
            if e.d: rest.append(("%s use %d, equation %d" % (name, i, j), e))
    ok = set(allowed) | {frozenset()}
    for n, e in rest:
        k = PL.pkey(e)
        if k not in exp: return "%s: %s = 0 is not enforced by any row" % (n, e)
        ok.add(k)
    for k, (r, t) in exp.items():
        if k not in ok: return "row %d demands %s = 0, which the constraint system does not" % (r, t)
    return copies(o, nv)
def copies(o, nv):
    P = o.pil
    con = [c for c in P.connects if c[0] == "connect"]
    if len(con) != 1 or len(P.connects) != 1: return "%d connection arguments" % len(con)
    F = o.F; p = F.p
    left, right = con[0][1], con[0][2]
    S0 = P.decl["Compressor.S"]
    if len(left) != 12 or [PL.pkey(x) for x in left] != [PL.pkey(F.var("a%d" % i)) for i in range(12)] or [PL.pkey(x) for x in right] != [PL.pkey(F.var("c%d" % (S0[1] + i))) for i in range(12)]:
        if sorted(map(repr, left)) != sorted(repr(F.var("a%d" % i)) for i in range(12)): return "the connection does not cover the twelve wire columns"
        return "the connection does not pair every wire column with its permutation column"
    nb = o.N.bit_length() - 1
    # generator of the subgroup and coset shifts as the connection argument uses them
    w = pow(pow(7, 2**32 - 1, p), 2**(32 - nb), p)
    ks = [1] + [pow(12275445934081160404, i, p) for i in range(1, 12)]
    ids = {}
    x = 1
    for r in range(o.N):
        for c in range(12): ids[x * ks[c] % p] = (c, r)
        x = x * w % p
    seen = set(); par = {}
    nxt = {}
    for r in range(o.N):
        for c in range(12):
            v = o.const[r][S0[1] + c]
            if v not in ids: return "the permutation column %d holds no cell at row %d" % (c, r)
            if v in seen: return "two cells are connected to cell %s" % (ids[v],)
            seen.add(v); nxt[(c, r)] = ids[v]
    done = {}
    sig = lambda c, r: o.smap[r][c] if r < len(o.smap) else 0
    home = {}
    for cell in nxt:
        if cell in done: continue
        cyc = []; k = cell
        while k not in done: done[k] = True; cyc.append(k); k = nxt[k]
        ss = {sig(*q) for q in cyc}
        if len(ss) > 1: return "cells of different wires are connected: %s" % sorted(ss)
        s = ss.pop()
        if s:
            if s in home: return "the cells of wire %d are not all connected" % s
            home[s] = cyc[0]
