import json, random
from dom import *
from aeval import *
import models as M, fieldmodels as FM, iomodels as IO, comp12 as C12, pil as PL, c20, c22
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR by constant propagation on virtual files: the setup's files are read back by the analysed execution phase, whose committed columns are compared with the wires the setup assigned; column files and word files written and read back"
RULE = ("for every enumerated circuit and witness the column file written by the execution phase holds, row by row and column by column, the value of the wire the setup assigned to that cell (added wires by their recorded combination) and zero elsewhere, such that every row of the generated arithmetisation is satisfied; "
        "word lists and column files are read back as they were written, and a column file cut short is refused.")
ASSUME = ["circuits and witnesses are the enumerated ones", "the witness calculator is a stand-in of circom's interface (C20)", "column files below 2^25 words (one buffer)"]
def run(ctx):
    I0 = ctx.interp(("GL",), "expand"); F = I0.F["GL"]; p = F.p
    X = "recursion::compressor12::compressor12_exec::exec"; where = "recursion/src/compressor12/compressor12_exec.rs exec"
    def fresh(cx):
        I = cx.interp(("GL",), "expand"); C12.install(I); c20.install(I); return I
    def witness(c, seed):
        rnd = random.Random(seed)
        special = [0, 1, p - 1, 2**32, 2**32 - 1, 2**63, p - 2**32, 2]
        return [1] + [special[i % 8] if seed == 1 else rnd.randrange(p) for i in range(c.nw - 1)]
    def execute(I, c, nb, seed):
        try: o = C12.Out(I, c, nb)
        except PL.PilError as e: return str(e)
        w = witness(c, seed); fs = IO.fs(I)
        fs["c.wasm"] = IO.FileObj([0]); fs["in.json"] = IO.FileObj(list(b'{"x": ["1"]}')); fs.pop("c.cm", None)
        I.calc = c20.Calc(p, 2, w)
        r = I.unphi(I.invoke(X, [M.StrObj("in.json"), M.StrObj("c.wasm"), M.StrObj("c.pil"), M.StrObj("c.exec"), M.StrObj("c.cm")]))
        if r.v: return "the execution phase refuses the setup's file"
        if I.calc.sig != [c20.fnv1a("x") + (0, 1)]: return "the inputs reach the calculator as %s" % I.calc.sig
        g = C12.words(fs["c.cm"].f)
        if len(g) != 12 * o.N: return "%d words for twelve columns of %d rows" % (len(g), o.N)
        if any(x >= p for x in g): return "a word is not a canonical element"
        msg = None
        for unit_ in (F.Ri, 1):  # additions' coefficients in stored or canonical representation
            v = list(w)
            for a, b, ca, cb in o.adds: v.append((v[a] * ca + v[b] * cb) * unit_ % p)
            bad = None
            for r_ in range(o.N):
                for k in range(12):
                    s = o.smap[r_][k] if r_ < len(o.smap) else 0
                    x = v[s] if s else 0
                    if g[12 * r_ + k] != x: bad = bad or "row %d column %d is %d instead of %s = %d" % (r_, k, g[12 * r_ + k], "wire %d" % s if s else "nothing", x)
            if bad is None: break
            msg = msg or bad
        else: return msg
        # as the execution phase reads them the additions are what the generated gates demand
        if seed == 1 and o.adds:
            r = C12.denote(o, c, unit_)
            if r and "added wire" in r: return r
    cs = list(c22.circuits(ctx.tier))
    lin = [C12.Circ(1, 2, 9, [([], [], [(1, 2), (4, 7), (5, 1), (0, 9), (6, 1), (7, -1), (8, 2**63)])]),
        C12.Circ(0, 3, 12, [([(1, 3), (2, -1), (3, 2**40), (4, 1)], [(5, 1), (6, 2), (7, p - 5), (0, 4), (9, 9), (10, 10), (11, 11)], [(8, -1)])] * 2)]
    cs += [("sums over %d wires" % c.nw, c, 0) for c in lin]
    def job(cx, l):
        I = fresh(cx)
        for n, c, nb in l:
            for seed in (1, 2): cx.ob(where, "%s, witness %d" % (n, seed), execute, I, c, nb, seed)
    ctx.parallel(job, [cs[i::8] for i in range(8)])
    I = fresh(ctx)
    # word lists
    wd = "recursion/src/io_utils.rs"
    def word_list(ws):
        o = IO.fs(I)["v"] = IO.FileObj([])
        I.invoke("recursion::io_utils::write_vec_to_file", [Ref([IO.FileH(o, "v")], 0), M.SRef(list(ws), 0, len(ws))], ["std::fs::File"])
        r = I.unphi(I.invoke("recursion::io_utils::read_vec_from_file", [IO.FileH(IO.fs(I)["v"], "v")], ["std::fs::File"]))
        if r.v: return "what was written is refused"
        g = [M.conc(I, x) for x in M.items(r.f[0])]
        if g != list(ws): return "%s is read back as %s" % (ws, g)
    for ws in ([], [0], [1, 2, 3], [2**64 - 1, 2**63, 2**53 + 1, 0, p]): ctx.ob(wd, "%d words" % len(ws), word_list, ws)
    columns(ctx, I, F)
def columns(ctx, I, F):
    """column files: row-major words, one per cell"""
    where = "starky/src/polsarray.rs"; p = F.p; fs = IO.fs(I)
    def doc(n, shape):
        text = "namespace A(%d);\n" % n + "".join("    pol %s %s%s;\n" % (k, nm, "[%d]" % l if l else "") for k, nm, l in shape) + ("namespace B(%d);\n    pol constant z;\n    pol commit y;\n" % n)
        return PL.Pil(text, F)
    shapes = [[("constant", "a", 0), ("commit", "b", 0)], [("constant", "a", 3), ("commit", "b", 2), ("constant", "c", 0), ("commit", "d", 12)]]
    def trip(n, k, kind, cut):
        P = doc(n, shapes[k]); pil = I.tape.read("de_pil", P.doc())
        if isinstance(pil, Agg) and pil.ty is not None and I.types[pil.ty].get("p", "").endswith("Result"): pil = pil.f[0]
        np_ = P.n["commit" if kind == "Commit" else "constant"]
        T = next(i for i, t in enumerate(I.types) if t.get("p") == "starky::polsarray::PolKind" and t.get("v"))
        v = next(i for i, x in enumerate(I.types[T]["v"]) if (x["n"] if isinstance(x, dict) else x[0]) == kind)
        mk = lambda: [I.invoke("starky::polsarray::PolsArray::new", [Ref([pil], 0), Agg(T, v, [])])]
        vals = [[(7 + 11 * r + 1000 * c) if (r + c) % 5 else (p - 1 - r) for c in range(np_)] for r in range(n)]
        A = mk()
        for q, (kd, i0, ln, d) in P.decl.items():
            if kd != ("commit" if kind == "Commit" else "constant"): continue
            ns, nm = q.split(".")
            for j in range(ln or 1):
                for r in range(n): I.invoke("starky::polsarray::PolsArray::set_matrix", [Ref(A, 0), Ref([pil], 0), Ref([M.StrObj(ns)], 0), Ref([M.StrObj(nm)], 0), j, r, F.const(vals[r][i0 + j])])
        fs["p"] = IO.FileObj([])
        r = I.unphi(I.invoke("starky::polsarray::PolsArray::save", [Ref(A, 0), IO.FileH(fs["p"], "p")], ["std::fs::File"]))
        if r.v: return "saving fails"
        g = list(fs["p"].f); flat = [x for row in vals for x in row]
        if C12.words(g) != flat: return "the words written are not the columns row by row"
        if cut: fs["p"] = IO.FileObj(g[:len(g) - cut])
        B = mk()
        r = I.unphi(I.invoke("starky::polsarray::PolsArray::load", [Ref(B, 0), M.StrObj("p")]))
        if cut: return None if r.v else "a file cut %d bytes short is taken for complete" % cut
        if r.v: return "what was written is refused"
        for q, (kd, i0, ln, d) in P.decl.items():
            if kd != ("commit" if kind == "Commit" else "constant"): continue
            ns, nm = q.split(".")
            for j in range(ln or 1):
                for r in range(n):
                    x = FM.fe(I.invoke("starky::polsarray::PolsArray::get", [Ref(B, 0), Ref([pil], 0), Ref([M.StrObj(ns)], 0), Ref([M.StrObj(nm)], 0), j, r]), I=I)
                    if x.cval() != vals[r][i0 + j]: return "%s[%d] row %d is read back as %s instead of %d" % (q, j, r, x, vals[r][i0 + j])
    for n in (2, 8):
        for k in range(2):
            for kind in ("Commit", "Constant"):
                ctx.ob(where + " save / load", "%d rows, shape %d, %s" % (n, k, kind), trip, n, k, kind, 0)
                for cut in (1, 8, 12): ctx.ob(where + " load", "%d rows, shape %d, %s, %d bytes short" % (n, k, kind, cut), trip, n, k, kind, cut)
