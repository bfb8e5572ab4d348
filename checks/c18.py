from dom import *
from aeval import *
import models as M, fieldmodels as FM, iomodels as IO, wtns as W, serdemodels as S
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR: the reader on a file of symbolic elements, every truncation point and every corrupted header word"
RULE = ("load_witness_from_bin_reader, evaluated on a file whose elements are symbolic field elements, must return exactly the announced elements in order; on every proper prefix of the file, every single-bit change of each header word, every non-canonical "
        "representation in every position and every other field's modulus it must return an error (not fewer elements, not another outcome). The file-name entry points reach that reader or the text reader, and stop on a refusal.")
ASSUME = ["numbers of elements: the enumerated ones (the loop body is the same for each)"]
def build(R, els, magic=b"wtns", version=2, nsec=2, t1=1, size1=None, fs=None, prime=None, n=None, t2=2, size2=None):
    n = len(els) if n is None else n
    fs = R.n if fs is None else fs
    out = list(magic) + W.le(version, 4) + W.le(nsec, 4) + W.le(t1, 4) + W.le(8 + R.n if size1 is None else size1, 8) + W.le(fs, 4)
    out += W.le(R.F.p if prime is None else prime, R.n) + W.le(n, 4) + W.le(t2, 4) + W.le(n * R.n if size2 is None else size2, 8)
    for e in els: out += W.felt(e, R.n) if isinstance(e, FE) else W.le(e, R.n)
    return out
def run(ctx):
    I = ctx.interp(("SBLS", "EBN", "EBLS"), "wrap"); S.install(I)
    for R in W.readers(I):
        path = R.c + "::reader::load_witness_from_bin_reader"; where = R.file + "reader.rs load_witness_from_bin_reader"
        def read(data):
            return W.outcome(lambda: I.unphi(I.invoke(path, [R.h(data)], [R.engine, "std::fs::File"])))
        def good(k, version, read=read):
            els = [R.F.var("w%d" % i) for i in range(k)]
            o, v = read(build(R, els, version=version))
            if o != "ok": return "a well-formed file of %d elements is refused" % k
            return same(I, v, els)
        for k in (0, 1, 2, 3, 7) if ctx.tier == "quick" else (0, 1, 2, 3, 4, 7, 8, 16, 33, 64):
            ctx.ob(where, "%s: %d symbolic elements" % (R.fname, k), good, k, 2)
        ctx.ob(where, "%s: version 1" % R.fname, good, 2, 1)
        def edge():
            els = [0, R.F.p - 1, 1, R.F.p >> 1]
            o, v = read(build(R, els))
            if o != "ok": return "canonical boundary elements are refused"
            return same(I, v, [R.F.const(x) for x in els])
        ctx.ob(where, R.fname + ": boundary elements", edge)
        def refuse(data, what):
            o, v = read(data)
            if o == "ok": return "%s: read as %d elements" % (what, len(M.items(v)))
            if o == "panic": return "%s: panics (%s)" % (what, v)
        els = [R.F.var("w%d" % i) for i in range(3)]
        full = build(R, els)
        for cut in range(len(full)):
            ctx.ob(where + " truncated", "%s: first %d of %d bytes" % (R.fname, cut, len(full)), refuse, full[:cut], "a file cut after %d bytes" % cut)
        for i in range(4):
            for b in range(8):
                m = bytearray(b"wtns"); m[i] ^= 1 << b
                ctx.ob(where + " magic", "%s: byte %d bit %d" % (R.fname, i, b), refuse, build(R, els, magic=bytes(m)), "a wrong magic number")
        for name, dflt, bits in (("version", 2, 32), ("nsec", 2, 32), ("t1", 1, 32), ("size1", 8 + R.n, 64), ("fs", R.n, 32), ("t2", 2, 32), ("size2", 3 * R.n, 64)):
            alts = [dflt ^ (1 << b) for b in range(bits)] + [dflt + 1, dflt - 1]
            if name == "version": alts = [x for x in alts if x > 2]
            for x in sorted(set(alts)):
                ctx.ob(where + " " + name, "%s: %d" % (R.fname, x), refuse, build(R, els, **{name: x}), "%s %d" % (name, x))
        for b in range(8 * R.n):
            ctx.ob(where + " modulus", "%s: bit %d" % (R.fname, b), refuse, build(R, els, prime=R.F.p ^ (1 << b)), "a modulus differing in bit %d" % b)
        for o in (FM.BN_P, FM.BLS_P, FM.BN_Q, 2**255 - 19):
            if o != R.F.p: ctx.ob(where + " modulus", "%s: another field's" % R.fname, refuse, build(R, els, prime=o), "another field's modulus")
        for n, s2 in ((2**27, 0), (2**27 + 3, 3 * R.n), (2**31, 0), (4, 3 * R.n), (2, 3 * R.n), (0, 3 * R.n), (3, 0)):
            ctx.ob(where + " count", "%s: %d elements in a section of %d bytes" % (R.fname, n, s2), refuse, build(R, els, n=n, size2=s2), "%d elements announced in a section of %d bytes" % (n, s2))
        ctx.ob(where + " count", "%s: a section longer than the file" % R.fname, refuse, build(R, els, n=4), "a fourth element announced but absent")
        for pos in range(3):
            for v in (R.F.p, R.F.p + 1, 2**256 - 1, 2**255, R.F.p + 2**64):
                l = list(els); l[pos] = v
                ctx.ob(where + " non-canonical", "%s: position %d" % (R.fname, pos), refuse, build(R, l), "element %d not below the modulus" % pos)
        # entry points
        arr = R.c + "::reader::load_witness_from_array"
        def array(data, bad):
            o, v = W.outcome(lambda: I.unphi(I.invoke(arr, [M.Vec(list(data))], [R.engine])))
            if bad: return "a malformed array is read" if o == "ok" else None
            return same(I, v, els) if o == "ok" else "a well-formed array is refused"
        ctx.ob(R.file + "reader.rs load_witness_from_array", R.fname, array, full, False)
        for cut in (0, 10, 60, len(full) - 1): ctx.ob(R.file + "reader.rs load_witness_from_array", "%s: cut after %d bytes" % (R.fname, cut), array, full[:cut], True)
        def named(name, content, bad, fn="load_witness_from_file"):
            IO.fs(I).clear()
            if content is not None: IO.fs(I)[name] = IO.FileObj(content)
            try: v = I.unphi(I.invoke(R.c + "::reader::" + fn, [Ref([M.StrObj(name)], 0)], [R.engine]))
            except Panic: return None if bad else "a well-formed file is refused"
            if bad: return "a malformed or missing file is read"
            return same(I, v, els)
        text = [S.to_text([S.Str(S.dec(FM.canon(e)).s) for e in els])]
        w2 = R.file + "reader.rs load_witness_from_file"
        ctx.ob(w2, R.fname + ": binary", named, "a.wtns", full, False)
        ctx.ob(w2, R.fname + ": text", named, "a.json", text, False)
        ctx.ob(w2, R.fname + ": binary, missing", named, "a.wtns", None, True)
        ctx.ob(w2, R.fname + ": text, missing", named, "a.json", None, True)
        ctx.ob(w2, R.fname + ": binary, cut", named, "a.wtns", full[:-1], True)
        ctx.ob(w2, R.fname + ": text, cut", named, "a.json", list(b'["1","2"'), True)
        ctx.ob(w2, R.fname + ": text, no number", named, "a.json", list(b'["1","x"]'), True)
        ctx.ob(R.file + "reader.rs load_witness_from_bin_file", R.fname, named, "a.json", full, False, "load_witness_from_bin_file")
        ctx.ob(R.file + "reader.rs load_witness_from_json_file", R.fname, named, "a.wtns", text, False, "load_witness_from_json_file")
def same(I, v, els):
    l = M.items(I.unphi(v))
    if len(l) != len(els): return "%d elements are returned instead of %d" % (len(l), len(els))
    for i, (g, w) in enumerate(zip(l, els)):
        if FM.fe(g, I=I).d != w.d: return "element %d is not the stored one" % i
