from dom import *
from aeval import *
import models as M, fieldmodels as FM, wtns as W, serdemodels as S, iomodels as IO
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR by constant propagation over boundary values, the circuit's WebAssembly interface replaced by a recording stand-in of the shared-memory protocol; file contents compared with the format and read back by the analysed reader"
RULE = ("for every input the words placed in shared memory before each setInputSignal call are the value, least significant word at index 0, the signal is addressed by the two halves of the 64-bit FNV-1a hash of its name and by its position; the witness returned (as integers or as words) is the one the "
        "calculator exposes; the file written is the header, the field size, the modulus, the count and the elements in little-endian order, and the analysed readers read the same witness back.")
ASSUME = ["the WebAssembly runtime executes exported functions as the circom interface specifies", "values range over the enumerated boundary values of each word", "modulus fills the field size (as for the supported curves)"]
class Calc:
    """circom's witness calculator interface: shared words, signals and witness"""
    def __init__(self, prime, n32, wit, version=2):
        self.prime, self.n, self.wit, self.version = prime, n32, wit, version
        self.mem = [0xdeadbeef] * n32; self.sig = []; self.inits = []
    def put(self, v): self.mem = [(v >> (32 * i)) & 0xffffffff for i in range(self.n)]
    def get(self): return sum(w << (32 * i) for i, w in enumerate(self.mem))
    NAMES = "getFieldNumLen32 getRawPrime readSharedRWMemory writeSharedRWMemory setInputSignal getWitnessSize getWitness getVersion init".split()
    def call(self, name, a):
        if name == "getFieldNumLen32": return self.n
        if name == "getRawPrime": self.put(self.prime); return None
        if name == "readSharedRWMemory":
            if a[0] >= self.n: raise Undecided("word %d of shared memory is read" % a[0])
            return self.mem[a[0]]
        if name == "writeSharedRWMemory":
            if a[0] >= self.n: raise Undecided("word %d of shared memory is written" % a[0])
            self.mem[a[0]] = a[1]; return None
        if name == "setInputSignal": self.sig.append((a[0], a[1], a[2], self.get())); return None
        if name == "getWitnessSize": return len(self.wit)
        if name == "getWitness": self.put(self.wit[a[0]]); return None
        if name == "getVersion": return self.version
        if name == "init": self.inits.append(a[0]); self.sig = []; return None
        raise Undecided("calculator function " + name)
def install(I):
    """stand-ins for the WebAssembly runtime; I.calc is the circuit being run"""
    opq = lambda n: (lambda J, a, c: M.Opaque(n))
    okq = lambda n: (lambda J, a, c: M.ok(M.Opaque(n)))
    def none(J, a, c): return unit()
    H = {"<wasmer::store::Store as core::default::Default>::default": opq("store"), "<wasmer::externals::memory::Memory as core::clone::Clone>::clone": opq("memory"),
        "wasmer::exports::Exports::new": opq("exports"), "wasmer::imports::Imports::new": opq("imports"), "wasmer::exports::Exports::insert": none, "wasmer::imports::Imports::register_namespace": none,
        "wasmer::externals::memory::Memory::new": okq("memory"), "wasmer_types::types::MemoryType::new": opq("memory type"), "wasmer::module::Module::from_file": okq("module"), "wasmer::module::Module::new": okq("module")}
    H["wasmer::externals::function::Function::new_typed"] = opq("host function")
    inst = lambda J, a, c: M.ok(Agg(None, 0, [M.Opaque("exports") for _ in range(8)]))
    H["wasmer::instance::Instance::new"] = inst
    H["wasmer::exports::Exports::get_function"] = lambda J, a, c: M.ok(Ref([M.Opaque(M.cstr(M.deref(a[1])))], 0)) if M.cstr(M.deref(a[1])) in Calc.NAMES else M.err(M.Opaque("missing export"))
    def call(J, a, c):
        import aeval
        if aeval.J: raise Undecided("calculator called under an undecided condition")
        v = [M.conc(I, I.unphi(x).f[0]) & 0xffffffff for x in M.items(M.deref(a[2]))]
        r = I.calc.call(M.deref(a[0]).name, v)
        t = None if r is None else Agg(None, 0, [r - 2**32 if r >> 31 else r])
        return M.ok(M.Vec([] if t is None else [t]))
    H["wasmer::externals::function::Function::call"] = call
    H["wasmer::value::Value::unwrap_i32"] = H["wasmer_types::value::Value::unwrap_i32"] = lambda J, a, c: M.deref(a[0]).f[0]
    I.hooks.update(H)
def fnv1a(s):
    h = 0xcbf29ce484222325
    for b in s.encode(): h = ((h ^ b) * 0x100000001b3) & (2**64 - 1)
    return h >> 32, h & 0xffffffff
def run(ctx):
    I = ctx.interp(("SBLS", "EBN", "EBLS"), "wrap"); S.install(I); install(I)
    for R, root in zip(W.readers(I), ("gpu", "bn", "bls")):
        P = "vroots::wc::%s::" % root; where = R.file + "witness/witness_calculator.rs "; p = R.F.p; n32 = 8
        def opened(c):
            I.calc = c; return [I.invoke(P + "open", [M.StrObj("circuit.wasm")])]
        def vals():
            r = {0, 1, 2, 255, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64 - 1, 2**64, 2**96, 2**128 - 1, 2**160 + 7, 2**192, 2**224 - 1, 2**224, p - 1, p - 2, 0x0123456789abcdef0011223344556677, p >> 1, (1 << 253) + 5}
            return sorted(v for v in r if v < p)
        def inputs(pairs):
            c = Calc(p, n32, [1]); s = opened(c)
            I.invoke(P + "calc", [Ref(s, 0), M.Vec([Agg(None, 0, [M.StrObj(n), M.Vec([v for v in vs])]) for n, vs in pairs]), True])
            want = [fnv1a(n) + (i, v) for n, vs in pairs for i, v in enumerate(vs)]
            for i, (g, x) in enumerate(zip(c.sig, want)):
                if g[:2] != x[:2]: return "signal %s is addressed as %08x:%08x instead of %08x:%08x" % (next(n for n, vs in pairs if fnv1a(n) == x[:2]), *g[:2], *x[:2])
                if g[2] != x[2]: return "position %d is used for position %d" % (g[2], x[2])
                if g[3] != x[3]: return "the calculator is given %d for %d" % (g[3], x[3])
            if len(c.sig) != len(want): return "%d signals are set instead of %d" % (len(c.sig), len(want))
        for v in vals(): ctx.ob(where + "calculate_witness", "%s: input %d" % (R.fname, v), inputs, [("in", [v])])
        ctx.ob(where + "calculate_witness", R.fname + ": several signals", inputs, [("a", [1, 2, 3]), ("", []), ("main.b[0]", [2**64]), ("x" * 40, [0, p - 1]), ("é", [5])])
        ctx.ob(where + "calculate_witness", R.fname + ": no signal", inputs, [])
        def witness(ws):
            c = Calc(p, n32, ws); s = opened(c)
            g = [M.conc(I, x) for x in M.items(I.invoke(P + "calc", [Ref(s, 0), M.Vec([]), True]))]
            if g != ws: return "the witness %s is reported as %s" % (ws, g)
            h = [M.conc(I, x) for x in M.items(I.invoke(P + "calc_bin", [Ref(s, 0), M.Vec([]), True]))]
            x = [(v >> 32 * i) & 0xffffffff for v in ws for i in range(n32)]
            if h != x: return "the words of the witness %s are reported as %s" % (ws, h)
        ctx.ob(where + "calculate_witness", R.fname + ": witness values", witness, vals())
        for ws in ([], [1], [1, 2**32 - 1, 2**31]): ctx.ob(where + "calculate_witness", "%s: %d witness values" % (R.fname, len(ws)), witness, ws)
        def sanity(b):
            c = Calc(p, n32, [1]); s = opened(c)
            I.invoke(P + "calc", [Ref(s, 0), M.Vec([]), b])
            if not c.inits or any(x != int(b) for x in c.inits): return "sanity check %s reaches the calculator as %s" % (b, c.inits)
        for b in (True, False): ctx.ob(where + "calculate_witness", "%s: sanity check %s" % (R.fname, b), sanity, b)
        def file(ws, version, direct):
            c = Calc(p, n32, ws, version); s = opened(c)
            x = [(v >> 32 * i) & 0xffffffff for v in ws for i in range(n32)]
            IO.fs(I).pop("w", None)
            if direct:
                o = IO.fs(I)["w"] = IO.FileObj([]); I.invoke(P + "save", [Ref(s, 0), IO.FileH(o, "w"), Ref([M.Vec(list(x))], 0)])
            else: I.invoke(P + "save_to", [Ref(s, 0), M.StrObj("w"), Ref([M.Vec(list(x))], 0)])
            g = list(IO.fs(I)["w"].f)
            want = list(b"wtns") + W.le(version, 4) + W.le(2, 4) + W.le(1, 4) + W.le(40, 8) + W.le(32, 4) + W.le(p, 32) + W.le(len(ws), 4) + W.le(2, 4) + W.le(32 * len(ws), 8) + [b for v in ws for b in W.le(v, 32)]
            if g != want:
                k = next((i for i, (a, b) in enumerate(zip(g, want)) if a != b), min(len(g), len(want)))
                return "the file differs from the format at byte %d of %d (written %d)" % (k, len(want), len(g))
            if version in (1, 2): return back(g, ws)
        def back(g, ws):
            r = reader(I, R, g)
            if r is not None and r != ws: return "the reader takes the file as another witness: %s" % (r,)
        for ws in ([1], [1] + vals(), [1, 0, 0]):
            for direct in (True, False): ctx.ob(where + "save_witness_from_bin_writer", "%s: %d values, %s" % (R.fname, len(ws), "writer" if direct else "file"), file, ws, 2, direct)
        ctx.ob(where + "save_witness_from_bin_writer", R.fname + ": version 1", file, [1, 5], 1, False)
        def load(text, want):
            IO.fs(I)["in.json"] = IO.FileObj(list(text.encode()))
            r = I.invoke(P + "inputs", [M.StrObj("in.json")])
            g = {M.cstr(kv[0]): [M.conc(I, x) for x in M.items(kv[1])] for kv in M.map_sorted(r)} if False else {M.cstr(v[0]): [M.conc(I, x) for x in M.items(v[1])] for v in r.d.values()}
            if g != want: return "inputs %s are read as %s" % (text, g)
        big = str(p - 1)
        for text, want in (('{"a": 3}', {"a": [3]}), ('{"a": "%s", "b": true, "c": false}' % big, {"a": [p - 1], "b": [1], "c": [0]}), ('{"a": [1, "2", [3, ["4", true], []]], "b": []}', {"a": [1, 2, 3, 4, 1], "b": []}), ('{"a": 18446744073709551615, "b": "0"}', {"a": [2**64 - 1], "b": [0]})):
            ctx.ob(R.file + "witness/mod.rs load_input_for_witness", "%s: %s" % (R.fname, text), load, text, want)
        import json
        atoms = (0, 7, 2**53 + 1, "5", big, True, False, [], [8, "9"], [[False], True, "3"])
        def flat(x): return [v for y in x for v in flat(y)] if isinstance(x, list) else [int(x)]
        docs = [{"s": x} for x in atoms if not isinstance(x, bool) or True] + [{"s": [x, y]} for x in atoms for y in atoms] + [{"s": [4, [x, 6]], "t": [y]} for x, y in zip(atoms, atoms[1:] + atoms[:1])]
        docs += [{"s": ["21", x, x, "22"]} for x in atoms]
        for d in docs:
            ctx.ob(R.file + "witness/mod.rs load_input_for_witness", "%s: %s" % (R.fname, json.dumps(d)), load, json.dumps(d), {k: flat(v) for k, v in d.items()})
def reader(I, R, data):
    o, v = W.outcome(lambda: I.unphi(I.invoke(R.c + "::reader::load_witness_from_bin_reader", [R.h(data)], [R.engine, "std::fs::File"])))
    return [FM.fe(x, I=I).cval() for x in M.items(v)] if o == "ok" else "refused"
