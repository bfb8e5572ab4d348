"""Every option of the command-line programs reaches the library parameter of that meaning."""
import json, os, re, subprocess
from dom import *
from aeval import *
import core, models as M, serdemodels as S
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR: the derived option declarations, the derived conversions and the dispatch evaluated on argument lists that give every option its own value, library calls recorded"
RULE = ("every subcommand declares each documented option once; when all options are given distinct values, and when each optional one is left out, the library function of that subcommand is called once, "
        "with every parameter (by its name) holding the value of the option that documents it or that option's default; a library error ends in a non-zero exit status and success does not")
ASSUME = ["clap matches long and short options, defaults, flags and repeated options as documented", "signature stubs stand for the circom crates, which are not available here"]
NOTE = "the option letters and the meaning of each are the documented ones (README, test and recursion scripts)"
CB = "clap_builder::builder::"
ACTS = ["Set", "Append", "SetTrue", "SetFalse", "Count", "Help", "HelpShort", "HelpLong", "Version"]
class Opt:
    def __init__(self, id): self.id = id; self.short = self.long = None; self.required = False; self.default = None; self.act = None
    def takes(self): return self.act in (None, "Set", "Append")
class Cmd:
    def __init__(self, name): self.name = name; self.opts = []; self.subs = []; self.subreq = False
    def find(self, n): return next((s for s in self.subs if s.name == n), None)
class Matches:
    def __init__(self): self.v = {}; self.sub = None
class Exit(Exception):
    def __init__(self, n): self.n = n
class Usage(Exception): pass
def opq(o): return M.Opaque("clap", [o])
def un(x):
    x = M.deref(x)
    if type(x) is M.Opaque and x.name == "clap": return x.f[0]
    raise Undecided("not a clap value: %r" % (x,))
def text(I, x):
    x = I.unphi(M.deref(x))
    while isinstance(x, Agg) and len(x.f) == 1: x = I.unphi(M.deref(x.f[0]))
    return M.cstr(x)
def parse(cmd, argv):
    """the matches of an argument list"""
    m = Matches(); i = 0; flags = {}
    for o in cmd.opts:
        if o.short: flags["-" + o.short] = o
        if o.long: flags["--" + o.long] = o
    given = {}
    while i < len(argv):
        a = argv[i]; i += 1
        key, eq, val = a.partition("=") if a.startswith("--") else (a, "", None)
        o = flags.get(key)
        if o is None:
            s = cmd.find(a)
            if s is None: raise Usage("unexpected argument %s" % a)
            m.sub = (s.name, parse(s, argv[i:])); break
        if not o.takes():
            if eq: raise Usage("value for flag %s" % key)
            given.setdefault(o.id, []).append(None); continue
        if not eq:
            if i >= len(argv): raise Usage("no value for %s" % key)
            val = argv[i]; i += 1
        given.setdefault(o.id, []).append(val)
    for o in cmd.opts:
        g = given.get(o.id)
        if not o.takes():
            if o.act not in ("SetTrue", "SetFalse"): 
                if o.act in ("Help", "HelpShort", "HelpLong", "Version"): continue
                raise Undecided("action %s" % o.act)
            m.v[o.id] = [(o.act == "SetTrue") == bool(g)]
            continue
        if g and len(g) > 1 and o.act != "Append": raise Usage("%s given twice" % o.id)
        if g: m.v[o.id] = g
        elif o.required: raise Usage("%s is required" % o.id)
        elif o.default is not None: m.v[o.id] = [o.default]
    if m.sub is None and cmd.subreq: raise Usage("a subcommand is required")
    return m
def install(I, sess):
    H = I.hooks
    def opt(f):
        def h(J, a, c):
            o = un(a[0]); f(J, o, a, c); return a[0]
        return h
    nop = opt(lambda J, o, a, c: None)
    def resettable(J, v):
        v = J.unphi(v)
        if isinstance(v, Agg) and v.v in (0, 1) and len(v.f) <= 1: raise Undecided("resettable value")
        return v
    A = CB + "arg::Arg::"
    H[A + "new"] = lambda J, a, c: opq(Opt(text(J, a[0])))
    H[A + "short"] = opt(lambda J, o, a, c: setattr(o, "short", chr(M.conc(J, resettable(J, a[1])))))
    H[A + "long"] = opt(lambda J, o, a, c: setattr(o, "long", text(J, a[1])))
    H[A + "required"] = opt(lambda J, o, a, c: setattr(o, "required", bool(M.conc(J, a[1]))))
    H[A + "default_value"] = opt(lambda J, o, a, c: setattr(o, "default", text(J, a[1])))
    H[A + "action"] = opt(lambda J, o, a, c: setattr(o, "act", ACTS[J.unphi(a[1]).v]))
    for n in "value_name help long_help hide value_parser help_heading display_order next_line_help value_hint hide_default_value hide_possible_values".split(): H[A + n] = nop
    C = CB + "command::Command::"
    H[C + "new"] = lambda J, a, c: opq(Cmd(text(J, a[0])))
    H[C + "name"] = opt(lambda J, o, a, c: setattr(o, "name", text(J, a[1])))
    H[C + "arg"] = opt(lambda J, o, a, c: o.opts.append(un(a[1])))
    H[C + "subcommand"] = opt(lambda J, o, a, c: o.subs.append(un(a[1])))
    H[C + "subcommand_required"] = opt(lambda J, o, a, c: setattr(o, "subreq", bool(M.conc(J, a[1]))))
    for n in "group about long_about version author arg_required_else_help propagate_version after_help before_help term_width long_version display_name".split(): H[C + n] = nop
    def conv_id(J, a, c):
        t = str(J.types[c["a"][0]]) if c.get("a") else ""
        return a[0] if "clap_builder::util::id::Id" in t or "clap_builder::builder::str::Str" in t else NotImplemented
    H["core::convert::From::from"] = H["core::convert::Into::into"] = conv_id
    G = CB + "arg_group::ArgGroup::"
    H[G + "new"] = lambda J, a, c: opq(None)
    H[G + "multiple"] = H[G + "args"] = lambda J, a, c: a[0]
    H[CB + "action::ArgAction::takes_values"] = lambda J, a, c: ACTS[J.unphi(M.deref(a[0])).v] in ("Set", "Append")
    H[CB + "value_parser::_infer_ValueParser_for::<T>::new"] = lambda J, a, c: opq(None)
    for n in ("_impls_ValueParserFactory", "_impls_FromStr", "_impls_From_str", "_impls_ValueEnum", "_impls_Into_ValueParser"):
        H[CB + "value_parser::impl_prelude::%s::value_parser" % n] = lambda J, a, c: opq(None)
    AM = "clap_builder::parser::matches::arg_matches::ArgMatches::"
    def conv(J, tid, v):
        t = J.types[tid]; k = t.get("k"); n = t.get("p") or t.get("n") or t.get("s") or ""
        if isinstance(v, bool): return v
        if k in ("uint", "int", "u", "i") or n in ("u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "isize"): return int(v)
        if n.endswith("String") or "alloc::string::String" in str(t): return M.StrObj(v)
        if n.endswith("PathBuf") or "PathBuf" in str(t): return M.StrObj(v)
        raise Undecided("option of type %s" % (t,))
    def take(J, a, c):
        m = un(a[0]); v = m.v.pop(text(J, a[1]), None)
        return M.none() if v is None else M.some(conv(J, c["a"][0], v[0]))
    def get(J, a, c):
        m = un(a[0]); v = m.v.get(text(J, a[1]))
        return M.none() if v is None else M.some(Ref([conv(J, c["a"][0], v[0])], 0))
    def many(J, a, c):
        m = un(a[0]); v = m.v.pop(text(J, a[1]), None)
        if v is None: return M.none()
        l = [conv(J, c["a"][0], x) for x in v]
        return M.some(Seq(len(l), lambda i: l[i]))
    H[AM + "remove_one"] = take; H[AM + "get_one"] = get; H[AM + "remove_many"] = many
    H[AM + "get_flag"] = lambda J, a, c: un(a[0]).v[text(J, a[1])][0]
    H[AM + "contains_id"] = lambda J, a, c: text(J, a[1]) in un(a[0]).v
    def rsub(J, a, c):
        m = un(a[0])
        if m.sub is None: return M.none()
        n, s = m.sub; m.sub = None
        return M.some(Agg(None, 0, [M.StrObj(n), opq(s)]))
    H[AM + "remove_subcommand"] = rsub
    H["clap_builder::error::Error::<F>::raw"] = lambda J, a, c: M.Opaque("usage error")
    def parse_(J, a, c):
        t = J.types[c["a"][0]]; p = t.get("p") or t.get("n")
        sess["cli"] = p
        v = J.unphi(J.invoke("<%s as clap_builder::derive::FromArgMatches>::from_arg_matches_mut" % p, [Ref([opq(parse(tree(J, p), sess["argv"]))], 0)]))
        if v.v != 0: raise Usage("the derived conversion fails")
        return v.f[0]
    H["clap_builder::derive::Parser::parse"] = parse_
    H["env_logger::logger::init"] = H["env_logger::init"] = lambda J, a, c: unit()
    H["std::time::Instant::now"] = H["std::time::Instant::elapsed"] = lambda J, a, c: M.Opaque("time")
    H["core::time::Duration::as_secs_f64"] = lambda J, a, c: M.Opaque("seconds")
    H["std::io::stdio::_print"] = H["std::io::stdio::_eprint"] = lambda J, a, c: unit()
    def ex(J, a, c): raise Exit(M.conc(J, a[0]))
    H["std::process::exit"] = ex
def tree(I, p): return un(I.invoke("<%s as clap_builder::derive::CommandFactory>::command" % p, []))
# subcommand -> library function, and for each of its parameters the option with that meaning
V, F, L = "value", "flag", "list"
TABLE = {
 "compile": ("dsl_compile::circom_compiler", {"input": ("-i", V), "prime": ("-p", V), "full_simplification": ("--O2", V), "link_directories": ("-l", L), "output": ("-o", V),
             "no_simplification": ("--O0", F), "reduced_simplification": ("--O1", F)}),
 "generate_verifier": ("groth16::api::generate_verifier", {"vk_file_path": ("-v", V), "sol_file_path": ("-s", V)}),
 "stark_prove": ("starky::prove::stark_prove", {"stark_struct": ("-s", V), "pil_file": ("-p", V), "norm_stage": ("-n", F), "skip_main": ("--skip_main", F), "agg_stage": ("-a", F),
             "const_pol_file": ("--o", V), "cm_pol_file": ("--m", V), "circom_file": ("-c", V), "zkin": ("--i", V), "prover_addr": ("--prover_addr", V)}),
 "compressor12_setup": ("recursion::compressor12::compressor12_setup::setup", {"r1cs_file": ("--r", V), "pil_file": ("--p", V), "const_file": ("--c", V), "exec_file": ("--e", V), "force_n_bits": ("--force-n-bits", V)}),
 "compressor12_exec": ("recursion::compressor12::compressor12_exec::exec", {"input_file": ("--i", V), "wasm_file": ("--w", V), "pil_file": ("--p", V), "exec_file": ("--e", V), "commit_file": ("--m", V)}),
 "join_zkin": ("starky::zkin_join::join_zkin", {"zkin1": ("--zkin1", V), "zkin2": ("--zkin2", V), "zkout": ("--zkinout", V)}),
 "groth16_setup": ("groth16::api::groth16_setup", {"curve_type": ("-c", V), "circuit_file": ("--r1cs", V), "pk_file": ("-p", V), "vk_file": ("-v", V), "to_hex": ("-t", F)}),
 "groth16_prove": ("groth16::api::groth16_prove", {"curve_type": ("-c", V), "circuit_file": ("--r1cs", V), "wtns_file": ("-w", V), "pk_file": ("-p", V), "input_file": ("-i", V),
             "public_input_file": ("--public-input", V), "proof_file": ("--proof", V), "to_hex": ("-t", F)}),
 "groth16_verify": ("groth16::api::groth16_verify", {"curve_type": ("-c", V), "vk_file": ("-v", V), "public_input_file": ("--public-input", V), "proof_file": ("--proof", V)}),
}
ALIAS = {"-s": "--stark_stuct", "-p": "--piljson", "-n": "--norm_stage", "-a": "--agg_stage", "-c": "--circom"}       # stark_prove
EXTRA = {"generate_verifier": ["-p", "groth16"]}
LOWER = {("compile", "prime")}
NUM = {("compressor12_setup", "force_n_bits")}
DEFAULT = {("compile", "full_simplification"): "full", ("compile", "prime"): "bn128"}
def conc(I, x):
    x = I.unphi(M.deref(x))
    if isinstance(x, (bool, int)): return x
    if isinstance(x, M.Vec): return [conc(I, y) for y in x.f]
    try: return text(I, x)
    except Undecided: raise
def value(sub, par, flag, n): return (1000 + n) if (sub, par) in NUM else "Val-%s-%d" % (flag.strip("-"), n)
def run(ctx):
    ctx.count("subcommands", len(TABLE))
    def mk(err=False):
        I = ctx.interp((), "wrap"); S.install(I)
        sess = {"argv": [], "calls": []}
        install(I, sess)
        for sub, (fn, _) in TABLE.items():
            def h(J, a, c, fn=fn):
                import aeval
                if aeval.J: raise Undecided("%s is called under an undecided condition" % fn)
                sess["calls"].append((fn, [conc(J, x) for x in a]))
                return M.err(M.Opaque("library error")) if err else M.ok(unit())
            I.hooks[fn] = h
        return I, sess
    def params(I, fn):
        f = next((f for f in I.mir.fns if f["p"] == fn), None)
        if f is None: raise Undecided("no function " + fn)
        r = {}
        for n, (l, pr) in f["names"].items():
            if not pr and 1 <= l <= f["argc"]: r[l - 1] = n
        r = [r.get(i) for i in range(f["argc"])]
        if None in r:       # the body shadows the name: read the declaration
            rel, line = f["span"].rsplit(":", 1)
            t = "\n".join(ctx.src(rel).split("\n")[int(line) - 1:])
            t = t[t.index("("):]; d = e = 0
            for e, ch in enumerate(t):
                d += ch in "([{<"; d -= ch in ")]}>"
                if d == 0: break
            l, cur, d = [], "", 0
            for ch in re.sub(r"//.*", "", t[1:e]):
                d += ch in "([{<"; d -= ch in ")]}>"
                if ch == "," and d == 0: l.append(cur); cur = ""
                else: cur += ch
            if cur.strip(): l.append(cur)
            l = [x.split(":")[0].replace("mut ", "").strip().lstrip("_") for x in l]
            if len(l) != f["argc"]: raise Undecided("the declaration of " + fn)
            r = [a or b for a, b in zip(r, l)]
        return r
    def main(argv, err=False):
        I, sess = mk(err); sess["argv"] = argv
        try:
            r = I.unphi(I.invoke("eigen_zkit::main", []))
            status = 1 if isinstance(r, Agg) and r.v == 1 and r.f else 0
        except Exit as e: status = e.n % 256
        except Panic as e: status = 101
        return I, sess["calls"], status
    FILE = "zkit/src/main.rs "
    for sub, (fn, pars) in TABLE.items():
        fl = [(p, f, k) for p, (f, k) in pars.items()]
        def argv(skip=(), alias=False):
            r = [sub] + list(EXTRA.get(sub, []))
            for n, (p, f, k) in enumerate(fl):
                if p in skip: continue
                g = ALIAS.get(f, f) if alias else f
                if k == F: r.append(g)
                elif k == L: r += [g, "Dir-1", g, "Dir-2"]
                else: r += [g, str(value(sub, p, f, n))]
            return r
        def want(skip=()):
            w = {}
            for n, (p, f, k) in enumerate(fl):
                if p in skip: w[p] = False if k == F else [] if k == L else None
                elif k == F: w[p] = True
                elif k == L: w[p] = ["Dir-1", "Dir-2"]
                else:
                    v = value(sub, p, f, n); w[p] = v.lower() if (sub, p) in LOWER else v
            return w
        def calls(av, w, exact=True):
            I, cs, st = main(av)
            names = params(I, fn)
            if set(names) != set(pars): raise Undecided("the parameters of %s are %s" % (fn, names))
            if len(cs) != 1 or cs[0][0] != fn: return "'%s' makes the library calls %s" % (" ".join(av), [c[0] for c in cs])
            for n, g in zip(names, cs[0][1]):
                if w[n] is not None and g != w[n]: return "'%s': parameter %s of %s is %r, not %r" % (" ".join(av), n, fn, g, w[n])
            if st != 0: return "'%s' succeeds but the process exits with status %d" % (" ".join(av), st)
            return cs[0][1], names
        def full(alias=False):
            r = calls(argv(alias=alias), want())
            return r if isinstance(r, str) else None
        def usage():
            try: return full()
            except Usage as e: return "the documented options of %s are refused: %s" % (sub, e)
        ctx.ob(FILE + sub, "every option given", usage)
        if sub == "stark_prove":
            def al():
                try: return full(True)
                except Usage as e: return "the documented long options are refused: %s" % e
            ctx.ob(FILE + sub, "long names", al)
        def opts():
            I, sess = mk()
            p = "eigen_zkit::Cli"
            c = tree(I, p); s = c.find(sub)
            if s is None: return "there is no subcommand %s" % sub
            seen = {}
            for o in s.opts:
                if o.short is None and o.long is None: return "option %s has no flag: it is a positional argument" % o.id
                for k in (o.short and "-" + o.short, o.long and "--" + o.long):
                    if k and k in seen: return "%s is declared for %s and %s" % (k, seen[k], o.id)
                    if k: seen[k] = o.id
        ctx.ob(FILE + sub, "option letters are distinct", opts)
        for p, f, k in fl:
            def without():
                try: r = calls(argv(skip=(p,)), want((p,)))
                except Usage as e:
                    # a mandatory option: refusing is right
                    return None if k == V else "%s cannot be left out of %s" % (f, sub)
                if isinstance(r, str): return r
                if k != V: return None
                g = r[0][r[1].index(p)]
                I, _ = mk(); s = tree(I, "eigen_zkit::Cli").find(sub)
                o = next((o for o in s.opts if f in ("-" + (o.short or ""), "--" + (o.long or ""))), None)
                if o is None: return "no option %s" % f
                d = o.default
                if (sub, p) in LOWER and d is not None: d = d.lower()
                if (sub, p) in NUM and d is not None: d = int(d)
                if g != d: return "without %s, parameter %s is %r and not the declared default %r" % (f, p, g, d)
            ctx.ob(FILE + sub, "without " + f, without)
        def fails():
            I, cs, st = main(argv(), True)
            if len(cs) != 1: return "%d library calls" % len(cs)
            if st == 0: return "the library fails and the process exits with status 0"
        ctx.ob(FILE + sub, "library error", fails)
    def other():
        I, cs, st = main(["generate_verifier", "-p", "plonk"])
        if cs: return "another protocol makes the library calls %s" % [c[0] for c in cs]
        if st == 0: return "another protocol succeeds"
    ctx.ob(FILE + "generate_verifier", "another protocol", other)
    ctx.ob("recursion-gnark cli", "options to the Go program", lambda: gnark(ctx))
def gnark(ctx):
    """the arguments of the recursion command, through the C boundary, to the parameters of the Go function"""
    e = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOCACHE=os.path.join(core.VERIF, ".cache", "gocache"), GO111MODULE="on", CGO_ENABLED="0", HOME=os.environ.get("HOME", "/root"))
    exe = os.path.join(core.VERIF, ".cache", "gofwd")
    r = subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(core.VERIF, "engine", "gofwd"), env=e, capture_output=True, text=True)
    if r.returncode: raise Undecided("go build: " + r.stderr[-300:])
    r = subprocess.run([exe, os.path.join(core.REPO, "recursion-gnark/ffi/go")], capture_output=True, text=True)
    if r.returncode: raise Undecided("go sources: " + r.stderr[-300:])
    d = json.loads(r.stdout)
    I = ctx.interp((), "wrap"); S.install(I)
    sess = {"argv": ["test", "--output-dir", "OUT", "--vk-path", "VK", "--proof-path", "PROOF", "--system", "groth16"]}
    install(I, sess); rec = {}
    def op(J, a, c):
        rec["file"] = text(J, a[0]); return M.ok(M.Opaque("file"))
    I.hooks["std::fs::File::open"] = op
    def de(J, a, c):
        t = J.types[c["a"][1]]
        f = [n for n, _ in t["v"][0]["f"]]
        v = {"public_inputs": Arr([M.StrObj("P0"), M.StrObj("P1")]), "encoded_proof": M.StrObj("ENC"), "raw_proof": M.StrObj("RAW"), "groth16_vkey_hash": Arr([0] * 32)}
        if set(f) != set(v): raise Undecided("fields of the proof: %s" % f)
        return M.ok(Agg(c["a"][1], 0, [v[n] for n in f]))
    I.hooks["bincode::deserialize_from"] = I.hooks["bincode::deserialize"] = de
    def js(J, a, c):
        x = M.deref(a[0]); x = J.unphi(x)
        return M.ok(M.StrObj(json.dumps([text(J, y) for y in M.items(x)], separators=(",", ":"))))
    I.hooks["serde_json::ser::to_string"] = js
    I.hooks["alloc::ffi::c_str::CString::new"] = lambda J, a, c: M.ok(M.StrObj(text(J, a[0])))
    I.hooks["core::ffi::c_str::CStr::as_ptr"] = lambda J, a, c: Ref([M.deref(a[0])], 0)
    def go(J, a, c):
        rec["c"] = [text(J, x) for x in a]; return unit()
    I.hooks["recursion_gnark_ffi::ffi::native::bind::BuildGroth16"] = go
    try: I.invoke("recursion_gnark_cli::main", [])
    except Usage as x: return "the documented options are refused: %s" % x
    except Exit: return "the command exits"
    if "c" not in rec: return "the Go function is not called"
    if rec.get("file") != "PROOF": return "the proof is read from %s" % rec.get("file")
    cs = [c for c in d["Calls"].get("BuildGroth16") or [] if c["Callee"].endswith(".BuildGroth16")]
    if len(cs) != 1 or len(d["Exports"].get("BuildGroth16", [])) != len(rec["c"]): raise Undecided("the exported Go function")
    names = d["Params"].get(cs[0]["Callee"])
    if not names or len(names) != len(cs[0]["Args"]) or "" in cs[0]["Args"]: raise Undecided("the arguments of the Go call")
    val = dict(zip(d["Exports"]["BuildGroth16"], rec["c"]))
    mean = {"vkpath": "VK", "outputdir": "OUT", "verifycmdproof": "RAW", "publicinput": '["P0","P1"]'}
    got = {n.replace("_", "").lower(): val[x] for n, x in zip(names, cs[0]["Args"])}
    if set(got) != set(mean): raise Undecided("the parameters of the Go function are %s" % names)
    for n, v in mean.items():
        if got[n] != v: return "the Go function's %s is %s, not %s" % (n, got[n], v)
    for sy in ("plonk", "other"):
        rec.pop("c", None); sess["argv"][-1] = sy
        try: I.invoke("recursion_gnark_cli::main", [])
        except Panic: continue
        except Exit as x:
            if x.n % 256: continue
        if "c" in rec: return "system %s is treated as groth16" % sy
        return "system %s succeeds without doing anything" % sy
