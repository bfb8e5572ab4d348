import json, os, re, subprocess, sys
import flow, core
LEVEL = "other"
TECHNIQUE = "forward dataflow of failure values over type-checked MIR (every body of every crate), and over Go syntax trees"
RULE = ("for every call that returns a Result (also inside Option, tuple or collection), every constructed Err, every Result argument and every verdict of a verification call, assume it failed and follow the failure along all paths of the enclosing body: each path must stop (panic, exit), "
        "hand the failure on, or return a failing value (Err, None where the caller expects it, false). Iterator adaptors must not drop failing items, buffered writers must be flushed where their error can be seen, the witness program's abort callbacks must fail the call, and in the Go sources every error is bound and stops the normal path.")
ASSUME = ["a failure handed to code outside the analysed crates, stored or sent is dealt with there", "within one body, the analysis of branch conditions other than those on the failure itself is path-insensitive"]
CRATES = {"starky", "algebraic", "algebraic_gpu", "fields", "groth16", "recursion", "recursion_gnark_ffi", "recursion_gnark_cli", "dsl_compile", "eigen_zkit"}
# failure values that are answers: (where, source, why)
ANSWER = [
    (r"::Wasm::get_version$", r"get_function$", "an absent getVersion export means version 1 of the circom interface"),
    (r"^starky::linearhash_\w+::", r"from_repr$", "a value above the modulus takes the general conversion instead of the fast one"),
    (r"::get_simplification_style$", r"::parse$", "the number of rounds is only looked at where a style with rounds is chosen"),
]
def rel(sp): return re.sub(r":\d+$", "", sp or "?")
def run(ctx):
    m = ctx.mir(); F = flow.Flow(m)
    nseed = [0]; merged = []
    def one(fi, f):
        bad = []; dedup = set()
        for bi, si, d, what, sp, t in F.seeds(fi):
            nseed[0] += 1
            if any(re.search(a, f["p"]) and re.search(b, what) for a, b, _ in ANSWER):
                ctx.count("answers"); continue
            lost, mg = F.explore(fi, bi, si, d)
            if not lost: continue
            if mg: merged.append("%s: %s (%s): paths were joined" % (f["p"], what, sp)); continue
            if what not in dedup: dedup.add(what); bad.append("%s (%s) can be lost: a path goes on to a normal return" % (what, sp))
        for what, sp in F.drops(fi): bad.append("%s (%s)" % (what, sp))
        for sp, why in F.buffered(fi): bad.append("a buffered writer (%s) is %s: its last write fails unseen" % (sp, why))
        return "; ".join(bad[:6]) if bad else None
    for fi, f in sorted(F.poly.items()):
        if f["k"] not in CRATES: continue
        ctx.count("bodies")
        ctx.ob("%s %s" % (rel(f["span"]), f["p"]), "every failure is passed on or stops the program", one, fi, f)
    ctx.count("failure_sources", nseed[0])
    ctx.und += merged; 
    # host functions by which a circuit's program aborts
    def aborts(fi, f):
        if not F.fallible(f["locals"][0]): return "the callback cannot fail, so the circuit's own failure is ignored"
        if F.explore(fi, 0, 0, {})[0]: return "a path returns success"
    n = 0
    for crate in ("algebraic", "algebraic_gpu"):
        for name in imports(F, crate):
            for fi, f in name[1]:
                n += 1
                ctx.ob("%s %s" % (rel(f["span"]), f["p"]), "the circuit's abort (%s) fails the call" % name[0], aborts, fi, f)
    ctx.count("abort_callbacks", n)
    def go():
        e = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOCACHE=os.path.join(core.VERIF, ".cache", "gocache"), GO111MODULE="on", CGO_ENABLED="0", HOME=os.environ.get("HOME", "/root"))
        exe = os.path.join(core.VERIF, ".cache", "goerr")
        r = subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(core.VERIF, "engine", "goerr"), env=e, capture_output=True, text=True)
        if r.returncode: raise core.Missing("go build: " + r.stderr[-300:])
        r = subprocess.run([exe, os.path.join(core.REPO, "recursion-gnark/ffi/go")], capture_output=True, text=True)
        if r.returncode: raise core.Missing("go sources: " + r.stderr[-300:])
        d = json.loads(r.stdout)
        ctx.count("go_functions", d["Functions"]); ctx.count("go_calls", d["Calls"]); ctx.count("go_bound_errors", d["Bound"])
        if d["Functions"] < 10: raise core.Missing("go sources: %d functions" % d["Functions"])
        for x in d["Findings"] or []: ctx.violation("recursion-gnark/ffi/go/eigen %s %s" % (x["Pos"].split(":")[0], x["Fn"]), x["What"] + " (%s)" % x["Pos"])
    ctx.ob("recursion-gnark/ffi/go", "Go errors are bound, tested and stop the normal path", go)

def imports(F, crate):
    """[(import name, [(index, callback body)])] for the imports through which a circom program reports that it gave up"""
    out = []
    for imp in ("error", "exceptionHandler"):
        fs = []
        for fi, f in F.poly.items():
            if f["k"] != crate: continue
            for b in f["blocks"]:
                t = b["t"]
                if t[0] != "call": continue
                if not any(a[0] == "k" and isinstance(a[2], dict) and a[2].get("s") == imp for a in consts(f, t)): continue
                # insert("name", <function>): the function argument comes from a call of a repository function
                for src in origins(f, t, crate):
                    for gi, g in F.poly.items():
                        if g["p"].startswith(src + "::") and g["k"] == crate: fs.append((gi, g))
        if fs: out.append((imp, list({g["p"]: (gi, g) for gi, g in fs}.values())))
    return out
def consts(f, t):
    l = defs(f)
    for a in t[2]:
        o = a; n = 0
        while o[0] in ("mv", "cp") and n < 8:
            n += 1
            d = l.get(o[1][0])
            if not d or d[0] == "call": break
            if d[0] == "use": o = d[1]
            elif d[0] == "ref": o = ["cp", [d[2][0], []]]
            elif d[0] == "cast": o = d[2]
            else: break
        yield o
def defs(f):
    l = {}
    for b in f["blocks"]:
        if b["c"]: continue
        for x in b["s"]:
            if x[0] == "=" and not x[1][1]: l[x[1][0]] = x[2]
        if b["t"][0] == "call" and not b["t"][3][1]: l[b["t"][3][0]] = ("call", b["t"])
    return l
def origins(f, t, crate):
    """repository functions whose result reaches an argument of the call"""
    l = defs(f); out = set(); work = [a[1][0] for a in t[2] if a[0] != "k"]; seen = set()
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x); d = l.get(x)
        if not d: continue
        if d[0] == "call":
            p = d[1][1].get("p") or ""
            if d[1][1].get("k") == crate: out.add(p)
            elif p.split("::")[-1] in ("into", "from", "clone"): work += [a[1][0] for a in d[1][2] if a[0] != "k"]
        elif d[0] == "use" and d[1][0] != "k": work.append(d[1][1][0])
        elif d[0] == "ref": work.append(d[2][0])
        elif d[0] == "cast" and d[2][0] != "k": work.append(d[2][1][0])
        elif d[0] == "agg": work += [o[1][0] for o in d[2] if o[0] != "k"]
    return out
