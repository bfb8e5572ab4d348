#!/usr/bin/env python3
"""Lays out the analysis workspace: the crates of /repo, by symlink, with the git dependencies that
cannot be fetched replaced by type-only stand-ins (engine/stubs).  Nothing is ever run from it."""
import os, re, shutil, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, "stubs")

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path): os.unlink(path)
    try:
        if open(path).read() == text: return
    except OSError: pass
    open(path, "w").write(text)

def link(target, path):
    if os.path.islink(path):
        if os.readlink(path) == target: return
        os.unlink(path)
    elif os.path.isdir(path): shutil.rmtree(path)
    elif os.path.exists(path): os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.symlink(target, path)

def mirror(src, dst, generated, skip=()):
    if os.path.islink(dst): os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = {n for n in os.listdir(src) if n not in skip and n != "target"}
    for old in os.listdir(dst):
        if old not in names:
            p = os.path.join(dst, old)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for name in names:
        here = [g[len(name) + 1:] for g in generated if g.startswith(name + "/")]
        if here: mirror(os.path.join(src, name), os.path.join(dst, name), here)
        elif name not in generated: link(os.path.join(src, name), os.path.join(dst, name))

def dropmods(text, mods):
    out = []
    for line in text.splitlines(keepends=True):
        m = re.fullmatch(r"\s*(?:pub(?:\(crate\))? )?mod (\w+);\s*", line)
        if m and m[1] in mods:
            line = (mods[m[1]] + " // stand-in\n") if isinstance(mods, dict) and mods[m[1]] else "// left out: " + line
        out.append(line)
    return "".join(out)

GIT = {
    "profiler_macro": f'profiler_macro = {{ path = "{STUBS}/profiler_macro" }}',
    "franklin-crypto": f'franklin-crypto = {{ path = "{STUBS}/franklin-crypto"%s }}',
    **{c: f'{c} = {{ path = "{STUBS}/{c}" }}' for c in ("parser", "program_structure", "type_analysis", "constraint_generation", "constraint_writers", "compiler", "wast")},
}
def manifest(text, drop=(), add=""):
    out = []
    section = ""
    for line in text.splitlines(keepends=True):
        s = line.strip()
        if s.startswith("["): section = s
        m = re.match(r"([\w-]+)\s*=\s*[\"{]", line)
        if m and m[1] in GIT:
            rep = GIT[m[1]]
            if "%s" in rep: rep = rep % (", optional = true" if "optional" in line else "")
            line = rep + "\n"
        elif m and m[1] in drop: line = "# " + line
        elif re.match(r"[\w-]+\s*=\s*\[", line):
            for dep in drop: line = re.sub(rf'"{re.escape(dep)}(/[^"]*)?"\s*,?\s*', "", line)
        if section == "[dev-dependencies]" and not s.startswith("["): line = "# " + line
        if section == "[[bench]]": line = "# " + line
        out.append(line)
        if s == "[dependencies]" and add: out.append(add + "\n")
    return "".join(out)

PILCOM = ("pub mod pilcom { pub fn compile_pil_from_str(_: &str) -> starky::types::PIL { unimplemented!() } "
          "pub fn compile_pil_from_path(_: &str) -> starky::types::PIL { unimplemented!() } }")
# what bindgen writes for the exported Go functions
BINDINGS = """fn main() {
    let d = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{d}/bindings.rs"), "extern \\"C\\" { pub fn BuildGroth16(a: *mut ::std::os::raw::c_char, b: *mut ::std::os::raw::c_char, c: *mut ::std::os::raw::c_char, d: *mut ::std::os::raw::c_char); pub fn FreeString(s: *mut ::std::os::raw::c_char); }").unwrap();
}
"""
CRATES = {
    "algebraic-gpu": {},
    "fields": {},
    "starky": {},
    "algebraic": {},
    "recursion": {"drop": {"powdr", "powdr-parser-util", "array_tool"}, "add": 'array_tool = "1.0.3"',
                  "mods": {"src/lib.rs": {"pilcom": PILCOM}}},
    "recursion-gnark/ffi": {"skip": {"go"}, "text": {"build.rs": BINDINGS}, "nobuilddeps": True},
    "recursion-gnark/cli": {"lib": True},
    "dsl_compile": {"drop": {"dag", "lalrpop-util"}},
    "zkit": {"lib": True},
    "groth16": {"drop": {"bellperson", "regex", "profiler_macro"}, "add": 'regex = "1"'},
}
def layout(ws):
    os.makedirs(ws, exist_ok=True)
    for name, c in CRATES.items():
        src, dst = os.path.join(REPO, name), os.path.join(ws, name)
        gen = ["Cargo.toml", *c.get("mods", {}), *c.get("text", {})]
        mirror(src, dst, gen, c.get("skip", ()))
        text = manifest(open(os.path.join(src, "Cargo.toml")).read(), c.get("drop", ()), c.get("add", ""))
        if c.get("nobuilddeps"): text = re.sub(r"(?ms)^\[build-dependencies\].*?(?=^\[|\Z)", "", text)
        # a program is analysed as a library, so that its bodies can be read
        if c.get("lib"): text = text.replace("[dependencies]", "[lib]\npath = \"src/main.rs\"\n[dependencies]", 1).replace("[package]", "[package]\nautobins = false", 1)
        write(os.path.join(dst, "Cargo.toml"), text)
        for path, t in c.get("text", {}).items(): write(os.path.join(dst, path), t)
        for path, mods in c.get("mods", {}).items():
            write(os.path.join(dst, path), dropmods(open(os.path.join(src, path)).read(), mods))
    simd = os.environ.get("MIRDUMP_SIMD")
    roots = "simd" if simd else "vroots"
    write(os.path.join(ws, "vroots/Cargo.toml"), VROOTS.split("[dependencies]")[0] + '[dependencies]\nfields = { path = "../fields" }\nstarky = { path = "../starky" }\n' if simd else VROOTS)
    for f in sorted(os.listdir(os.path.join(HERE, roots))): link(os.path.join(HERE, roots, f), os.path.join(ws, "vroots/src", f))
    members = ["starky", "fields", "algebraic", "vroots"] if simd else [n for n in CRATES if n not in EXCL] + ["vroots"]
    write(os.path.join(ws, "Cargo.toml"), "[workspace]\nmembers = [%s]\nresolver = \"2\"\n" % ", ".join(f'"{n}"' for n in members))
    if not os.path.exists(os.path.join(ws, "Cargo.lock")):
        lock = open(os.path.join(REPO, "Cargo.lock")).read()
        # locked versions the sandbox does not have
        lock = re.sub(r'(?ms)^\[\[package\]\]\nname = "(?:clap|clap_builder|clap_derive|clap_lex|anstream|anstyle[\w-]*|colorchoice|is_terminal_polyfill|strsim|utf8parse)"\n.*?(?=^\[\[package\]\]|\Z)', "", lock)
        write(os.path.join(ws, "Cargo.lock"), lock)
EXCL = set()
VROOTS = """[package]
name = "vroots"
version = "0.1.0"
edition = "2021"
[dependencies]
algebraic = { path = "../algebraic" }
algebraic-gpu = { path = "../algebraic-gpu" }
fields = { path = "../fields" }
groth16 = { path = "../groth16" }
recursion = { path = "../recursion" }
recursion-gnark-ffi = { path = "../recursion-gnark/ffi" }
recursion-gnark-cli = { path = "../recursion-gnark/cli" }
dsl_compile = { path = "../dsl_compile" }
eigen-zkit = { path = "../zkit" }
starky = { path = "../starky" }
blstrs = "0.7"
bellperson = { version = "0.26", default-features = false, features = ["groth16"] }
serde = "1"
num-bigint = "0.3.3"
serde_json = "1"
ark-bls12-381 = "0.5"
ark-ec = "0.5"
ark-serialize = "0.5"
"""
if __name__ == "__main__":
    layout(sys.argv[1])
