#!/usr/bin/env python3
"""mkbug.py <id> <property> <deps,comma> : takes /tmp/bug/<id>/{edits.py|patch via diff of /repo}, demo.rs on stdin style files."""
import sys, os, json, subprocess
DEPS = {"starky-full": 'starky = { path = "../starky" }', "starky": 'starky = { path = "../starky" }', "fields": 'fields = { path = "../fields", default-features = false }',
 "algebraic-gpu": 'algebraic-gpu = { path = "../algebraic-gpu" }', "recursion": 'recursion = { path = "../recursion" }',
 "ffi": 'recursion-gnark-ffi = { path = "../recursion-gnark/ffi" }', "ff": 'ff = { package = "ff_ce", version = "0.12", features = ["derive"] }',
 "json": 'serde_json = "1.0"', "bigint": 'num-bigint = "0.4"', "bigint3": 'num-bigint = "0.3.3"', "blstrs": 'blstrs = "0.7"', "bellperson": 'bellperson = { version = "0.26", default-features = false, features = ["groth16"] }', "ff13": 'ff = "0.13"', "arkbn": 'ark-ec = "0.5"\nark-ff = "0.5"\nark-bls12-381 = "0.5"', "rand": 'rand = "0.4"'}
def make(bid, prop, needs, breaks, deps, edits, demo):
    d = "/verif/seeded/" + bid
    os.makedirs(d, exist_ok=True)
    R = os.environ.get("BUGREPO", "/repo")
    assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo dirty"
    try:
        for f, old, new, *cnt in edits:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(old) >= 1, (f, old)
            n = cnt[0] if cnt else None
            if n is None:
                assert s.count(old) == 1, (f, s.count(old), old)
                s = s.replace(old, new)
            else:
                i = -1
                for _ in range(n): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    t = open("/verif/tools/demo/" + ("full.sh" if "starky-full" in deps else "demo.sh")).read().replace("@DEPS@", "\n".join(DEPS[x] for x in deps))
    open(d + "/demo.sh", "w").write(t)
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
