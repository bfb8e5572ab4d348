#!/usr/bin/env python3
"""mutate.py <out.jsonl> <seed> <n per file> [file filter] : random small source mutations of the files each property is anchored in,
run in a scratch copy of the tree; records which check (if any) reports each.  A survivor is either an equivalent change or a gap."""
import subprocess, sys, os, re, random, json, shutil
V = os.environ.get("MUT_VERIF", "/verif"); R = os.environ.get("MUT_REPO", "/tmp/mutr")
MAP = {
 "fields/src/field_gl.rs": ["C01", "C10"], "starky/src/f3g.rs": ["C02"], "starky/src/f5g.rs": ["C03"], "starky/src/traits.rs": ["C02", "C03"],
 "starky/src/poseidon_opt.rs": ["C04"], "starky/src/poseidon_bn128_opt.rs": ["C05"], "starky/src/poseidon_bls12381_opt.rs": ["C05"],
 "starky/src/poseidon_bn128.rs": ["C05"], "starky/src/linearhash_bn128.rs": ["C06"], "starky/src/linearhash_bls12381.rs": ["C06"],
 "starky/src/linearhash.rs": ["C06", "C07"], "starky/src/merklehash.rs": ["C07"], "starky/src/merklehash_bn128.rs": ["C07"], "starky/src/merklehash_bls12381.rs": ["C07"],
 "starky/src/transcript.rs": ["C08"], "starky/src/transcript_bn128.rs": ["C08"], "starky/src/transcript_bls12381.rs": ["C08"],
 "starky/src/fft.rs": ["C09"], "starky/src/fft_p.rs": ["C09", "C29"], "starky/src/fft_worker.rs": ["C09"], "starky/src/polutils.rs": ["C09"],
 "starky/src/constant.rs": ["C10"], "starky/src/helper.rs": ["C10", "C14"], "starky/src/expressionops.rs": ["C14"], "starky/src/types.rs": ["C14"],
 "starky/src/digest.rs": ["C15"], "starky/src/serializer.rs": ["C15"], "starky/src/zkin_join.rs": ["C16"],
 "algebraic-gpu/src/r1cs_file.rs": ["C17"], "algebraic-gpu/src/reader.rs": ["C17", "C18"], "algebraic-gpu/src/circom_circuit.rs": ["C19"],
 "algebraic-gpu/src/witness/witness_calculator.rs": ["C20"], "algebraic-gpu/src/witness/circom.rs": ["C20"], "algebraic-gpu/src/witness/memory.rs": ["C20"], "algebraic-gpu/src/witness/mod.rs": ["C20"],
 "recursion/src/io_utils.rs": ["C21"], "recursion/src/compressor12/compressor12_setup.rs": ["C21"], "recursion/src/compressor12/compressor12_exec.rs": ["C21"],
 "recursion/src/compressor12/compressor12_pil.rs": ["C22"], "recursion/src/compressor12/plonk_setup.rs": ["C22", "C21", "C23"], "recursion/src/r1cs2plonk.rs": ["C23"],
 "recursion-gnark/ffi/src/json_util.rs": ["C24"], "recursion-gnark/ffi/src/traits.rs": ["C24"], "recursion-gnark/ffi/src/proof.rs": ["C24"], "recursion-gnark/ffi/src/verifier.rs": ["C24"],
}
OPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
       (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" % ", [" / "]), (r" \^ ", [" | "]), (r" & ", [" | "]),
       (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.=", [".."]), (r"(?<=[\w)\]])\.\.(?=[\w(])", ["..="]),
       (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\b3\b", ["2"]), (r"\b4\b", ["3"]), (r"\b5\b", ["4"]), (r"\b8\b", ["7"]), (r"\b12\b", ["11"]), (r"\b16\b", ["15"]), (r"\b32\b", ["31"]), (r"\b64\b", ["63"]),
       (r"!(?=[a-z(])", [""]), (r"\.rev\(\)", [""]), (r"\.skip\((\w+)\)", [""]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\ba\b", ["b"]), (r"\bb\b", ["a"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]),
       (r"from_le", ["from_be"]), (r"to_le", ["to_be"]), (r"LittleEndian", ["BigEndian"]), (r"add_assign", ["sub_assign"]), (r"sub_assign", ["add_assign"]), (r"mul_assign", ["add_assign"])]
def candidates(text):
    out = []; lines = text.split("\n"); depth = None
    for n, l in enumerate(lines):
        if "#[cfg(test)]" in l or re.match(r"\s*mod tests?\b", l): break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "pub use", "log::", "assert", "debug", "println", "info!", "trace!", "/*", "*")): continue
        if re.match(r'^(0x|"0x|")', s) and s.endswith(","): continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for mm in re.finditer(pat, code):
                if '"' in code[:mm.start()] and code[:mm.start()].count('"') % 2: continue
                for r in reps: out.append((n, "sub", l[:mm.start()] + r + l[mm.end():]))
        if s.endswith(";") and not s.startswith(("let ", "return", "const", "pub ", "type ", "static", "}")) and lines[n - 1].strip().endswith((";", "{", "}")): out.append((n, "del", re.sub(r"\S.*", "", l)))
        if s.endswith(";") and n + 1 < len(lines) and lines[n + 1].strip().endswith(";") and not lines[n + 1].strip().startswith("}"): out.append((n, "swap", None))
    return out
def main():
    outp, seed, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); filt = sys.argv[4] if len(sys.argv) > 4 else ""
    os.makedirs(R, exist_ok=True)
    subprocess.run("rm -rf %s && mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (R, R, R), shell=True, check=True)
    rnd = random.Random(seed)
    jobs = []
    for f in ("fields/src/arch/x86_64/avx2_field_gl.rs", "fields/src/arch/x86_64/avx512_field_gl.rs", "starky/src/arch/x86_64/avx2_poseidon_gl.rs", "starky/src/arch/x86_64/avx512_poseidon_gl.rs"): MAP[f] = ["C32"]
    if filt == "linearhash.rs": MAP["starky/src/linearhash.rs"] = ["C32"]
    for f, checks in MAP.items():
        if filt and not re.search(filt, f): continue
        text = open(os.path.join("/repo", f)).read(); c = candidates(text)
        for x in rnd.sample(c, min(per, len(c))): jobs.append((f, checks, text, x))
    rnd.shuffle(jobs)
    for f, checks, text, (n, kind, rep) in jobs:
        lines = text.split("\n"); old = lines[n]
        if kind == "swap": lines[n], lines[n + 1] = lines[n + 1], lines[n]; rep = "<swap with next>"
        else: lines[n] = rep
        p = os.path.join(R, f)
        open(p, "w").write("\n".join(lines))
        res = {}; 
        for c in checks:
            try: r = subprocess.run(["timeout", "600", "python3", "check.py", c, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True)
            except Exception as e: res[c] = repr(e); continue
            o = r.stdout + r.stderr
            res[c] = "nocompile" if "does not type-check" in o else "caught" if r.returncode == 1 else "rc%d" % r.returncode if r.returncode else "quiet " + "".join(l.split("obligations,")[1][:60] for l in o.splitlines() if "obligations," in l)
            if res[c] in ("nocompile", "caught"): break
        open(p, "w").write(text)
        v = list(res.values())
        with open(outp, "a") as fo: fo.write(json.dumps({"f": f, "line": n + 1, "old": old.strip(), "new": rep.strip(), "res": res, "verdict": "nocompile" if "nocompile" in v else "caught" if "caught" in v else "SURVIVED"}) + "\n")
main()
