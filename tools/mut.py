"""mut.py <check> <file> <<< 'old ||| new' : applies a textual change in a scratch copy and runs the check there (VERIF_REPO)"""
import subprocess, sys, os, shutil
R = "/tmp/mutrepo"; SRC = "/repo/"
def run(checks, edits, tier="quick", show=False):
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "--exclude", "node_modules", SRC, R + "/"]) if shutil.which("rsync") else subprocess.run("mkdir -p %s && cd /repo && git archive HEAD | (rm -rf %s/* ; tar x -C %s)" % (R, R, R), shell=True)
    for f, a, b in edits:
        p = os.path.join(R, f); s = open(p).read(); assert a in s, (f, a[:60]); open(p, "w").write(s.replace(a, b, 1))
    for c in checks:
        r = subprocess.run(["timeout", "900", "python3", "check.py", c, tier], cwd="/verif", env=dict(os.environ, VERIF_REPO=R, **({"VERIF_SHOW": "1"} if show else {})), capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).splitlines() if show or not l.startswith("  undecided")]
        print(c, "rc", r.returncode, "\n".join(x[:300] for x in out[-8:]), flush=True)
