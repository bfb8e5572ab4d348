import os, sys, ast
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "../../engine"))
import aeval, models as M, core
w = sys.argv[1]
mir = core.Mir(w + "/mir.json") if hasattr(core, "Mir") else aeval.Mir(w + "/mir.json")
bad = 0
for line in open(w + "/real.txt"):
    name, rest = line.split(" ", 1); want = ast.literal_eval(rest)
    I = aeval.Interp(mir)
    try: got = M.items(I.invoke("vroots::" + name, []))
    except Exception as e: got = "%s: %s" % (type(e).__name__, e)
    if got != want:
        bad += 1; print("DIFF", name)
        if isinstance(got, str): print("   ", got[:300])
        else:
            for i in range(max(len(got), len(want))):
                if got[i:i+1] != want[i:i+1]: print("    at", i, "got", got[i:i+6], "want", want[i:i+6]); break
print("%d differences" % bad)
