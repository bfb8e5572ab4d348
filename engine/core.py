"""Check framework: obligations, violations, known findings, evidence."""
import json, os, sys, time, hashlib, subprocess, traceback, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "engine"))
from dom import Undecided, Panic
import dom

class Missing(Exception):
    """An anchor of the analysis is not there any more."""

def source_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "engine")):
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in (".git", "target", "node_modules", "__pycache__"))
            for f in sorted(fn):
                if root != REPO and not f.endswith((".rs", ".sh", ".toml", ".lock")) and f != "ws.py": continue
                if not f.endswith((".rs", ".toml", ".lock", ".sh", ".py", ".go", ".json", ".pil", ".circom", ".sol", ".ejs", ".mod")): continue
                p = os.path.join(dp, f)
                try:
                    st = os.stat(p)
                    if st.st_size > 3_000_000: h.update(("%s %d" % (p, st.st_size)).encode()); continue
                    h.update(p.encode()); h.update(open(p, "rb").read())
                except OSError: pass
    return h.hexdigest()[:16]

def dump(kind="mir", env=None):
    """Path of the MIR dump of /repo's current working tree (built now unless this very tree was dumped before)."""
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    with open(os.path.join(cache, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = source_hash() + "-" + kind
        out = os.path.join(cache, kind + ".json"); stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return out
        work = os.path.join(cache, "work-" + kind)
        os.makedirs(work, exist_ok=True)
        e = dict(os.environ); e.update(env or {})
        r = subprocess.run(["bash", os.path.join(VERIF, "engine", "dump.sh"), work], env=e, capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:]); print(r.stderr[-4000:])
            print("the analysed tree does not type-check in the analysis workspace")
            sys.exit(2)
        os.replace(os.path.join(work, "mir.json"), out)
        open(stamp, "w").write(key)
    return out

FEATURES = {"avx2": "+avx2", "avx512": "+avx512f,+avx512bw,+avx512cd,+avx512dq,+avx512vl"}
def simd_env(feature):
    return {"MIRDUMP_RUSTFLAGS": "-C target-feature=" + FEATURES[feature], "MIRDUMP_SIMD": "1", "MIRDUMP_CRATES": "starky,fields,ff_ce,vroots",
            "MIRDUMP_DRIVER": os.path.join(VERIF, ".cache", "work-mir", "driver")}

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.nob = 0; self.ok = 0; self.und = []; self.viol = []; self.samples = []
        self.counts = {}; self.assume = []; self._mir = None; self.fnset = set()
        self.notes = []
    # -- inputs
    def mir(self):
        if self._mir is None:
            import aeval
            self._mir = aeval.Mir(dump())
        return self._mir
    def interp(self, names=("GL",), mode="expand"):
        import fieldmodels
        I = fieldmodels.make(self.mir(), names, mode)
        self.interps = getattr(self, "interps", []) + [I]
        return I
    def src(self, rel):
        p = os.path.join(REPO, rel)
        if not os.path.exists(p): raise Missing(rel)
        return open(p, encoding="utf-8", errors="replace").read()
    def simd(self, feature):
        """The MIR of starky and fields as compiled for a vector unit ("avx2" or "avx512")."""
        import aeval
        m = self._simd = getattr(self, "_simd", {})
        if feature not in m: m[feature] = aeval.Mir(dump(feature, simd_env(feature)))
        return m[feature]
    # -- results
    def violation(self, where, msg):
        self.viol.append((where, msg))
    def ob(self, where, what, fn, *args):
        """One obligation: fn returns None/True when discharged, a message when violated."""
        self.nob += 1
        try:
            r = fn(*args)
        except Undecided as e:
            self.und.append("%s: %s: %s" % (where, what, str(e)[:300])); r = "__und"
        except Panic as e:
            r = "diverges (%s)" % e
        except LookupError as e:
            if isinstance(e, (KeyError, IndexError)):
                self.und.append("%s: %s: internal %r %s" % (where, what, e, traceback.format_exc()[-300:])); r = "__und"
            else:
                self.und.append("%s: %s: anchor not found: %s" % (where, what, e)); r = "__und"
        except Missing as e:
            self.und.append("%s: %s: anchor not found: %s" % (where, what, e)); r = "__und"
        except (RecursionError, TypeError, AttributeError, AssertionError, ValueError, NameError, ZeroDivisionError) as e:
            self.und.append("%s: %s: internal %r %s" % (where, what, e, traceback.format_exc()[-400:])); r = "__und"
        if r == "__und": return None
        if r is None or r is True:
            self.ok += 1
            if len(self.samples) < 12 or self.nob % 97 == 0 and len(self.samples) < 40: self.samples.append("%s: %s: holds" % (where, what))
            return True
        self.violation(where, "%s: %s" % (what, r))
        return False
    def parallel(self, fn, jobs, n=8):
        """fn(ctx, job) for every job in forked workers; their obligations are merged in order."""
        import pickle, selectors, gc
        self.mir()
        gc.collect(); gc.freeze()
        sel = selectors.DefaultSelector(); todo = list(enumerate(jobs))[::-1]; out = {}; live = 0
        while todo or live:
            while todo and live < n:
                k, job = todo.pop()
                r, w = os.pipe(); sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        os.close(r)
                        c = Ctx(self.pid, self.tier); c._mir = self._mir; c._simd = getattr(self, "_simd", {})
                        fn(c, job)
                        fns = set(); steps = 0
                        for I in getattr(c, "interps", []):
                            for fid in I.called: fns.add(I.fns[fid]["p"])
                            steps += I.steps
                        data = pickle.dumps((c.nob, c.ok, c.und, c.viol, c.samples, c.counts, c.notes, fns, steps))
                        with os.fdopen(w, "wb") as f: f.write(data)
                        rc = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
                os.close(w); live += 1
                sel.register(r, selectors.EVENT_READ, (k, pid, []))
            for key, _ in sel.select():
                k, pid, buf = key.data
                d = os.read(key.fd, 1 << 20)
                if d: buf.append(d); continue
                sel.unregister(key.fd); os.close(key.fd); live -= 1
                out[k] = b"".join(buf), os.waitpid(pid, 0)[1]
        for k, job in enumerate(jobs):
            data, st = out[k]
            if st != 0 or not data:
                self.nob += 1; self.und.append("worker for %r ended without a verdict" % (job,)); continue
            nob, ok, und, viol, samples, counts, notes, fns, steps = pickle.loads(data)
            self.nob += nob; self.ok += ok; self.und += und; self.viol += viol; self.notes += notes
            self.samples += samples[:max(0, 40 - len(self.samples))]
            for c, v in counts.items(): self.count(c, v)
            self.kidfns = getattr(self, "kidfns", set()) | fns; self.kidsteps = getattr(self, "kidsteps", 0) + steps
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split(" | ")[0].split(" ", 1) if "=" in x)
                # finding: property=C07 where=<where> | <what fails>
                head, _, text = l[9:].partition(" | ")
                prop, _, where = head.partition(" ")
                out.append((prop.split("=", 1)[1], where.split("=", 1)[1], text))
    return out

def main(pid, mod, tier):
    ctx = Ctx(pid, tier)
    level = getattr(mod, "LEVEL", "other")
    mod.run(ctx)
    kn = [k for k in known() if k[0] == pid]
    bad = []; seen = set()
    for where, msg in ctx.viol:
        k = next((k for k in kn if k[1] == where), None)
        if k:
            if k[1] not in seen:
                seen.add(k[1]); print("KNOWN-FINDING: property=%s %s: %s" % (pid, where, k[2]))
        else: bad.append((where, msg))
    fns = set(getattr(ctx, "kidfns", ())); steps = getattr(ctx, "kidsteps", 0)
    for I in getattr(ctx, "interps", []):
        for fid in I.called: fns.add(I.fns[fid]["p"])
        steps += I.steps
    cov = {"obligations": ctx.nob, "discharged": ctx.ok, "undecided": len(ctx.und), "rule": mod.RULE,
           "explanation": mod.RULE + " Obligations are listed by what they decide; 'undecided' lists those the analysis gave no verdict on.",
           "functions_analysed": len(fns) + ctx.counts.pop("functions", 0),
           "samples": ctx.samples[:40], "undecided_list": ctx.und[:60],
           "functions": sorted(fns)[:200]}
    if steps: cov["abstract_steps"] = steps
    cov.update({k: v for k, v in ctx.counts.items()})
    if ctx.notes: cov["notes"] = ctx.notes
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(bad)}
    if level == "proof":
        cov["checker_cmd"] = "python3 check.py %s" % pid
        cov["trusted_base"] = getattr(mod, "TRUST", []) + ["rustc nightly front end", "engine/aeval.py", "engine/models.py", "engine/dom.py"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (pid, ctx.nob, ctx.ok, len(ctx.und), len(ctx.viol), time.time() - ctx.t0))
    if os.environ.get("VERIF_SHOW"):
        for u in ctx.und: print("  undecided:", u)
    if bad:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for where, msg in bad: f.write("%s\n    %s\n" % (where, msg))
        for where, msg in bad[:40]: print("  %s: %s" % (where, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
