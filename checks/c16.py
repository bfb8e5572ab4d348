from dom import *
from aeval import *
import models as M, serdemodels as S, iomodels as IO
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of type-checked MIR on abstract documents and a virtual file system"
RULE = ("join_zkin is evaluated on pairs of documents whose values are symbolic (any text), for every enumerated pair of key sets and every length of the public list up to the bound; the written document must hold exactly every entry of the first file under a_, "
        "every entry of the second under b_, the first file's constant root, and its public list without the trailing four values, each value unchanged. An unreadable or malformed input is an error.")
ASSUME = ["serde_json reads and writes documents faithfully", "key sets and public-list lengths: the enumerated ones"]
WHERE = "starky/src/zkin_join.rs join_zkin"
def run(ctx):
    I = ctx.interp(("GL",), "wrap"); S.install(I)
    n = [0]
    def leaf():
        n[0] += 1; return S.Str(SymStr([T("v", n[0])]))
    def put(name, doc):
        t = doc if isinstance(doc, str) else S.to_text(doc)
        IO.fs(I)[name] = IO.FileObj([t])
    def call():
        return I.unphi(I.invoke("starky::zkin_join::join_zkin", [Ref([M.StrObj(x)], 0) for x in ("one", "two", "out")]))
    def build(keys, npub, kind):
        kv = []
        for k in keys:
            if k == "publics": v = {"arr": [leaf() for _ in range(npub)], "str": leaf(), "obj": S.Obj([("x", leaf())]), "null": None, "num": 7}[kind]
            elif k == "evals": v = [[leaf() for _ in range(3)] for _ in range(2)]
            elif k == "rootC": v = [leaf() for _ in range(4)] if len(keys) % 2 else leaf()
            else: v = leaf()
            kv.append((k, v))
        return S.Obj(kv)
    def one(k1, n1, kind1, k2, n2, kind2):
        IO.fs(I).clear()
        a, b = build(k1, n1, kind1), build(k2, n2, kind2)
        put("one", a); put("two", b); before = [list(IO.fs(I)[x].f) for x in ("one", "two")]
        r = call()
        if r.v: return "two well-formed documents are refused"
        if "out" not in IO.fs(I): return "nothing is written"
        if any(x not in IO.fs(I) or len(IO.fs(I)[x].f) != len(y) or any(p is not q for p, q in zip(IO.fs(I)[x].f, y)) for x, y in zip(("one", "two"), before)): return "an input file is altered"
        try: d = S.from_text(IO.text_of(IO.fs(I)["out"].f))
        except S.BadJson: return "the output is not a document"
        want = {}
        for k, v in a.kv:
            want["a_" + k] = v
            if k == "publics" and isinstance(v, list): want[k] = v[:-4] if len(v) >= 4 else v
            if k == "rootC": want[k] = v
        for k, v in b.kv: want["b_" + k] = v
        got = dict(d.kv)
        if len(got) != len(d.kv): return "an entry is written twice"
        for k in sorted(set(want) | set(got)):
            if k not in got: return "entry %s is dropped" % k
            if k not in want: return "entry %s appears from nowhere" % k
            if got[k] != want[k]: return "entry %s does not keep its value: %s" % (k, short(got[k], 160))
    full = ["rootC", "root1", "root2", "root3", "root4", "evals", "s1_root", "s1_vals", "s1_siblings", "s0_vals1", "s0_vals3", "s0_vals4", "s0_valsC", "s0_siblings1", "finalPol", "publics", "proverAddr"]
    cases = [(full, i, "arr", full, j, "arr") for i, j in [(x, 3) for x in range(0, 10 if ctx.tier == "quick" else 40)] + [(9, 0), (5, 12), (4, 4)]]
    cases += [(full, 0, k, full, 5, j) for k in ("str", "obj", "null", "num") for j in ("arr", k)]
    part = [[], ["publics"], ["rootC"], ["a"], ["a", "a_a", "b_a", "b"], ["root1", "publics", "b_publics", "a_publics"], ["rootC", "a_rootC", "b_rootC", "z"], [""], ["_", "a_", "b_"]]
    cases += [(x, 6, "arr", y, 7, "arr") for x in part for y in part]
    for k1, n1, d1, k2, n2, d2 in cases:
        ctx.ob(WHERE, "{%s} with %d publics (%s), {%s} with %d (%s)" % (",".join(k1) if len(k1) < 8 else "proof", n1, d1, ",".join(k2) if len(k2) < 8 else "proof", n2, d2), one, k1, n1, d1, k2, n2, d2)
    good = S.Obj([("a", S.Str("1"))])
    def bad(x, y, what):
        IO.fs(I).clear()
        if x is not None: put("one", x)
        if y is not None: put("two", y)
        r = call()
        if not r.v: return "%s is not reported" % what
    for x, y, what in ((None, good, "a missing first file"), (good, None, "a missing second file"), ("{\"a\": ", good, "a truncated first file"), (good, "[1", "a truncated second file"), ("", good, "an empty first file"), (good, "", "an empty second file"), ("[1,2]", good, "a first file that is no object"), (good, "3", "a second file that is no object")):
        ctx.ob(WHERE + " errors", what, bad, x, y, what)
