from dom import *
from aeval import *
import models as M, fieldmodels as FM, hashing as H
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over symbolic leaves with the permutation uninterpreted"
RULE = ("merkelize, get_group_proof and verify_group_proof of the three trees are evaluated on fully symbolic leaf elements, siblings and roots for a range of heights, widths and worker counts: the root must be the term of the "
        "reference tree (so it depends on every leaf), every opening must return the committed row and verify, the recomputed root must be the reference fold of the supplied row, index digits and siblings, "
        "and acceptance must be the equality of all four root limbs with it.")
ASSUME = ["the permutations are those of C04 / C05 and distinct inputs give distinct outputs", "heights, widths and worker counts are the enumerated ones; splitting thresholds are crossed by wide rows"]
TREES = {"GL": ("starky::merklehash::MerkleTreeGL", "starky/src/merklehash.rs", 2), "BN": ("starky::merklehash_bn128::MerkleTreeBN128", "starky/src/merklehash_bn128.rs", 16),
         "BLS": ("starky::merklehash_bls12381::MerkleTreeBLS12381", "starky/src/merklehash_bls12381.rs", 16)}
class Tree:
    """Reference tree: rows hashed, each level padded with zero digests to a multiple of the arity."""
    def __init__(self, I, name):
        self.I, self.name = I, name
        self.P, self.file, self.ar = TREES[name]
        self.gl = I.F["GL"]; self.F = I.F[name]
    def leaf(self, row):
        if self.name == "GL": return H.row_hash_gl(self.gl, row)
        return H.row_hash(self.F, self.name, row)
    def zero(self): return [self.gl.zero] * 4 if self.name == "GL" else self.F.zero
    def node(self, kids):
        if self.name == "GL": return H.sponge_gl(self.gl, kids[0] + kids[1])
        return H.perm(self.F, self.name, kids, self.F.zero, H.CURVES[self.name][1])
    def levels(self, rows):
        lv = [[self.leaf(r) for r in rows]]
        while len(lv[-1]) > 1:
            l = lv[-1]
            l = l + [self.zero()] * (-len(l) % self.ar)
            lv[-1] = l
            lv.append([self.node(l[i:i + self.ar]) for i in range(0, len(l), self.ar)])
        return lv
    def fold(self, row, idx, path):
        v = self.leaf(row)
        for sibs in path:
            d = idx % self.ar; idx //= self.ar
            if self.name == "GL": v = self.node([v, list(sibs[:4])] if d == 0 else [list(sibs[:4]), v])
            else: v = self.node([v if i == d else s for i, s in enumerate(sibs)])
        return v
    # -- implementation
    def call(self, fn, *a): return self.I.invoke("<%s as starky::traits::MerkleTree>::%s" % (self.P, fn), list(a))
    def new(self): return Ref([self.call("new")], 0)
    def scalar(self, d):
        return [x.d for x in H.digest(self.I, d)] if self.name == "GL" else H.digest_scalar(self.I, self.F, d).d
    def key(self, v): return [x.d for x in v] if self.name == "GL" else v.d
    def digest(self, v): return H.mkdigest(self.I, "GL", v) if self.name == "GL" else H.scalar_digest(self.I, self.name, v)
    def build(self, rows):
        t = self.new()
        r = self.I.unphi(self.call("merkelize", t, Vec([x for r in rows for x in r]), len(rows[0]), len(rows)))
        if r.v: raise Panic("the tree is refused")
        return t
    def verify(self, t, root, path, idx, row):
        p = Vec([Vec(list(s)) for s in path])
        r = self.I.unphi(self.call("verify_group_proof", t, Ref([root], 0), SRef(p.f, 0, len(path)), idx, SRef(list(row), 0, len(row))))
        if r.v: return False
        return self.I.resolve(r.f[0])
def rows_of(gl, w, h, tag="e"): return [[gl.var("%s%d_%d" % (tag, i, j)) for j in range(w)] for i in range(h)]
def interp(ctx):
    I = ctx.interp(("GL", "BN", "BLS"), "expand"); H.install(I, ("BN", "BLS"))
    return I
def build_job(ctx, job, I=None, tag=""):
    name, w, h, cpus = job
    I = I or interp(ctx); I.ncpu = cpus
    t = Tree(I, name); file = t.file
    what = tag + "%d rows of %d, %d processors" % (h, w, cpus)
    rows = rows_of(t.gl, w, h)
    ref = t.levels(rows)
    tree = []
    def root():
        tree.append(t.build(rows))
        if t.scalar(t.call("root", tree[0])) != t.key(ref[-1][0]): return "the root is not the hash of every row in order"
    if not ctx.ob(file + " merkelize", what, root): return
    tr = tree[0]
    idxs = range(h) if h <= 70 else sorted({0, 1, 2, 15, 16, 17, h // 2, h - 17, h - 16, h - 2, h - 1})
    def opening(idx):
        r = I.unphi(t.call("get_group_proof", tr, idx))
        if r.v: return "the opening of row %d is refused" % idx
        row = H.fes(I, r.f[0].f[0]); path = [H.fes(I, s) for s in M.items(r.f[0].f[1])]
        if [x.d for x in row] != [x.d for x in rows[idx]]: return "the opening of row %d returns another row" % idx
        root = t.call("root", tr)
        fresh = t.new()
        if t.verify(fresh, root, path, idx, row) is not True: return "the opening of row %d does not verify" % idx
        bad = list(row); bad[-1] = fadd(bad[-1], t.gl.one)
        if t.verify(fresh, root, path, idx, bad) is True: return "the opening of row %d verifies with another last element" % idx
        if h > 1 and t.verify(fresh, root, path, idx ^ 1, row) is True: return "the opening of row %d verifies at index %d" % (idx, idx ^ 1)
    for idx in idxs: ctx.ob(file + " get_group_proof", what + ", row %d" % idx, opening, idx)
    def outside():
        for i in (h, h + 1):
            r = I.unphi(t.call("get_group_proof", tr, i))
            if r.v == 0: return "row %d of a tree of %d rows can be opened" % (i, h)
    ctx.ob(file + " get_group_proof", what + ", beyond the last row", outside)
    def elem():
        for i in sorted({0, h // 2, h - 1}):
            for j in sorted({0, w - 1}):
                if FM.fe(t.call("get_element", tr, i, j), I=I).d != rows[i][j].d: return "element %d of row %d is another one" % (j, i)
    ctx.ob(file + " get_element", what, elem)
def verify_job(ctx, job, I=None, tag=""):
    name, w, depth = job
    I = I or interp(ctx)
    t = Tree(I, name); file = t.file; fresh = t.new()
    row = [t.gl.var("e%d" % j) for j in range(w)]
    n = 4 if name == "GL" else 16
    path = [[t.F.var("s%d_%d" % (i, j)) for j in range(n)] for i in range(depth)]
    top = t.ar ** depth
    for idx in sorted({0, top - 1, top // 2, top // 3, 2 * top // 3, *range(min(top, 16))}) if depth < 6 else (top - 1, top // 3):
        what = tag + "rows of %d, %d levels, index %d" % (w, depth, idx)
        want = t.fold(row, idx, path)
        def accepts():
            if t.verify(fresh, t.digest(want), path, idx, row) is not True: return "the root recomputed from the row, the index digits and the siblings is not accepted"
        if not ctx.ob(file + " verify_group_proof", what, accepts): continue
        def binds():
            d = t.digest(want)
            limbs = H.digest(I, d)
            for k in range(4) if depth < 6 else (3,):
                l = list(limbs); l[k] = t.gl.var("z")
                r = t.verify(fresh, H.mkdigest(I, name, l), path, idx, row)
                if r is True: return "a root that differs in limb %d is accepted" % k
                if r is not False and not (isinstance(r, Term) and r is feq(limbs[k], l[k])):
                    if isinstance(r, Term) and mentions(r, "z"): continue
                    return "acceptance does not depend on limb %d of the root" % k
        ctx.ob(file + " verify_group_proof", what + ": binds every root limb", binds)
        def beyond():
            for over in (1, 2, t.ar + 1):
                if t.verify(fresh, t.digest(want), path, idx + over * top, row) is not False: return "row %d of a tree of %d rows is accepted with the path of row %d" % (idx + over * top, top, idx)
        ctx.ob(file + " verify_group_proof", what + ": no index beyond the tree", beyond)
        def shape():
            for k in range(depth) if depth < 6 else (0, depth - 1):
                for more in (False, True):
                    p = [list(s) for s in path]
                    if more: p[k].append(t.F.var("x"))
                    else: p[k].pop()
                    try: r = t.verify(fresh, t.digest(want), p, idx, row)
                    except Panic: continue
                    if r is True: return "a path with %d siblings on level %d is accepted" % (len(p[k]), k)
        if depth: ctx.ob(file + " verify_group_proof", what + ": every level has its siblings", shape)
def mentions(t, name):
    """Whether the term depends on the named variable."""
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if isinstance(x, FE): st.extend(x.F.atoms[a] for m in x.d for a, _ in x.F.monos[m])
        elif isinstance(x, (tuple, list)): st.extend(x)
        elif isinstance(x, BV): st.extend(x.bits)
        elif isinstance(x, Term) and x.id not in seen:
            seen.add(x.id)
            if x.op == "var" and x.args[1] == name: return True
            st.extend(x.args)
    return False
class Far(list):
    """A vector of n entries computed on demand."""
    def __init__(self, n, fn): super().__init__(); self.n, self.fn = n, fn
    def __len__(self): return self.n
    def __getitem__(self, i):
        if isinstance(i, slice): return [self.fn(k) for k in range(*i.indices(self.n))]
        return self.fn(i)
def offsets(t, h):
    o, off = [], 0
    while True:
        o.append((off, h))
        if h == 1: return o, off + 1
        n = -(-h // t.ar) * t.ar; off += n; h = n // t.ar
def far_job(ctx, job):
    """Trees too high to build: the opening reads the row and the siblings that belong to its index."""
    name, w, h = job
    I = interp(ctx)
    t = Tree(I, name); gl = t.gl
    what = "%d rows of %d" % (h, w)
    ar = next(x for x in I.types if x.get("p") == t.P and x.get("v"))
    names = [f["n"] if isinstance(f, dict) else f[0] for f in ar["v"][0]["f"]]
    def run():
        small = [t.build(rows_of(gl, 1, n)) for n in (3, 35)]
        for tr, n in zip(small, (3, 35)):
            if len(M.items(M.deref(tr).f[names.index("nodes")])) != offsets(t, n)[1]: raise Undecided("another layout of the nodes")
        o, total = offsets(t, h)
        tr = t.new(); g = M.deref(tr)
        node = lambda i: t.digest([gl.var("n%d_%d" % (i, k)) for k in range(4)] if name == "GL" else t.F.var("n%d" % i))
        for k, v in (("nodes", Vec(Far(total, node))), ("elements", Vec(Far(w * h, lambda i: gl.var("x%d" % i)))), ("width", w), ("height", h)): g.f[names.index(k)] = v
        top = 1
        idxs = {0, 1, h - 1, h // 2, h // 3, *(1 << k for k in range(h.bit_length()) if 1 << k < h), *((1 << k) - 1 for k in range(h.bit_length()) if 1 << k <= h)}
        for idx in sorted(idxs):
            r = I.unphi(t.call("get_group_proof", tr, idx))
            if r.v: return "the opening of row %d is refused" % idx
            row = H.fes(I, r.f[0].f[0]); path = [H.fes(I, s) for s in M.items(r.f[0].f[1])]
            if [x.d for x in row] != [gl.var("x%d" % (idx * w + j)).d for j in range(w)]: return "the opening of row %d returns another row" % idx
            if len(path) != len(o) - 1: return "the opening of row %d has %d levels instead of %d" % (idx, len(path), len(o) - 1)
            i = idx
            for lv, sibs in enumerate(path):
                d, first = i % t.ar, o[lv][0] + i - i % t.ar
                if name == "GL":
                    if [x.d for x in sibs[:4]] != [gl.var("n%d_%d" % (first + 1 - d, k)).d for k in range(4)]: return "the opening of row %d has another sibling on level %d" % (idx, lv)
                else:
                    for k in range(16):
                        if k != d and sibs[k].d != t.F.var("n%d" % (first + k)).d: return "the opening of row %d has another sibling on level %d" % (idx, lv)
                i //= t.ar
    ctx.ob(t.file + " get_group_proof", what, run)
def job(ctx, j):
    if j[0] == "far": return far_job(ctx, j[1:])
    (build_job if j[0] == "build" else verify_job)(ctx, j[1:])
def run(ctx):
    jobs = []   # heavy ones first
    full = ctx.tier != "quick"
    for name in TREES:
        gl = name == "GL"
        hs = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 33] if gl else [1, 2, 15, 16, 17, 31, 32, 33, 257, 273]
        if full: hs += list(range(6, 70, 3)) + ([] if gl else [255, 256, 272, 512, 1000])
        for h in sorted(set(hs)): jobs.append(("build", name, 2, h, 4))
        for w in ((1, 4, 5, 9) if gl else (1, 3, 4, 7, 49)): jobs.append(("build", name, w, 17, 4))
        for c in (1, 2, 3, 9, 65): jobs.append(("build", name, 1, 40, c))
        if gl: jobs += [("build", name, 8192, 9, 4), ("build", name, 1, 8400, 4)]
        elif full: jobs.append(("build", name, 1, 66000, 4))
        for h in (300, 5000, 70000, 1 << 20, (1 << 24) + 3, (1 << 31) + 17): jobs.append(("far", name, 2, h))
        for d in ((12, 31) if gl else (5, 8)): jobs.append(("verify", name, 2, d))
        for d in ((0, 1, 2, 3, 5) if gl else (0, 1, 2, 3)): jobs.append(("verify", name, 5, d))
    ctx.parallel(job, sorted(jobs, key=lambda j: -(j[2] * j[3] if j[0] == 'build' else 500 if j[0] == 'far' else j[3] * 9)))
