"""Reference Poseidon permutations on abstract field elements (Field in wrap mode)."""
import json, os, sys
from dom import *
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
def lin(F, row, st):
    d = {}; p = F.p
    for k, x in zip(row, st):
        if not k: continue
        for m, c in x.d.items(): d[m] = d.get(m, 0) + k * c
    d2 = {}
    for m, c in d.items():
        c %= p
        if c: d2[m] = c
    return FE(F, d2)
def perm(F, st, C, M, rf, rp, alpha):
    t = len(st)
    for r in range(rf + rp):
        st = [fadd(x, F.const(C[r * t + i])) for i, x in enumerate(st)]
        if r < rf // 2 or r >= rf // 2 + rp: st = [fpow(x, alpha) for x in st]
        else: st = [fpow(st[0], alpha)] + st[1:]
        st = [lin(F, M[i], st) for i in range(t)]
    return st
_gl = None
def gl(F, st):
    global _gl
    if _gl is None: _gl = json.load(open(os.path.join(VERIF, "ref", "poseidon_gl.json")))
    circ, diag = _gl["circ"], _gl["diag"]
    M = [[circ[(j - i) % 12] + (diag[i] if i == j else 0) for j in range(12)] for i in range(12)]
    return perm(F, st, _gl["C"], M, 8, 22, 7)
BN_RP = [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68]
BLS_RP = [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59]
_tab = {}
def tables(curve, t):
    """(round constants, matrix as used row-wise) of the width, regenerated from the Grain LFSR."""
    k = (curve, t)
    if k not in _tab:
        import grain, fieldmodels as FM
        if curve == "BN": C, M = grain.table(FM.BN_P, 254, t, 8, BN_RP[t - 2])
        elif curve == "BLS": C, M = grain.table(FM.BLS_P, 255, t, 8, BLS_RP[t - 2], neptune=True)   # the Neptune instance
        else: C, M = grain.table(FM.BLS_P, 255, t, 8, BN_RP[t - 2])      # the retired plain implementation's parameters
        _tab[k] = (C, M)
    return _tab[k]
def curve(F, name, st):
    t = len(st)
    C, M = tables(name, t)
    rp = (BLS_RP if name == "BLS" else BN_RP)[t - 2]
    return perm(F, st, C, M, 8, rp, 5)
