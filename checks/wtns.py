"""Binary witness and constraint files, as bytes."""
from dom import *
from aeval import *
import models as M, fieldmodels as FM, iomodels as IO
def le(v, n): return [(v >> (8 * i)) & 255 for i in range(n)] if isinstance(v, int) else IO.unword(v, n)
def felt(e, n):
    b = bits_of(FM.canon(e), 64 * ((n + 7) // 8)) if not e.is_const() else None
    if b is None: return le(e.cval(), n)
    return [bv(b[8 * i:8 * i + 8]) for i in range(n)]
class Rd:
    """A reader crate at one field."""
    def __init__(self, I, crate, fname, engine, n):
        self.I, self.crate, self.fname, self.engine, self.n = I, crate, fname, engine, n
        self.F = I.F[fname]
        self.file = crate + "/src/"
        self.c = crate.replace("-", "_")
    def h(self, data, name="f"):
        o = IO.fs(self.I)[name] = IO.FileObj(data); return IO.FileH(o, name)
def readers(I):
    return [Rd(I, "algebraic-gpu", "SBLS", "blstrs::scalar::Scalar", 32), Rd(I, "algebraic", "EBN", "franklin_crypto::bellman::pairing::bn256::Bn256", 32), Rd(I, "algebraic", "EBLS", "franklin_crypto::bellman::pairing::bls12_381::Bls12", 32)]
def outcome(f):
    """("ok", value) / ("err", None) / ("panic", message)"""
    try: r = f()
    except Panic as e: return "panic", str(e)
    return ("err", None) if r.v else ("ok", r.f[0])
