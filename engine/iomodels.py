"""Readers, writers and files: byte sequences (each byte an integer or eight abstract bits) with a position."""
from dom import *
import aeval as A
from aeval import *
import models as M
from models import m, ok, err, some, none, deref, conc, unit, sval, cstr

class FileObj:
    """Contents of a file."""
    def __init__(self, data=()): self.f = list(data)
    def __deepcopy__(self, memo): return self
class FileH:
    """Open file: f = [position]"""
    def __init__(self, obj, name=""): self.obj = obj; self.f = [0]; self.name = name
    def __deepcopy__(self, memo): return self
class Cursor:
    """f = [inner, position]"""
    def __init__(self, inner): self.f = [inner, 0]
class Take:
    def __init__(self, inner, n): self.f = [inner, n]

def ioerr(kind): return err(Agg(None, 0, [StrObj("io error: " + kind)]))
def locate(v):
    """(kind, object, slot holding it)"""
    slot = None
    while True:
        if type(v) is Ref: slot = v; v = v.c[v.k]
        elif type(v) is Box: v = v.f[0]; slot = None
        else: break
    return v, slot
def reader(I, v):
    """(bytes available from the position on, advance function)"""
    o, slot = locate(v)
    if type(o) is Phi: o = I.unphi(o)
    if type(o) is SRef or type(o) in (Vec, Arr):
        l = M.items(o)
        def adv(n):
            if slot is not None and type(o) is SRef: slot.set(SRef(o.l, o.o + n, o.n - n))
        return l, adv
    if type(o) is FileH:
        p = o.f[0]
        def adv(n): A.touch(o.f); o.f[0] = p + n
        return o.obj.f[p:], adv
    if type(o) is Cursor:
        p = o.f[1]; l = content(I, o.f[0])
        def adv(n): A.touch(o.f); o.f[1] = p + n
        return l[p:], adv
    if type(o) is Take:
        l, a = reader(I, o.f[0]); n0 = o.f[1]
        def adv(n): A.touch(o.f); o.f[1] = n0 - n; a(n)
        return l[:n0], adv
    raise Undecided("reader %s" % short(o))
def content(I, v):
    o, _ = locate(v)
    if type(o) is StrObj or isinstance(o, (str, SymStr)):
        s = M.sval(o)
        return [s] if isinstance(s, SymStr) else list(s.encode())
    return M.items(o)
def writer(I, v, data):
    o, slot = locate(v)
    if type(o) is Vec: A.touch(o.f); o.f.extend(data); return ok(unit())
    if type(o) is FileH:
        p = o.f[0]; A.touch(o.obj.f); A.touch(o.f)
        o.obj.f[p:p + len(data)] = data; o.f[0] = p + len(data)
        h = getattr(I, "on_write", None)
        if h: h(o, data)
        return ok(unit())
    if type(o) is Cursor:
        l = locate(o.f[0])[0]; p = o.f[1]; A.touch(o.f)
        if type(l) is Vec: A.touch(l.f); l.f[p:p + len(data)] = data
        else:
            if p + len(data) > len(M.items(l)): return ioerr("write zero")
            for i, x in enumerate(data): sset(l, p + i, x)
        o.f[1] = p + len(data); return ok(unit())
    if type(o) is SRef:
        if len(data) > o.n: return ioerr("write zero")
        for i, x in enumerate(data): sset(o, i, x)
        if slot is not None: slot.set(ssub(o, len(data)))
        return ok(unit())
    if isinstance(o, Opaque):
        return ok(unit())
    raise Undecided("writer %s" % short(o))
def sset(s, i, x):
    if type(s) is SRef: A.touch(s.l); s.l[s.o + i] = x
    else: A.touch(s.f); s.f[i] = x
def ssub(s, n): return SRef(s.l, s.o + n, s.n - n)

@m("Read::read_exact", "BufReader::read_exact")
def read_exact(I, a, c):
    l, adv = reader(I, a[0]); buf, _ = locate(a[1])
    n = len(M.items(buf))
    if len(l) < n: adv(len(l)); return ioerr("unexpected end of file")
    for i in range(n): sset(buf, i, l[i])
    adv(n); return ok(unit())
@m("Read::read")
def read(I, a, c):
    l, adv = reader(I, a[0]); buf, _ = locate(a[1])
    n = min(len(M.items(buf)), len(l))
    for i in range(n): sset(buf, i, l[i])
    adv(n); return ok(n)
@m("Read::read_to_end")
def read_to_end(I, a, c):
    l, adv = reader(I, a[0]); o, _ = locate(a[1]); A.touch(o.f); o.f.extend(l); adv(len(l)); return ok(len(l))
def text_of(l):
    if len(l) == 1 and isinstance(l[0], (str, SymStr)): return l[0]
    if all(isinstance(x, int) for x in l): return bytes(l).decode()
    if any(isinstance(x, (str, SymStr)) for x in l):
        out = ""; run = []
        for x in l:
            if isinstance(x, int): run.append(x)
            else:
                if run: out = M.scat(out, bytes(run).decode()); run = []
                out = M.scat(out, x)
        if run: out = M.scat(out, bytes(run).decode())
        return out
    raise Undecided("text of abstract bytes")
@m("Read::read_to_string")
def read_to_string(I, a, c):
    l, adv = reader(I, a[0]); o, _ = locate(a[1]); A.touch(o.f); o.f[0] = M.scat(o.f[0], text_of(l)); adv(len(l)); return ok(len(l))
@m("Read::by_ref", "Write::by_ref")
def by_ref(I, a, c): return a[0]
@m("Read::take")
def r_take(I, a, c): return Take(a[0], conc(I, a[1]))
@m("Write::write_all")
def write_all(I, a, c): return writer(I, a[0], content(I, a[1]))
@m("Write::write")
def write(I, a, c):
    d = content(I, a[1]); r = writer(I, a[0], d)
    return ok(len(d)) if r.v == 0 else r
@m("Write::flush", "File::sync_all", "BufWriter::flush")
def flush(I, a, c): return ok(unit())
@m("Seek::seek", "BufReader::seek_relative")
def seek(I, a, c):
    o, _ = locate(a[0]); w = I.unphi(a[1]); x = conc(I, w.f[0]) if isinstance(w, Agg) else conc(I, w)
    l = o.obj.f if type(o) is FileH else content(I, o.f[0])
    k = 0 if type(o) is FileH else 1
    p = x if isinstance(w, Agg) and w.v == 0 else len(l) + x if isinstance(w, Agg) and w.v == 1 else o.f[k] + x
    if p < 0: return ioerr("seek before start")
    A.touch(o.f); o.f[k] = p; return ok(p)
@m("Seek::stream_position", "Cursor::position")
def pos(I, a, c):
    o, _ = locate(a[0]); p = o.f[0] if type(o) is FileH else o.f[1]
    return p if "Cursor" in c["p"] else ok(p)
@m("Seek::rewind")
def rewind(I, a, c):
    o, _ = locate(a[0]); A.touch(o.f); o.f[0 if type(o) is FileH else 1] = 0; return ok(unit())
@m("Cursor::set_position")
def setpos(I, a, c):
    o, _ = locate(a[0]); A.touch(o.f); o.f[1] = conc(I, a[1]); return unit()
@m("Cursor::new")
def cur_new(I, a, c): return Cursor(a[0])
@m("Cursor::into_inner", "Cursor::get_ref", "Cursor::get_mut")
def cur_inner(I, a, c):
    o, _ = locate(a[0]); return o.f[0] if c["p"].endswith("into_inner") else Ref(o.f, 0)
@m("BufReader::new", "BufWriter::new", "LineWriter::new")
def buf_new(I, a, c): return a[0]
@m("BufReader::with_capacity", "BufWriter::with_capacity")
def buf_cap(I, a, c): return a[1]
@m("BufReader::into_inner", "BufReader::get_ref", "BufReader::get_mut", "BufWriter::get_ref", "BufWriter::get_mut")
def buf_inner(I, a, c): return a[0]
@m("BufWriter::into_inner")
def bufw_inner(I, a, c): return ok(a[0])
# byte order
def ends(I, c):
    for x in c.get("a", [])[::-1]:
        if isinstance(x, int):
            s = I.types[x]["s"]
            if "LittleEndian" in s: return "le"
            if "BigEndian" in s: return "be"
    raise Undecided("byte order")
SZ = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16, "24": 3, "48": 6}
def word(l):
    return bv(sum((bits_of(x, 8) for x in l), ()))
def unword(v, n):
    b = bits_of(v, 8 * n); return [bv(b[8 * i:8 * i + 8]) for i in range(n)]
def rd(I, a, c):
    name = split_path(c["p"])[-1]; n = SZ[name.split("_")[1][1:]]
    l, adv = reader(I, a[0])
    if len(l) < n: adv(len(l)); return ioerr("unexpected end of file")
    adv(n); w = l[:n]
    if n > 1 and ends(I, c) == "be": w = w[::-1]
    v = word(w)
    if name.split("_")[1][0] == "i":
        if not isinstance(v, int): raise Undecided("abstract signed word")
        if v >> (8 * n - 1): v -= 1 << (8 * n)
    return ok(v)
def wr(I, a, c):
    name = split_path(c["p"])[-1]; n = SZ[name.split("_")[1][1:]]
    l = unword(I.resolve(a[1]), n)
    if n > 1 and ends(I, c) == "be": l = l[::-1]
    return writer(I, a[0], l)
for k in ("u8", "i8", "u16", "u24", "u32", "u48", "u64", "u128", "i16", "i32", "i64", "i128"):
    m("ReadBytesExt::read_" + k)(rd); m("WriteBytesExt::write_" + k)(wr)
def bo_read(I, a, c):
    name = split_path(c["p"])[-1]; n = SZ[name.split("_")[1][1:]]
    l = M.items(a[0])
    if len(l) < n: raise Panic("slice too short")
    w = l[:n]
    if ends(I, c) == "be": w = w[::-1]
    return word(w)
def bo_write(I, a, c):
    name = split_path(c["p"])[-1]; n = SZ[name.split("_")[1][1:]]
    l = unword(I.resolve(a[1]), n)
    if ends(I, c) == "be": l = l[::-1]
    o, _ = locate(a[0])
    for i, x in enumerate(l): sset(o, i, x)
    return unit()
for k in ("u16", "u32", "u64", "u128"):
    m("ByteOrder::read_" + k)(bo_read); m("ByteOrder::write_" + k)(bo_write)
# files
def pathname(I, v):
    o, _ = locate(v)
    s = o.f[0] if type(o) is StrObj else o
    while isinstance(s, Agg) and s.f: s = s.f[0]
    if isinstance(s, StrObj): s = s.f[0]
    if isinstance(s, str): return s
    if isinstance(s, SymStr): return repr(M.akey(s))
    raise Undecided("path %s" % short(o))
def fs(I):
    if not hasattr(I, "fs"): I.fs = {}
    return I.fs
@m("File::open")
def f_open(I, a, c):
    n = pathname(I, a[0]); o = fs(I).get(n)
    if o is None: return ioerr("no such file " + n)
    return ok(FileH(o, n))
@m("File::create")
def f_create(I, a, c):
    n = pathname(I, a[0]); o = fs(I).get(n)
    if o is None: o = fs(I)[n] = FileObj()
    A.touch(o.f); o.f[:] = []
    return ok(FileH(o, n))
@m("fs::read")
def fs_read(I, a, c):
    o = fs(I).get(pathname(I, a[0])); return ok(Vec(list(o.f))) if o is not None else ioerr("no such file")
@m("fs::read_to_string")
def fs_rts(I, a, c):
    o = fs(I).get(pathname(I, a[0])); return ok(StrObj(text_of(o.f))) if o is not None else ioerr("no such file")
@m("fs::write")
def fs_write(I, a, c):
    n = pathname(I, a[0]); o = fs(I).get(n)
    if o is None: o = fs(I)[n] = FileObj()
    d, _ = locate(a[1]); A.touch(o.f)
    v = d.f[0] if type(d) is StrObj else d
    o.f[:] = [v] if isinstance(v, SymStr) else content(I, v)
    return ok(unit())
class OpenOpt:
    def __init__(self): self.f = [{}]
@m("OpenOptions::new")
def oo_new(I, a, c): return OpenOpt()
@m("OpenOptions::read", "OpenOptions::write", "OpenOptions::create", "OpenOptions::truncate", "OpenOptions::append", "OpenOptions::create_new")
def oo_set(I, a, c):
    o, _ = locate(a[0]); A.touch(o.f); o.f[0] = {**o.f[0], split_path(c["p"])[-1]: I.resolve(a[1])}; return a[0]
@m("OpenOptions::open")
def oo_open(I, a, c):
    d, _ = locate(a[0]); d = d.f[0]; n = pathname(I, a[1]); o = fs(I).get(n)
    if o is None:
        if not (d.get("create") or d.get("create_new")): return ioerr("no such file")
        o = fs(I)[n] = FileObj()
    elif d.get("create_new"): return ioerr("file exists")
    if d.get("truncate"): A.touch(o.f); o.f[:] = []
    h = FileH(o, n)
    if d.get("append"): h.f[0] = len(o.f)
    return ok(h)
@m("File::metadata", "fs::metadata")
def f_meta(I, a, c):
    o, _ = locate(a[0])
    if type(o) is not FileH:
        o = fs(I).get(pathname(I, a[0]))
        if o is None: return ioerr("no such file")
        return ok(Agg(None, 0, [len(o.f)]))
    return ok(Agg(None, 0, [len(o.obj.f)]))
@m("Metadata::len", "fs::len")
def meta_len(I, a, c): return deref(a[0]).f[0]
@m("Path::new", "PathBuf::from", "Path::to_path_buf", "Path::to_owned", "PathBuf::as_path")
def path_new(I, a, c): return a[0]
@m("io::Error::new", "Error::new", "io::Error::other", "Error::other", "error::new", "error::other")
def io_error(I, a, c): return Agg(None, 0, [StrObj("error")])
