"""The output term of Database::save taken apart: signatures, version, header records, payload."""
from .terms import *
from .canon import cat_items
from .interp import Interp, AnalysisError


class Layout(Exception):
    """the output does not have the shape of a KeePass 2 file"""


class Rec:
    def __init__(self, id, size, value, cond):
        self.id, self.size, self.value, self.cond = id, size, value, cond

    def __repr__(self):
        return "record %s (%s bytes) %s%s" % (self.id, show(self.size, 3), show(self.value, 3), " if %s" % (self.cond,) if self.cond else "")


def enc(t, *w):
    return t.op == "app" and t.a[0] == "enc" and t.a[2].a[1] in w


def as_bytes(t):
    """constant bytes of an item"""
    if t.op == "const" and t.a[0] in ("bytes", "str"):
        b = t.a[1]
        return bytes(b.encode() if isinstance(b, str) else b)
    if t.op == "app" and t.a[0] == "enc" and t.a[3].op == "const":
        n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}.get(t.a[2].a[1])
        if n:
            return (t.a[3].a[1]).to_bytes(n, "little" if t.a[1].a[1] == "LE" else "big")
    if t.op == "agg" and t.a[0] == "array" and all(x.op == "const" for x in t.a[3:]):
        return bytes(x.a[1] for x in t.a[3:])
    return None


def width(t):
    if t.op == "app" and t.a[0] == "enc":
        return {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i32": 4, "i64": 8}.get(t.a[2].a[1])
    b = as_bytes(t)
    return None if b is None else len(b)


def record(items, i, cond, out):
    """one header record at items[i:]; returns the next index"""
    h = items[i]
    if i + 1 >= len(items):
        raise Layout("header ends in the middle of a record")
    if not enc(h, "u8") or h.a[3].op != "const":
        raise Layout("expected a header identifier, found %s" % show(h, 4))
    s = items[i + 1]
    if not enc(s, "u16") or s.a[1].a[1] != "LE":
        raise Layout("length of header %s is %s instead of 16 bits little endian" % (show(h.a[3], 2), show(s, 4)))
    size = s.a[3]
    if size.op == "const":
        n, j, vals = size.a[1], i + 2, []
        k = 0
        while k < n:
            if j >= len(items):
                raise Layout("header %s announces %d bytes but only %d follow" % (h.a[3].a[1], n, k))
            L = width(items[j])
            if L is None:
                x = length(items[j])
                L = x.a[1] if x.op == "const" else None
            if L is None:
                raise Layout("size of %s in header %s is not known to be %d" % (show(items[j], 4), h.a[3].a[1], n))
            k += L
            vals.append(items[j])
            j += 1
        if k != n:
            raise Layout("header %s announces %d bytes but its value has %d" % (h.a[3].a[1], n, k))
        out.append(Rec(h.a[3].a[1], size, cat(*vals), cond))
        return j
    # symbolic length: exactly one value whose length it is
    x = size
    if x.op == "app" and x.a[0] == "exact":
        x = x.a[2]
    if i + 2 >= len(items) or length(items[i + 2]) is not x:
        raise Layout("header %s announces %s bytes for %s" % (h.a[3].a[1], show(size, 4), show(items[i + 2], 4) if i + 2 < len(items) else "nothing"))
    out.append(Rec(h.a[3].a[1], size, items[i + 2], cond))
    return i + 3


class File:
    pass


def parse(out):
    items = cat_items(out)
    F = File()
    F.items = items
    pre, i = b"", 0
    while i < len(items) and as_bytes(items[i]) is not None and len(pre) < 8:
        pre += as_bytes(items[i])
        i += 1
    F.start = i
    if len(pre) != 8:
        raise Layout("the file starts with %d constant bytes instead of two 4-byte signatures" % len(pre))
    F.sig = pre
    if i + 2 > len(items) or not (enc(items[i], "u16") and enc(items[i + 1], "u16") and items[i].a[1].a[1] == items[i + 1].a[1].a[1] == "LE"):
        raise Layout("the version is not two 16-bit little endian numbers")
    F.minor, F.major = items[i].a[3], items[i + 1].a[3]
    i += 2
    F.records = []
    while i < len(items):
        x = items[i]
        if x.op == "case":
            for k, v in case_alts(x):
                sub = cat_items(v)
                j = 0
                while j < len(sub):
                    j = record(sub, j, (x.a[0], k), F.records)
            i += 1
            continue
        j, i = i, record(items, i, None, F.records)
        F.records[-1].pos = (j, i)
        if F.records[-1].id == 0:
            break
    else:
        raise Layout("no end marker after the header")
    F.header_items = items[:i]
    F.payload = items[i:]
    return F


def saved(W):
    """(Entry, Canon, output term) of Database::save when it succeeds"""
    from .canon import Canon
    e = W.entry(W.method("Database", "save"))
    if not hasattr(e, "out"):
        e.C = Canon(e.I)
        f = e.I.assume(e.run.exit.facts, e.I.disc(e.run.ret, RES), True, [0])
        if f is None:
            raise AnalysisError("save never succeeds")
        e.okfacts = f
        w = e.C.canon(e.I.simp(e.run.exit.mem[("p", "writer")], f))
        it = cat_items(w)
        if not it or it[0] is not mk("sym", "writer"):
            raise Layout("the output does not start where the writer stood: %s" % show(w, 3))
        e.out = cat(*it[1:])
    return e


def is_rand(t):
    """whole output of one draw from the operating system's generator -> the draw"""
    if t.op == "app" and t.a[0] == "rand" and t.a[1].op == "call" and "OsRng" in str(t.a[1].a[2:]):
        n, m = t.a[2], t.a[1].a[-1]
        if n is m:
            return t.a[1]
    return None
