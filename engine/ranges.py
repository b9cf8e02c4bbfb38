"""Bounds of integer terms under facts."""
from .terms import *
from .canon import isapp
from .interp import NOFACTS
from .terms import _VN
from .view import paths
from .dump import deref_ty, ty_name
from .invariants import buffer_len

INF = 1 << 200
WIDTH = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
         "u128": (0, 2**128 - 1), "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
         "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "bool": (0, 1), "char": (0, 0x10ffff)}
LEN = (0, 2**63 - 1)


class Ranges:
    def __init__(self, I, facts, C=None):
        self.I, self.f, self.C = I, facts, C
        self.memo = {}

    def sub(self, sel, key):
        g = self.I.assume(self.f, sel, True, [key]) if key != "*" else self.f
        return None if g is None else Ranges(self.I, g, self.C)

    def of(self, t, d=0):
        """(lowest, highest) value"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = (-INF, INF)
        lo, hi = self.shape(t, d) if d < 40 else (-INF, INF)
        pv = self.f.get(t)
        if pv:
            vals = [v for v in pv[1] if isinstance(v, int)]
            if pv[0] and vals and len(vals) == len(pv[1]):
                lo, hi = max(lo, min(vals)), min(hi, max(vals))
            elif not pv[0]:
                while lo in pv[1]:
                    lo += 1
                while hi in pv[1]:
                    hi -= 1
        for x, (p, vs) in self.f.items():
            if not (isapp(x, "lt") and p and len(vs) == 1):
                continue
            v = next(iter(vs))
            a, b = x.a[1], x.a[2]
            if a is t and b is not t:
                bl, bh = self.quick(b, d)
                if v:
                    hi = min(hi, bh - 1)
                else:
                    lo = max(lo, bl)
            elif b is t and a is not t:
                al, ah = self.quick(a, d)
                if v:
                    lo = max(lo, al + 1)
                else:
                    hi = min(hi, ah)
        self.memo[t] = (lo, hi)
        return lo, hi

    def quick(self, t, d):
        if t.op == "const" and isinstance(t.a[1], int):
            return t.a[1], t.a[1]
        return self.of(t, d + 5)

    def shape(self, t, d):
        if t.op == "const":
            v = t.a[1]
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return v, v
            return -INF, INF
        if t.op == "case":
            rs = []
            for k, v in case_alts(t):
                s = self.sub(t.a[0], k)
                if s is not None and v is not BOT:
                    rs.append(s.of(v, d + 1))
            return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else (0, 0)
        if t.op == "disc":
            return self.variants(t.a[0])
        if t.op == "app":
            n = t.a[0]
            if n == "len":
                return self.lens(t.a[1], d + 1)
            if n == "num":
                return WIDTH.get(t.a[2].a[1], (-INF, INF))
            if n == "exact":
                w = WIDTH.get(str(t.a[1].a[1] if isinstance(t.a[1], T) else t.a[1]), (-INF, INF))
                r = self.of(t.a[2], d + 1)
                return max(w[0], r[0]), min(w[1], r[1])
            if n == "cast":
                w = WIDTH.get(t.a[2], (-INF, INF))
                r = self.of(t.a[3], d + 1)
                s = WIDTH.get(t.a[1])
                if s:
                    r = max(r[0], s[0]), min(r[1], s[1])
                return r if w[0] <= r[0] and r[1] <= w[1] else w
            if n in ("parse", "radix"):
                for x in t.a[1:]:
                    if isinstance(x, T) and x.op == "const" and x.a[1] in WIDTH:
                        return WIDTH[x.a[1]]
            if n == "posof":
                h = self.of(length(t.a[1]), d + 1)[1]
                return 0, h - 1
            if n in ("add", "sub", "mul", "div", "rem", "bitand", "shr", "min", "max") and len(t.a) == 3:
                (a, b), (c, e) = self.of(t.a[1], d + 1), self.of(t.a[2], d + 1)
                if n == "add":
                    return clamp(a + c, b + e)
                if n == "sub":
                    return clamp(a - e, b - c)
                if n == "mul":
                    ps = [a * c, a * e, b * c, b * e]
                    return clamp(min(ps), max(ps))
                if n == "div" and c >= 1 and a >= 0:
                    return a // e, b // c
                if n == "rem" and c >= 1 and a >= 0:
                    return 0, min(b, e - 1)
                if n == "bitand":
                    if c >= 0:
                        return 0, (min(b, e) if a >= 0 else e)
                    if a >= 0:
                        return 0, b
                if n == "shr" and a >= 0 and 0 <= c:
                    return a >> min(e, 300), b >> min(c, 300)
                if n == "min":
                    return min(a, c), min(b, e)
                if n == "max":
                    return max(a, c), max(b, e)
        if t.op == "fld" and t.a[2] in self.I.room:
            return 0, self.of(self.I.room[t.a[2]], d + 1)[1]
        if t.op in ("mu", "fld"):
            ls = self.leaves(t)
            if ls:
                return self.counter(t, ls, d)
        if t.op == "idx":
            h = self.of(length(t.a[0]), d + 1)[1]
            return 0, h - 1
        if t.op == "elem" and isapp(t.a[0], "range"):
            return self.of(t.a[0].a[1], d + 1)[0], self.of(t.a[0].a[2], d + 1)[1] - 1
        return -INF, INF

    def counter(self, t, ls, d):
        """bounds of a loop variable that every round keeps"""
        if d > 12:
            return -INF, INF
        first = [Ranges(self.I, f, self.C).of(v, d + 1) for f, v in ls[:1]]
        lo, hi = first[0]
        if lo >= 0 and hi <= 2 ** 32 and all(v is t or isapp(v, "add") and any(
                x is t and y.op == "const" and isinstance(y.a[1], int) and 0 <= y.a[1] <= 256 for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])))
                for f, v in ls[1:]):
            return lo, 2 ** 62      # no loop makes 2^54 rounds
        for side in ("both", "lo", "hi"):
            h = (lo if side != "hi" else -INF, hi if side != "lo" else INF)
            good = True
            for f, v in ls:
                s = Ranges(self.I, f, self.C)
                s.memo[t] = h
                q = h if v is t else s.of(v, d + 1)
                good = good and h[0] <= q[0] and q[1] <= h[1]
            if good:
                return h
        return -INF, INF

    # ------------------------------------------------------------------ lengths of collections
    def lens(self, x, d=0):
        """(lowest, highest) length of a collection"""
        k = ("len", x)
        if k in self.memo:
            return self.memo[k]
        if d > 40:
            return LEN
        self.memo[k] = LEN
        r = self.lens1(x, k, d)
        if r == (INF, -INF):
            self.memo.pop(k)
            return r
        if r[0] > r[1]:
            r = LEN
        lo, hi = max(r[0], 0), min(r[1], LEN[1])
        for t, (p, vs) in list(self.f.items()):
            if isapp(t, "starts_with", "ends_with") and p and set(vs) == {1} and t.a[2] is not x and self.same(t.a[1], x):
                lo = max(lo, self.of(length(t.a[2]), d + 5)[0])
            elif isapp(t, "contains") and isapp(t.a[1], "bounds") and p and set(vs) == {1} and self.same(t.a[1].a[1], x):
                lo = max(lo, self.reach(t.a[2], d))
            elif isapp(t, "eq") and p and set(vs) == {1} and (t.a[1] is x or t.a[2] is x):
                o = self.of(length(t.a[2] if t.a[1] is x else t.a[1]), d + 5)
                lo, hi = max(lo, o[0]), min(hi, o[1])
        self.memo[k] = (lo, hi)
        return lo, hi

    def reach(self, i, d):
        """least length of something that has the index or range i"""
        k = i.a[0].split("::")[-1] if i.op == "agg" and isinstance(i.a[0], str) else ""
        if k == "Range":
            return self.of(i.a[4], d + 1)[0]
        if k in ("RangeFrom", "RangeTo"):
            return self.of(i.a[3], d + 1)[0]
        if k == "RangeInclusive":
            return self.of(i.a[4], d + 1)[0] + 1
        if k == "RangeToInclusive":
            return self.of(i.a[3], d + 1)[0] + 1
        return 0 if k else self.of(i, d + 1)[0] + 1

    def same(self, a, b):
        return a is b or (self.C is not None and self.C.canon(a) is self.C.canon(b))

    def lens1(self, x, k, d):
        if x.op in ("mu", "fld") and self.leaves(x) is not None:
            # the least solution, confirmed by one more round
            r = (INF, -INF)
            for _ in range(3):
                self.memo[k] = r
                n = r
                for f, v in self.leaves(x):
                    s = Ranges(self.I, f, self.C)
                    s.memo[k] = r
                    q = self.memo[k] if v is x else s.of(length(v), d + 1) if not isapp(length(v), "len") or length(v).a[1] is not x else r
                    n = (min(n[0], q[0]), max(n[1], q[1]))
                if n == r:
                    return r
                r = n
            return LEN
        each = self.items(x)
        if each:
            rs = [self.of(length(y), d + 1) for y in each]
            return min(r[0] for r in rs), max(r[1] for r in rs)
        if isapp(x, "take"):
            n, q = self.of(x.a[2], d + 1), self.of(length(x.a[1]), d + 1)
            return min(n[0], q[0]), min(n[1], q[1])
        if isapp(x, "slice_from"):
            n, q = self.of(x.a[2], d + 1), self.of(length(x.a[1]), d + 1)
            return max(q[0] - n[1], 0), max(q[1] - n[0], 0)
        if isapp(x, "slice"):
            n, q = self.of(x.a[2], d + 1), self.of(x.a[3], d + 1)
            return max(q[0] - n[1], 0), max(q[1] - n[0], 0)
        t = self.type_of(x)
        if t[0] == "array" and isinstance(t[1], int):
            return t[1], t[1]
        if isapp(x, "unsec") and x.a[1].op == "fld":
            a = self.type_of(x.a[1].a[2])
            n = buffer_len(self.I.D, ty_name(a), x.a[1].a[1]) if a[0] == "adt" else None
            if n is not None:
                return n, n
        if isapp(x, "part") and len(x.a) == 4:
            return self.of(length(x.a[1]), d + 1)
        if isapp(x, "cat"):
            lo = hi = 0
            for p in x.a[1:]:
                q = (0, LEN[1]) if isapp(p, "enc") or p.op != "app" else LEN
                if isapp(p, "chunk"):
                    q = self.of(length(p.a[1]), d + 1)
                lo, hi = lo + q[0], hi + q[1]
            return lo, hi
        return LEN

    def type_of(self, x):
        """declared type of a parameter or of a field of one"""
        D = self.I.D
        if x.op == "sym":
            return deref_ty(self.I.symty.get(x, ("other",)))
        if x.op == "fld":
            b = self.type_of(x.a[2])
            for v in D.adts.get(ty_name(b), {}).get("v", []) if b[0] == "adt" else []:
                if x.a[0] in (None, v["n"]):
                    for f in v["f"]:
                        if f["n"] == x.a[1]:
                            return deref_ty(D.ty(f["t"]))
        return ("other",)

    def items(self, x):
        """the values of (a part of) an element of a fixed list"""
        path, y = [], x
        while y.op == "fld":
            path.append((y.a[0], y.a[1]))
            y = y.a[2]
        if y.op != "elem" or y.a[0].op != "agg" or y.a[0].a[0] != "array":
            return None
        out = list(y.a[0].a[3:])
        for p in reversed(path):
            out = [rebuild("fld", (p[0], p[1], z)) for z in out]
        return out

    def leaves(self, x):
        """[(facts, value)] of a variable of a loop, or of a part of one"""
        path, y = [], x
        while y.op == "fld":
            path.append((y.a[0], y.a[1]))
            y = y.a[2]
        if y.op != "mu" or y not in self.I.mus:
            return None
        E, B = self.I.mus[y]
        out = []
        for src, base in ((E, NOFACTS), (B, self.again(y))):
            if src is None:
                continue
            for f, v in paths(self.I, src, base):
                for p in reversed(path):
                    v = BOT if v is BOT else self.part(v, p)
                if v is not BOT:
                    out.append((f, v))
        return out

    def part(self, v, p):
        if v.op == "agg":
            vs = self.I.adts.get(v.a[0], {}).get("v") if isinstance(v.a[0], str) else None
            name = vs[v.a[1]]["n"] if vs and v.a[1] is not None else _VN.get((v.a[0], v.a[1]))
            if p[0] is not None and name is not None and name != p[0]:
                return BOT
            return v.a[3 + v.a[2].index(p[1])] if p[1] in v.a[2] else BOT
        if v.op == "case":
            return fmap(v, lambda x: self.part(x, p))
        return mk("fld", p[0], p[1], v)

    def again(self, m):
        """facts when another round starts"""
        li = self.I.loopinfo.get(m.a[:2])
        B = li[0].loops[li[1]]["B"] if li else None
        return B.facts if B else NOFACTS

    def variants(self, adt):
        a = self.I.adts.get(adt) if isinstance(adt, str) else None
        if not a:
            return -INF, INF
        ds = [v["d"] if isinstance(v.get("d"), int) else i for i, v in enumerate(a["v"])]
        return (min(ds), max(ds)) if ds else (0, 0)

    # ------------------------------------------------------------------ comparisons
    def le(self, a, b, strict=False):
        """a <= b (a < b) for certain"""
        a, b = self.I.simp(a, self.f), self.I.simp(b, self.f)
        if a is b:
            return not strict
        k = 1 if strict else 0
        if self.of(a)[1] + k <= self.of(b)[0]:
            return True
        lt, ge = self.f.get(app("lt", a, b)), self.f.get(app("lt", b, a))
        if lt and lt[0] and set(lt[1]) == {1}:
            return True
        if ge and ge[0] and set(ge[1]) == {0} and not strict:
            return True
        if a.op == "app" and a.a[0] == "posof" and self.length_of(b, a.a[1]):
            return True
        if a.op == "fld" and a.a[2] in self.I.room and not strict and self.le(self.I.room[a.a[2]], b):
            return True
        if a.op == "idx" and self.length_of(b, a.a[0]):
            return True
        if a.op == "elem" and isapp(a.a[0], "range"):
            return self.le(a.a[0].a[2], b)
        if isapp(a, "min"):
            return self.le(a.a[1], b, strict) or self.le(a.a[2], b, strict)
        if isapp(a, "sub") and self.of(a.a[2])[0] >= k and self.le(a.a[1], b) and self.le(a.a[2], a.a[1]):
            return True
        if isapp(a, "div", "shr", "rem") and self.of(a.a[1])[0] >= 0 and not strict:
            return self.le(a.a[1], b)
        if isapp(b, "add"):
            for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                if self.of(y)[0] >= 0 and self.le(a, x, strict):
                    return True
        if a.op == "case":
            return all(s is None or v is BOT or s.le(v, b, strict) for s, v in ((self.sub(a.a[0], k2), v) for k2, v in case_alts(a)))
        if b.op == "case":
            return all(s is None or v is BOT or s.le(a, v, strict) for s, v in ((self.sub(b.a[0], k2), v) for k2, v in case_alts(b)))
        return False

    def length_of(self, n, coll):
        c = length(coll)
        if n is c:
            return True
        if self.C is not None:
            return self.C.canon(n) is self.C.canon(c)
        return False


def clamp(lo, hi):
    return max(lo, -INF), min(hi, INF)
