"""Normal form of key material: element-wise copies are the copied value, repeated block encryption is one term."""
from .terms import *
from .canon import isapp, cat_items
from .view import paths
from .guards import leavesof


class Keys:
    def __init__(self, I, C):
        self.I, self.C = I, C
        self.memo, self.busy = {}, set()

    def nf(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return t
        self.busy.add(t)
        r = self.memo[t] = self._nf(t)
        self.busy.discard(t)
        return r

    def _nf(self, t):
        if t.op == "case":
            alts = [(k, self.nf(v)) for k, v in case_alts(t) if v is not BOT]
            if alts and all(v is alts[0][1] for k, v in alts):
                return alts[0][1]
            return mkcase(t.a[0], alts)
        if t.op == "mu" and t in self.I.mus:
            return self.loop(t)
        if isapp(t, "sha256", "sec", "unsec", "cat", "slice", "slice_from", "take", "aesblk"):
            if isapp(t, "sha256") and t.a[1].op == "mu":
                c = self.C.canon(t.a[1])
                if c is not t.a[1]:
                    return self.nf(app("sha256", c))
            c = app(t.a[0], *[self.nf(x) for x in t.a[1:]]) if t.a[0] != "cat" else cat(*[self.nf(x) for x in t.a[1:]])
            if isapp(c, "cat"):
                c = self.join(c)
            if isapp(c, "unsec") and isapp(c.a[1], "sec"):
                return c.a[1].a[1]
            if isapp(c, "slice"):
                return self.slice(c.a[1], c.a[2], c.a[3])
            if isapp(c, "take"):
                n = self.width(c.a[1])
                return self.slice(c.a[1], cint(0), c.a[2]) if n.op == c.a[2].op == "const" and n.a[1] >= c.a[2].a[1] else c
            if isapp(c, "slice_from"):
                n = self.width(c.a[1])
                return self.slice(c.a[1], c.a[2], n) if n.op == "const" else c
            return c
        if t.op == "upd":
            return self.update(t)
        if t.op == "agg" and t.a[0] == "array" and len(t.a) > 3 and all(isapp(x, "at", "index") for x in t.a[3:]):
            return t
        c = self.C.canon(t)
        if c is not t and c.op != "star":
            return self.nf(c)
        return t

    def slice(self, x, a, b):
        if a is cint(0) and (b is self.width(x)):
            return x
        if isapp(x, "slice") and a.op == b.op == x.a[2].op == "const":
            return self.slice(x.a[1], cint(x.a[2].a[1] + a.a[1]), cint(x.a[2].a[1] + b.a[1]))
        if isapp(x, "cat") and a.op == b.op == "const":
            pos, out = 0, []
            for y in x.a[1:]:
                n = length(y)
                if n.op != "const":
                    return app("slice", x, a, b)
                s, e = pos, pos + n.a[1]
                if e <= a.a[1] or s >= b.a[1]:
                    pass
                elif s >= a.a[1] and e <= b.a[1]:
                    out.append(y)
                else:
                    out.append(self.slice(y, cint(max(s, a.a[1]) - s), cint(min(e, b.a[1]) - s)))
                pos = e
            return cat(*out)
        if isapp(x, "repeat") and a.op == b.op == "const":
            return app("repeat", x.a[1], cint(b.a[1] - a.a[1]))
        return app("slice", x, a, b)

    def join(self, c):
        """adjacent slices of one value"""
        out = []
        for x in c.a[1:]:
            if out and isapp(x, "slice") and isapp(out[-1], "slice") and out[-1].a[1] is x.a[1] and out[-1].a[3] is x.a[2]:
                out[-1] = self.slice(x.a[1], out[-1].a[2], x.a[3])
            else:
                out.append(x)
        return out[0] if len(out) == 1 else cat(*out)

    def update(self, t):
        """array overwritten in ranges: the concatenation of the parts, if they cover it"""
        n = self.width(t)
        if n.op != "const":
            return t
        x, ups = t, []
        while x.op == "upd":
            ups.append((x.a[1], x.a[2]))
            x = x.a[0]
        base = self.nf(x)
        parts = [(0, n.a[1], base, 0)]
        for k, v in reversed(ups):
            if k[0] == "s":
                a, b = (y.a[1] if isinstance(y, T) and y.op == "const" else y if isinstance(y, int) else None for y in k[1:3])
            elif k[0] == "i" and isinstance(k[1], int):
                a, b = k[1], k[1] + 1
            else:
                return t
            if a is None or b is None:
                return t
            new = []
            for s, e, w, off in parts:
                if e <= a or s >= b:
                    new.append((s, e, w, off))
                    continue
                if s < a:
                    new.append((s, a, w, off))
                if e > b:
                    new.append((b, e, w, off + b - s))
            new.append((a, b, self.nf(v), 0))
            parts = sorted(new, key=lambda p: p[0])
        out = []
        for s, e, w, off in parts:
            l = length(w)
            if off == 0 and l.op == "const" and l.a[1] == e - s or isapp(w, "aesblk") and off == 0 and e - s == 16:
                out.append(w)
            else:
                out.append(self.slice(w, cint(off), cint(off + e - s)))
        return out[0] if len(out) == 1 else self.join(cat(*out))

    def width(self, t, seen=()):
        while t.op == "upd":
            t = t.a[0]
        if t.op == "mu" and t in self.I.mus and t not in seen:
            E, B = self.I.mus[t]
            n = self.width(E, seen + (t,))
            return n if all(x is t or x.op == "upd" or self.width(x, seen + (t,)) is n for x in leavesof(B)) else length(t)
        if isapp(t, "unsec"):
            return self.size(t)
        if isapp(t, "slice") and t.a[2].op == t.a[3].op == "const":
            return cint(t.a[3].a[1] - t.a[2].a[1])
        return length(t)

    # ------------------------------------------------------------------ loops
    def loop(self, m):
        I = self.I
        E, B = I.mus[m]
        c = self.copied(m, E, B)
        if c is not None:
            return c
        r = self.rounds(m)
        if r is not None:
            return r
        c = self.C.canon(m)
        return self.nf(c) if c is not m and c.op != "mu" else m

    def copied(self, m, E, B):
        """X, if the loop sets every element m[i] to X[i]"""
        if B.op != "upd" or B.a[0] is not m:
            return None
        k, v, n = B.a[1], B.a[2], self.width(E)
        site = None
        if k[0] == "e" and v.op == "elem" and v.a[1] == k[1]:
            X, site = v.a[0], k[1]
        elif k[0] == "e" and isapp(v, "index", "at") and v.a[2].op == "idx" and v.a[2].a[1] == k[1]:
            X, site = v.a[1], k[1]
        elif k[0] == "i" and isinstance(k[1], T) and k[1].op == "idx" and v.op == "elem" and v.a[1] == k[1].a[1] and k[1].a[0] is v.a[0]:
            X, site = v.a[0], v.a[1]
        elif k[0] == "i" and isinstance(k[1], T) and isapp(v, "index", "at") and v.a[2] is k[1]:
            X, i = v.a[1], k[1]
            if i.op == "elem" and isapp(i.a[0], "range") and i.a[0].a[1] is cint(0) and (i.a[0].a[2] is n or i.a[0].a[2] is self.size(X)):
                site = i.a[1]
            elif i.op == "mu" and n.op == "const" and self.count(m.a[:2], i) is n and self.C and self.I.mus[i][0] is cint(0):
                site = True
        if site is None or site is not True and not self.stepped(m.a[:2], site) or m in subterms(X):
            return None
        X = self.nf(X)
        return X if self.size(X) is n else app("copy", X, n)

    def size(self, x):
        n = length(x)
        if isapp(x, "unsec") and x.a[1].op == "fld" and KEY32(x.a[1]):
            return cint(32)
        return n

    def stepped(self, loop, site):
        """the only iterator of the loop is the one at site, and it ends the loop"""
        run, h = I_loop(self.I, loop)
        body = run.loops[h]["body"]
        nx = [e for b in body for e in run.events.get(b, {}).values() if e.kind == "next"]
        return len(nx) == 1 and nx[0].args[2].a == site

    def rounds(self, m):
        """m is 16-byte halves that are encrypted once per iteration"""
        I = self.I
        E, B = I.mus[m]
        self.busy.discard(m)
        old = dict(self.memo)
        b = Fold(self, m.a[:2]).nf(B)
        self.memo = old
        self.busy.add(m)
        blocks = cat_items(b)
        if not blocks or not all(isapp(x, "aesblk") for x in blocks):
            return None
        n = self.count(m.a[:2])
        if n is None:
            return None
        E = self.nf(E)
        pos, out = 0, []
        for x in blocks:
            key, arg = x.a[1], x.a[2]
            if len(blocks) == 1:
                good = arg is m
                part = E
            else:
                good = isapp(arg, "slice") and arg.a[1] is m and arg.a[2] is cint(pos) and arg.a[3] is cint(pos + 16)
                part = self.slice(E, cint(pos), cint(pos + 16))
            if not good:
                return None
            out.append(app("rounds", self.cipher(key), n, part))
            pos += 16
        return cat(*out)

    def cipher(self, k):
        if k.op == "agg" and k.a[2] and len(k.a) > 3:
            return app("aes", *[cstr(show(x, 2)) if "KeySize" in show(x, 2) else self.nf(x) for x in k.a[3:]])
        return k

    def count(self, loop, only=None):
        """number of iterations (as counted by the given variable)"""
        I = self.I
        run, h = I_loop(I, loop)
        L = run.loops[h]
        body = L["body"]
        inner = [x["body"] for g, x in run.loops.items() if g != h and g in body]
        own = [b for b in body if not any(b in x for x in inner)]
        nx = [e for b in own for e in run.events.get(b, {}).values() if e.kind == "next"]
        leave = L["X"]
        if not leave:
            return None
        if len(nx) == 1:
            if any(x.get(nx[0].args[2]) != (True, frozenset([0])) for x in leave):
                return None
            it = nx[0].args[0]
            c = it
            if c.op == "agg":
                if any(isinstance(x, T) and isapp(x, "skip", "step") for x in c.a[3:]):
                    return None
                c = c.a[3]
            if isapp(c, "range") and c.a[1] is cint(0):
                return c.a[2]
            if isapp(c, "range_incl") and c.a[1] is cint(1):
                return c.a[2]
            return None
        if nx:
            return None
        for m, (E, B) in I.mus.items():
            if m.op != "mu" or m.a[:2] != loop or only not in (None, m):
                continue
            bs = [v for f, v in paths(I, B)]
            if E is cint(0) and all(isapp(x, "add") and set(x.a[1:]) == {m, cint(1)} for x in bs):
                for t, v in L["B"].facts.items():
                    if isapp(t, "lt") and t.a[1] is m and v == (True, frozenset([1])) and all(x.get(t) == (True, frozenset([0])) for x in leave):
                        return t.a[2]
                    if isapp(t, "eq") and m in t.a[1:] and v == (True, frozenset([0])) and all(x.get(t) == (True, frozenset([1])) for x in leave):
                        return t.a[2] if t.a[1] is m else t.a[1]
            if all(isapp(x, "sub") and x.a[1] is m and x.a[2] is cint(1) for x in bs):
                for t, v in L["B"].facts.items():
                    if isapp(t, "lt") and t.a[1] is cint(0) and t.a[2] is m and v == (True, frozenset([1])) and all(x.get(t) == (True, frozenset([0])) for x in leave):
                        return E
                    if isapp(t, "eq") and m in t.a[1:] and cint(0) in t.a[1:] and v == (True, frozenset([0])) and all(x.get(t) == (True, frozenset([1])) for x in leave):
                        return E
        return None


class Fold(Keys):
    """normal form in which the variables of one loop stay as they are"""
    def __init__(self, K, loop):
        Keys.__init__(self, K.I, K.C)
        self.fixed = loop

    def loop(self, m):
        return m if m.a[:2] == self.fixed else Keys.loop(self, m)


def I_loop(I, loop):
    return I.loopinfo[loop]


def KEY32(t):
    """field of a credential, always built from a SHA-256 value"""
    return t.a[1] in ("0",) and t.a[2].op in ("fld", "sym") and (t.a[2].op == "sym" or t.a[2].a[1] == "composite_key")
