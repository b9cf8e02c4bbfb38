"""What holds of every element of a list: fields that loops set or preserve, decided by induction over the loops."""
from .terms import *
from .interp import Facts, NOFACTS
from .view import paths, isapp
from .query import Query, Unknown, sel_of


def at(v, p):
    """component p of v; the element of an updated list at its own site is the updated element"""
    if p[0] in "ei":
        if v.op == "case":
            return mkcase(v.a[0], [(k, at(x, p)) for k, x in case_alts(v)])
        if v.op == "upd" and v.a[1] == p:
            return v.a[2]
        return elem_of(v, p[1]) if p[0] == "e" else proj(v, p)
    return proj(v, p)


class Forall:
    """every element of a list has, at a path of fields ("*" = of every element of a list field), a value that is accepted"""

    def __init__(self, q, accept, deep=()):
        """deep: what is accepted is a whole value; changes of its fields are harmless, except of these"""
        self.q, self.I, self.accept, self.deep = q, q.I, accept, deep
        self.n = 0

    # ------------------------------------------------------------ one value
    def has(self, v, path, hyp):
        self.n += 1
        if self.n > 200000:
            raise Unknown("too large")
        if v is BOT:
            return True
        if not path and not self.deep:
            return self.accept(v)
        if path and path[0] == "*":
            return self.all(v, path[1:], hyp)
        if v.op == "case":
            return all(self.has(x, path, hyp) for _, x in case_alts(v))
        if v.op == "upd" and v.a[1][0] == "f":
            if not path and v.a[1][2] in self.deep:
                return False
            if path and v.a[1][2] == path[0]:
                return self.has(v.a[2], path[1:], hyp)
            return self.has(v.a[0], path, hyp)
        if path and v.op == "agg" and path[0] in (v.a[2] or ()):
            return self.has(field(v, path[0]), path[1:], hyp)
        if v.op == "elem" or isapp(v, "index"):
            L, s = (v.a[0], ("e", v.a[1])) if v.op == "elem" else (v.a[1], ("i", v.a[2]))
            if ("in", s) in hyp:
                return self.elem_at(L, s, path, hyp)
            return self.all(L, path, hyp)
        if not path and v.op == "agg" and v.a[2]:
            # a value taken over from another one, except for harmless fields
            x = [field(v, n) for n in self.deep if n in v.a[2]]
            if x and all(y.op == "fld" and y.a[1] == n and y.a[2] is x[0].a[2] for y, n in zip(x, [n for n in self.deep if n in v.a[2]])):
                return self.has(x[0].a[2], path, hyp)
        if not path:
            return self.accept(v)
        return len(path) == 1 and self.accept(field(v, path[0]))

    # ------------------------------------------------------------ all elements
    def all(self, L, path, hyp=frozenset()):
        self.n += 1
        if L is BOT or L is LIST0:
            return True
        if ("list", L, path) in hyp:
            return True
        if isapp(L, "cat"):
            return all(self.all(x, path, hyp) for x in L.a[1:])
        if isapp(L, "one"):
            return self.has(L.a[1], path, hyp)
        if L.op == "agg" and L.a[0] == "array":
            return all(self.has(x, path, hyp) for x in L.a[3:])
        if L.op == "case":
            return all(self.all(x, path, hyp) for _, x in case_alts(L))
        if isapp(L, "seq"):
            return self.has(L.a[2], path, hyp)
        if isapp(L, "part"):
            return self.all(L.a[1], path, hyp)
        if L.op == "upd" and L.a[1][0] in "ei":
            return self.all(L.a[0], path, hyp) and self.has(L.a[2], path, hyp)
        if L.op == "mu" and L in self.I.mus:
            E, B = self.I.mus[L]
            if self.all(E, path, hyp) and self.all(B, path, hyp | {("list", L, path)}):
                return True
            return self.established(L, (), path, hyp)
        if L.op == "fld":
            x = L.a[2]
            if x.op == "elem" or isapp(x, "index"):
                return self.has(x, (L.a[1], "*") + path, hyp)
            if x.op == "mu":
                return self.anyof(x, lambda y: self.all(proj(y, ("f", L.a[0], L.a[1], None)), path, hyp), hyp)
        return False

    def anyof(self, m, f, hyp):
        """f holds of every value loop variable m can have"""
        if ("var", m) in hyp or m not in self.I.mus:
            return False
        return all(f(x) for x in values(self.I, m))

    # ------------------------------------------------------------ loops that reach every element
    def driver(self, m, rel):
        """how the loop of m goes over the list at rel inside m, if it reaches every element: the steps from the list to the
        element of a round (more than one if it goes over lists inside the elements)"""
        q = self.q
        try:
            sel = q.driver(m)
        except Unknown:
            return None
        r, ev = q.sites[sel]
        it = ev.args[0]
        if not (it.op == "agg" and it.a[0] == "%it") or q.stages(sel) or not q.from_start(sel):
            return None
        w = q.in_loop(sel)
        if w is not None:
            r, h = w
            if any(X.get(sel) != (True, frozenset([0])) for X in r.loops[h]["X"]):
                return None
        c = it.a[3]
        site = (sel.a[0], sel.a[1]) + tuple(sel.a[2] if len(sel.a) > 2 else ())
        inner = ()
        if c.op == "agg" and c.a[0] == "%flat":
            of, el, to = c.a[3:6]
            if of.op == "agg" and of.a[0] == "%it" and of.a[4].op == "agg" and len(of.a[4].a) == 3 and of.a[5] is cint(0):
                of = of.a[3]
            if not (of.op == el.op == to.op == "ref"):
                return None
            r0, p0 = self.flatten(of)
            r1, p1 = self.flatten(el)
            r2, p2 = self.flatten(to)
            if not (r0 == r1 == r2 and p1[:-1] == p0 and p1[-1][0] == "e" and p2[:len(p1)] == p1 and all(p[0] == "f" for p in p2[len(p1):])):
                return None
            inner = (p1[-1],) + p2[len(p1):]
            c = of
        if isapp(c, "range") and c.a[1] is cint(0) and isapp(c.a[2], "len"):
            E = self.I.mus[m][0]
            for p in rel:
                E = at(E, p)
            z = c.a[2].a[1]
            return (("i", mk("elem", c, site)),) if self.base(z) is self.base(E) else None
        if c.op != "ref":
            return None
        want = tuple(("f", n) for n in m.a[3]) + tuple(step(p) for p in rel)
        root, path = self.flatten(c)
        if root != m.a[2] or tuple(step(p) for p in path) != want:
            return None
        return inner + (("e", site),)

    def base(self, z):
        """a list apart from changes of its elements"""
        seen = set()
        while z not in seen:
            seen.add(z)
            if z.op == "upd" and z.a[1][0] in "ei":
                z = z.a[0]
            elif z.op == "mu" and z in self.I.mus and self.keeps(z, self.I.mus[z][1]):
                z = self.I.mus[z][0]
            else:
                break
        return z

    def keeps(self, m, B, seen=frozenset()):
        if B is m or B in seen:
            return True
        if B.op == "case":
            return all(self.keeps(m, x, seen) for _, x in case_alts(B))
        if B.op == "upd" and B.a[1][0] in "ei":
            return self.keeps(m, B.a[0], seen)
        if B.op == "mu" and B in self.I.mus:
            return all(self.keeps(m, x, seen | {B}) for x in self.I.mus[B])
        return False

    def flatten(self, c):
        root, path = c.a
        while root[0] == "o" and root[1].op == "ref":
            path = root[1].a[1] + path
            root = root[1].a[0]
        return root, path

    def established(self, m, rel, path, hyp):
        """after the loop every element of the list at rel inside m has it, because each round gives it to its element"""
        steps = self.driver(m, rel)
        if steps is None:
            return False
        z0, z = m, self.I.mus[m][1]
        for p in rel:
            z0, z = at(z0, p), at(z, p)
        while len(steps) > 1:
            # a loop over the lists inside the elements
            n = next(i for i, p in enumerate(steps[1:], 1) if p[0] != "f")
            names = tuple(p[2] for p in steps[1:n])
            if path[:n - 1] != names or path[n - 1:n] != ("*",) or not self.only(z, steps[0], frozenset([z0])):
                return False
            for p in steps[:n]:
                z0, z = at(z0, p), at(z, p)
            path, steps = path[n:], steps[n:]
        s = steps[0]
        return self.elem_at(z, s, path, hyp | {("in", s)}) and self.only(z, s, frozenset([z0]))

    def only(self, z, s, seen):
        """the list changes, from those seen, at no element but the one at s"""
        if z in seen:
            return True
        if z.op == "case":
            return all(self.only(x, s, seen) for _, x in case_alts(z))
        if z.op == "upd":
            return z.a[1] == s and self.only(z.a[0], s, seen)
        if z.op == "mu" and z in self.I.mus:
            E, B = self.I.mus[z]
            return self.only(E, s, seen | {z}) and self.only(B, s, seen | {z})
        return False

    def elem_at(self, y, s, path, hyp):
        """the element at s of list y has it"""
        if ("at", y, s, path) in hyp:
            return True
        if y.op == "case":
            return all(self.elem_at(x, s, path, hyp) for _, x in case_alts(y))
        if y.op == "upd" and y.a[1] == s:
            return self.has(y.a[2], path, hyp)
        if y.op == "mu" and y in self.I.mus:
            E, B = self.I.mus[y]
            if ("open", y, s, path) in hyp:
                return False
            h = hyp | {("open", y, s, path)}
            if self.drives(y, s):
                # the element as it was before this round
                return False
            if self.elem_at(E, s, path, h) and self.elem_at(B, s, path, h | {("at", y, s, path)}):
                return True
            if len(path) > 2 and path[1] == "*":
                return self.established(y, (s, ("f", None, path[0], None)), path[2:], h)
        return False

    def drives(self, m, s):
        site = s[1] if s[0] == "e" else s[1].a[1] if s[1].op == "elem" else None
        try:
            return site is not None and self.q.driver(m) is sel_of(site)
        except Unknown:
            return False


def step(p):
    return ("f", p[2]) if p[0] == "f" else p[:2]


def field(v, n):
    return proj(v, ("f", None, n, None))


def values(I, t, seen=None):
    """the values a term can have, loop variables replaced by what they start with and are set to"""
    seen = set() if seen is None else seen
    if t.op == "case":
        return [y for _, x in case_alts(t) for y in values(I, x, seen)]
    if t.op == "mu" and t in I.mus:
        if t in seen:
            return []
        seen.add(t)
        E, B = I.mus[t]
        return values(I, E, seen) + values(I, B, seen)
    if t.op == "fld":
        x = t.a[2]
        k = x
        while k.op == "fld":
            k = k.a[2]
        if (k.op == "mu" and k in I.mus) or x.op == "case":
            if (t, "fld") in seen:
                return []
            seen.add((t, "fld"))
            out = []
            for y in values(I, x, set()):
                z = BOT if y.op == "agg" and t.a[0] is not None and not variant(y, t.a[0]) else proj(y, ("f", t.a[0], t.a[1], None))
                if z is t or z is BOT:
                    continue
                out += values(I, z, seen) if z.op in ("case", "mu", "fld") and z is not t else [z]
            return out
    return [] if t is BOT else [t]


def variant(y, name):
    info = TT.ADTS.get(y.a[0])
    if not info or y.a[1] >= len(info["v"]):
        return {"Some": 1, "None": 0, "Ok": 0, "Err": 1}.get(name, y.a[1]) == y.a[1]
    return info["v"][y.a[1]]["n"] == name


from . import terms as TT
