"""The lookups of Database: how each walks the tree and which elements it selects."""
from .query import *

BFS_RULE = "the groups still to deliver are a queue: each step delivers its first group and appends that group's groups"


class Tree:
    """the iterator types of the crate over groups, and which of them go through the tree breadth-first"""

    def __init__(self, W):
        self.W = W
        self.bfs = {}
        self.why = {}
        self.n = 0
        self.GROUP = W.adt("Group")
        for fn in iterators(W):
            ty = self.W.D.ty(W.D.fns[fn]["self_ty"]) if isinstance(W.D.fns[fn]["self_ty"], int) else W.D.fns[fn]["self_ty"]
            path = ty[1] if isinstance(ty, tuple) and ty[0] == "adt" else ty
            rt = self.W.D.ty(W.D.fns[fn]["locals"][0]["t"])
            if self.GROUP not in str(rt):
                continue
            self.bfs[path] = self.iterator(fn, path)

    def iterator(self, fn, path):
        """-> function state -> groups still to deliver, if every step is a breadth-first step; None otherwise"""
        e = self.W.entry(fn)
        q = Query(e)
        self_ = mk("sym", "self")
        after = e.run.exit.mem.get(("p", "self"))
        ret = e.run.ret
        if after is None or ret is BOT:
            self.why[path] = "next never returns"
            return None
        V = self.W.D.adts[path]["v"][0]["f"]
        names = [f["n"] for f in V]
        tys = {f["n"]: self.W.D.ty(f["t"]) for f in V}
        queues = [n for n in names if adt_name(tys[n]).endswith("VecDeque")]
        opts = [n for n in names if adt_name(tys[n]) == OPT]
        cands = [(a, b) for a in queues for b in [None] + opts]
        why = []
        for a, b in cands:
            def pending(s, a=a, b=b):
                """[(facts, list)]"""
                return cat(field(s, a), groups_of(field(s, b))) if b else field(s, a)
            w = self.step(q, self_, after, ret, a, b)
            if w is None:
                return (a, b)
            why.append("queue %s%s: %s" % (a, " with the groups of " + b if b else "", w))
        self.why[path] = "; ".join(why) or "no queue among its fields"
        return None

    def step(self, q, self_, after, ret, a, b):
        I = q.I
        C = Canon(I)
        S = lambda t: flat(q, q.place(unmerge(C, flat(q, t))))
        r, qa = S(ret), S(field(after, a))
        qb = S(field(after, b)) if b else None
        P = lambda f: f
        done = 0
        cur = field(self_, b) if b else None
        start = [mk("disc", OPT, cur)] if b else []
        for f, (r1, a1, b1) in split(I, [r, qa, qb], NOFACTS, start):
            p0 = field(self_, a)
            if b and f.get(start[0]) == (True, frozenset([1])):
                p0 = cat(p0, field(payload(cur), "groups"))
            front = app("opt_front", p0)
            for v in (0, 1):
                g = I.assume(Facts(f), mk("disc", OPT, front), True, [v])
                if g is None:
                    continue
                done += 1
                self.n += 1
                x, na, nb = (None if t is None else norm(I.simp(t, g), g) for t in (r1, a1, b1))
                if v == 0:
                    if not (x.op == "agg" and x.a[1] == 0 or x is front):
                        return "delivers %s when nothing is left" % show(x, 4)
                    na = norm(subst(na, {app("but_front", p0): LIST0}), g)
                    if b:
                        if not (nb is front or nb.op == "agg" and nb.a[1] == 0):
                            return "keeps a group when nothing is left"
                    if not (na is LIST0 or na is p0):
                        return "has %s left after the end" % show(na, 4)
                    continue
                y = payload(x)
                if not (x.op == "agg" and x.a[1] == 1 or x is front) or y is not payload(front):
                    return "delivers %s instead of the first group of %s" % (show(x, 5), show(p0, 5))
                left = na
                if b:
                    if nb is front or nb.op == "agg" and nb.a[1] == 1:
                        left = cat(na, field(payload(nb), "groups"))
                    elif not (nb.op == "agg" and nb.a[1] == 0):
                        return "keeps %s" % show(nb, 5)
                want = cat(app("but_front", p0), field(payload(front), "groups"))
                if left is not want:
                    return "has %s left instead of %s" % (show(left, 6), show(want, 6))
        return None if done else "nothing to decide"

    def start(self, state):
        """the group a fresh iterator walks from, if this state has exactly that one group to deliver"""
        path = state.a[0] if state.op == "agg" else None
        ab = self.bfs.get(path)
        if not ab:
            return None
        a, b = ab
        qv = field(state, a)
        if b:
            c = field(state, b)
            if not (c.op == "agg" and c.a[0] == OPT and c.a[1] == 0):
                return None
        if isapp(qv, "one"):
            return qv.a[1]
        if qv.op == "agg" and qv.a[0] == "array" and len(qv.a) == 4:
            return qv.a[3]
        return None

    def is_walk(self, coll, root):
        if isapp(coll, "queue"):
            return coll.a[1] is root
        if not isapp(coll, "iter_local"):
            return False
        return self.start(place(coll.a[2])) is root


def iterators(W):
    out = []
    for fn, f in W.D.fns.items():
        if fn.startswith("<") and fn.endswith("Iterator>::next"):
            out.append(fn)
    return sorted(out)


def adt_name(t):
    return t[1] if isinstance(t, tuple) and len(t) > 1 and t[0] == "adt" else ""


def payload(t):
    if t.op == "agg" and t.a[0] == OPT and t.a[1] == 1:
        return t.a[3]
    return proj(t, ("f", "Some", "0", 1))


def groups_of(t):
    return field(payload(t), "groups")


def unmerge(C, t):
    return C.canon(t)


def split(I, ts, facts, first=()):
    """alternatives of several terms together: [(facts, terms)]"""
    first = list(first)
    if first:
        s = first[0]
        out = []
        for v in (0, 1):
            g = I.assume(Facts(facts), s, True, [v])
            if g is not None:
                out += split(I, [None if t is None else I.simp(t, g) for t in ts], g, first[1:])
        return out
    for t in ts:
        if t is None:
            continue
        for x in subterms(t):
            if x.op == "case":
                sel = x.a[0]
                out = []
                keys = [k for k, _ in case_alts(x)]
                for k in keys:
                    named = [j for j in keys if j != "*"]
                    g = I.assume(Facts(facts), sel, False, named) if k == "*" else I.assume(Facts(facts), sel, True, [k])
                    if g is not None:
                        n = [None if y is None else subst(y, {x: dict(case_alts(x))[k]}) for y in ts]
                        out += split(I, [None if y is None else I.simp(y, g) for y in n], g)
                return out
    return [(facts, ts)]


def norm(t, f):
    """Some(payload of x) is x where x is known to be Some"""
    m = {}
    for x in subterms(t):
        if x.op == "agg" and x.a[0] == OPT and x.a[1] == 1:
            y = x.a[3]
            if y.op == "fld" and y.a[0] in ("Some", None) and y.a[1] == "0" and payload(y.a[2]) is y:
                m[x] = y.a[2]
    return subst(t, m) if m else t


from .canon import Canon
from .view import field


# ---------------------------------------------------------------- predicates
def same_uuid(q, arg):
    """the element's UUID is the argument"""
    def pred(f, coll, site, x):
        for t, (p, v) in f.items():
            if not (isapp(t, "eq") and p and len(v) == 1):
                continue
            a, b = q.place(t.a[1]), q.place(t.a[2])
            for c, d in ((a, b), (b, a)):
                if strip_field(c, "uuid") is not None and d is arg:
                    z = strip_field(c, "uuid")
                    if x is not None and z is x or x is None and own(z, coll, site):
                        return bool(next(iter(v)))
                # the single field of the UUID types
                c2, d2 = one_field(c), one_field(d)
                if c2 is not None and d2 is arg and strip_field(c2, "uuid") is not None:
                    z = strip_field(c2, "uuid")
                    if x is not None and z is x or x is None and own(z, coll, site):
                        return bool(next(iter(v)))
        return None
    return pred


def one_field(t):
    return t.a[2] if t.op == "fld" and t.a[1] == "0" else None


def own(x, coll, site):
    return x.op == "elem" and x.a[0] is coll and (x.a[1] == "*" or (sel_of(x.a[1]) is site if site is not None else "col" in x.a[1]))


def strip_field(t, name):
    return t.a[2] if t.op == "fld" and t.a[1] == name else None


def folded(q, t):
    """(function, text) of a text compared regardless of case"""
    t = q.place(t)
    if t.op == "app" and t.a[0] in ("lower", "upper"):
        return t.a[0], t.a[1]
    return None, t


def contains(q, t, needle):
    """the text in which the condition looks for the needle regardless of case, or None"""
    if not isapp(t, "contains"):
        return None
    fa, a = folded(q, t.a[1])
    fb, b = folded(q, t.a[2])
    if fa is None or fa != fb or b is not needle:
        return None
    return a


def name_contains(q, needle):
    def pred(f, coll, site, x):
        for t, (p, v) in f.items():
            if t.op != "app" or not p or len(v) != 1:
                continue
            a = contains(q, t, needle)
            z = strip_field(a, "name") if a is not None else None
            if z is not None and (z is x if x is not None else own(z, coll, site)):
                return bool(next(iter(v)))
        return None
    return pred


class ValueContains:
    """some unprotected value of the entry contains the needle regardless of case"""

    def __init__(self, q, needle, adt, plain):
        self.q, self.needle, self.adt, self.plain = q, needle, adt, plain
        self.busy = set()
        self.seen = set()

    def value(self, t):
        """the entry whose string value t is, or None"""
        if t.op == "elem" and isapp(t.a[0], "values"):
            return strip_field(t.a[0].a[1], "strings")
        if t.op == "fld" and t.a[1] == "1" and t.a[2].op == "elem":
            return strip_field(t.a[2].a[0], "strings")
        return None

    def one(self, f, v):
        """does value v match: True, False, None"""
        q = self.q
        plain = None
        hit = None
        for t, (p, vs) in f.items():
            if t.op == "disc" and q.place(t.a[1]) is v:
                if p and vs == frozenset([self.plain]):
                    plain = True
                elif p and self.plain not in vs or not p and self.plain in vs:
                    plain = False
            if t.op == "app" and p and len(vs) == 1:
                a = contains(q, t, self.needle)
                if a is not None and a.op == "fld" and a.a[2] is v and a.a[0] == "Plain":
                    hit = bool(next(iter(vs)))
        if plain is False or hit is False:
            return False
        return True if hit else None

    def __call__(self, f, coll, site, x):
        q = self.q
        cands = set()
        for t in f:
            if t.op in ("disc", "app"):
                for y in subterms(q.place(t)):
                    e = self.value(y)
                    if e is not None and (e is x if x is not None else own(e, coll, site)):
                        cands.add(y)
        for y in cands:
            if self.one(f, y) is True:
                return True
        for t, (p, v) in f.items():
            if t.op == "mu" and len(v) == 1:
                d = self.flag(t, coll, site, x)
                if d is not None:
                    return (bool(next(iter(v))) == d) == bool(p)
        for s, (p, v) in f.items():
            if s.op != "next" or not p or v != frozenset([0]) or s not in q.sites:
                continue
            c = q.walk_coll(s)
            e = strip_field(c.a[1] if isapp(c, "values") else c, "strings")
            if e is None or not (e is x if x is not None else own(e, coll, site)):
                continue
            if not q.from_start(s):
                continue
            el = mk("elem", c, "?")
            good = True
            for g0 in q.skips(s):
                for g in q.expand(g0):
                    vs = set()
                    for t in g:
                        if t.op in ("disc", "app"):
                            for y in subterms(q.place(t)):
                                if self.value(y) is not None:
                                    z = y if y.op == "elem" else y.a[2]
                                    if z.a[0] is c and sel_of(z.a[1]) is s:
                                        vs.add(y)
                    if not any(self.one(g, y) is False for y in vs):
                        good = False
            if good:
                return False
        return None

    def flag(self, t, coll, site, x):
        """a variable that a walk over the values sets when (True) or clears when (False) one of them matches"""
        q = self.q
        if t not in q.I.mus or t in self.busy:
            return None
        E, B = q.I.mus[t]
        try:
            s = q.driver(t)
        except Unknown:
            return None
        c = q.walk_coll(s)
        e = strip_field(c.a[1] if isapp(c, "values") else c, "strings")
        if e is None or not (e is x if x is not None else own(e, coll, site)) or not q.from_start(s) or E.op != "const":
            return None
        r, h = q.in_loop(s) or (None, None)
        if r is None or any(X.get(s) != (True, frozenset([0])) for X in r.loops[h]["X"]):
            return None
        start = bool(E.a[1])
        for f, y in paths(q.I, B, r.loops[h]["B"].facts):
            for g in q.expand(f):
                vs = {z for u in g if u.op in ("disc", "app") for z in subterms(q.place(u)) if self.value(z) is not None}
                d = [self.one(g, z) for z in vs]
                if y is t:
                    if False not in d:
                        return None
                elif y.op == "const" and bool(y.a[1]) != start:
                    if True not in d:
                        return None
                else:
                    return None
        return not start
