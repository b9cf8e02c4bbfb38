"""Selections: which elements a function picks out of the collections it walks, as a tree of generators.

    Loop(coll, el, alts)   for every element el of coll, one of the alternatives (facts, nodes)
    One(x)                 the element x is selected
A function that returns a list is turned into such a tree; a function that returns an Option is described by
its alternatives and, for each walk, the facts under which it goes on to the next element."""
from .terms import *
from .interp import Facts, NOFACTS
from .view import paths, isapp
from .models import OPT


def sel_of(site):
    return mk("next", site[0], site[1]) if len(site) == 2 else mk("next", site[0], site[1], tuple(site[2:]))


class Unknown(Exception):
    pass


class Loop:
    def __init__(self, coll, site, alts, el=None):
        self.coll, self.site, self.alts, self.el = coll, site, alts, el


class One:
    def __init__(self, x):
        self.x = x


def place(t, memo=None):
    """references replaced by the places they denote, collections by what they contain"""
    memo = {} if memo is None else memo

    def go(t):
        if t in memo:
            return memo[t]
        if t.op == "ref":
            root, path = t.a
            v = go(root[1]) if root[0] == "o" else mk("sym", root[1]) if root[0] == "p" else None
            if v is None:
                raise Unknown("a reference to %s" % (root,))
            for p in path:
                v = proj(v, p)
            r = v
        elif t.op == "agg" and t.a[0] == "%flat":
            r = app("flat", go(t.a[3]), go(t.a[4]), go(t.a[5]))
        elif isapp(t, "index") and isapp(t.a[2], "posof"):
            # the element at the position at which a search found an element
            c = go(t.a[1])
            r = go(t.a[2].a[2]) if go(t.a[2].a[1]) is c else app("index", c, go(t.a[2]))
        elif isapp(t, "index") and t.a[2].op == "idx" and go(t.a[2].a[0]) is go(t.a[1]):
            r = mk("elem", go(t.a[1]), t.a[2].a[1])
        elif t.op in ("const", "sym", "bot", "M", "next", "mu"):
            r = t
        else:
            n = tuple(go(x) if isinstance(x, T) else x for x in t.a)
            r = t if n == t.a else rebuild(t.op, n)
        memo[t] = r
        return r
    return go(t)


class Query:
    def __init__(self, e):
        self.e, self.I = e, e.I
        self.sites = {}
        for r, ev in e.events("next"):
            self.sites[ev.args[2]] = (r, ev)
        self.filters = [(r, ev) for r, ev in e.events("filter")]
        self.memo = {}
        self.flats = {}
        self.queues = {}
        self.find_queues()
        for s in self.sites:
            try:
                c = self.walk_coll(s)
            except Unknown:
                continue
            if isapp(c, "flat"):
                self.flats[c.a[2]] = s

    def find_queues(self):
        """loops that take the first group of a queue and append the groups inside it: walks over all groups below the first"""
        for m, (E, B) in self.I.mus.items():
            if isinstance(m.a[1], str) or m.a[:2] not in self.I.loopinfo or m.a[2][0] != "l":
                continue
            try:
                E = place(E)
            except Unknown:
                continue
            x = E.a[1] if isapp(E, "one") else E.a[3] if E.op == "agg" and E.a[0] == "array" and len(E.a) == 4 else None
            front = app("opt_front", m)
            if x is None or not any(front in subterms(y) for y in (B,)):
                continue
            run, h = self.I.loopinfo[m.a[:2]]
            g = proj(front, ("f", "Some", "0", 1))
            want = cat(app("but_front", m), proj(g, ("f", None, "groups", None)))
            BS = run.loops[h]["B"]
            alts = paths(self.I, B, BS.facts if BS else NOFACTS)
            try:
                if not alts or not all(flat(self, place(y)) is want or flat(self, y) is want for _, y in alts):
                    continue
            except Unknown:
                continue
            site = m.a[:2] + ("queue",)
            sel = sel_of(site)
            coll = app("queue", x)
            self.queues[mk("disc", OPT, front)] = (sel, run, h)
            self.memo[g] = mk("elem", coll, site)
            from .interp import Event
            self.sites[sel] = (run, Event(kind="next", name="next", args=[coll, cint(0), sel], facts=NOFACTS, res=None, ctx=run.ctx, bb=h, span=None))

    def place(self, t):
        return place(t, self.memo)

    # ------------------------------------------------------------ walks
    def coll(self, it):
        """the collection an iterator walks (its stages apart)"""
        if it.op == "agg" and it.a[0] == "%it":
            it = it.a[3]
        return self.place(it)

    def walk_coll(self, sel):
        return self.coll(self.sites[sel][1].args[0])

    def stages(self, sel):
        it = self.sites[sel][1].args[0]
        return len(it.a[4].a) - 3 if it.op == "agg" and it.a[0] == "%it" and it.a[4].op == "agg" else 0

    def from_start(self, sel):
        """the walk begins with the first element of the collection"""
        r, ev = self.sites[sel]
        adv = ev.args[1]
        return adv is cint(0) or adv.op == "mu" and adv in self.I.mus and self.I.mus[adv][0] is cint(0)

    def in_loop(self, sel):
        """(run, head) of the innermost loop whose rounds this walk drives, or None for a walk inside one call"""
        r, ev = self.sites[sel]
        for s, run, h in self.queues.values():
            if s is sel:
                return run, h
        if len(sel.a) > 2 and sel.a[2]:
            return None
        best = None
        for h, L in r.loops.items():
            if ev.bb in L["body"] and (best is None or len(L["body"]) < len(r.loops[best]["body"])):
                best = h
        return None if best is None else (r, best)

    def driver(self, m):
        """the walk that drives the loop of loop variable m"""
        got = []
        for sel, (r, ev) in self.sites.items():
            if isinstance(m.a[1], str):
                if r.ctx == m.a[0] and m.a[1].startswith("f(%s," % ev.bb) and len(sel.a) > 2 and sel.a[2] and sel.a[2][-1] in ("fe", "fo"):
                    got.append(sel)
                continue
            w = self.in_loop(sel)
            if w is not None and m.a[:2] in self.I.loopinfo and self.I.loopinfo[m.a[:2]] == w:
                got.append(sel)
        if len(got) != 1:
            raise Unknown("a loop driven by %d iterators" % len(got))
        return got[0]

    def backs(self, sel):
        """facts of the alternatives under which an explicit loop goes into another round"""
        w = self.in_loop(sel)
        if w is None:
            return []
        r, h = w
        body = r.loops[h]["body"]
        B = r.loops[h]["B"]
        base = dict(B.facts if B else NOFACTS)
        cfg = self.I.cfg(r.fn)
        out = []
        g = [v for M, v in r.guards.items() if M.a[0] == r.ctx and M.a[1] == str(h) + "b"]
        ins = list(g[0].items()) if g else [(p, base) for p in cfg.pred[h] if p in body]
        for k, f in ins:
            self.ways(r, cfg, k[0] if isinstance(k, tuple) else k, h, body, dict(f), out)
        return out

    def ways(self, r, cfg, b, h, body, f, out):
        """facts of each way to reach block b from the head of the loop, joins taken apart"""
        if len(out) > 500:
            raise Unknown("too many ways through a loop")
        while b != h and b in body:
            g = r.guards.get(mk("M", r.ctx, str(b)))
            if g:
                for k, gf in g.items():
                    n = dict(gf)
                    for x, pv in f.items():
                        y = self.I.meet(Facts(n), x, pv[0], pv[1])
                        n = dict(y) if y is not None else n
                    p = k[0] if isinstance(k, tuple) else k
                    if p in cfg.loops:
                        out.append(n)
                    else:
                        self.ways(r, cfg, p, h, body, n, out)
                return
            if b in cfg.loops:
                break
            p = [x for x in cfg.pred[b] if x in body]
            if len(p) != 1:
                break
            b = p[0]
        out.append(f)

    def skips(self, sel):
        """facts under which the walk passes an element by and goes on"""
        out = []
        r, ev = self.sites[sel]
        for r2, fe in self.filters:
            if r2 is r and fe.bb == ev.bb and fe.args[2] is (ev.args[0].a[3] if ev.args[0].op == "agg" and ev.args[0].a[0] == "%it" else ev.args[0]):
                out += self.truth(fe.args[1], fe.facts, 0)
        return out + self.backs(sel)

    def truth(self, p, facts, want):
        """the facts under which condition p has the wanted value"""
        out = []
        for f, x in paths(self.I, self.I.simp(p, Facts(facts)), facts):
            if x.op == "const":
                if int(bool(x.a[1])) == want:
                    out.append(f)
                continue
            g = self.I.assume(Facts(f), x, True, [want])
            if g is not None:
                out.append(g)
        return out

    def expand(self, facts):
        """the facts with those of the merge points they mention, alternative by alternative"""
        todo, out = [dict(facts)], []
        seen = 0
        while todo:
            f = todo.pop()
            seen += 1
            if seen > 4000:
                raise Unknown("too many alternatives")
            for M, (pos, vals) in list(f.items()):
                if M.op != "M" or M not in self.I.guards:
                    continue
                f.pop(M)
                for k, g in self.I.guards[M].items():
                    if (k in vals) != pos:
                        continue
                    n = dict(f)
                    for x, pv in g.items():
                        n = None if n is None else self.I.meet(Facts(n), x, pv[0], pv[1])
                    if n is not None:
                        n = dict(n)
                        n.pop(M, None)
                        todo.append(n)
                break
            else:
                out.append(self.named(f))
        return out

    # ------------------------------------------------------------ lists
    def items(self, t, base=None):
        """nodes appended to base (None: to nothing)"""
        if t is base:
            return []
        if t is LIST0:
            if base is not None:
                raise Unknown("the list is emptied")
            return []
        if isapp(t, "cat"):
            out = []
            for i, x in enumerate(t.a[1:]):
                out += self.items(x, base if i == 0 else None)
            return out
        if base is not None and t.op != "mu":
            raise Unknown("the list is replaced by %s" % show(t, 3))
        if isapp(t, "one"):
            return [One(self.place(t.a[1]))]
        if t.op == "mu":
            if t not in self.I.mus:
                raise Unknown("loop variable %s" % show(t, 3))
            E, B = self.I.mus[t]
            pre = self.items(E, base)
            sel = self.driver(t)
            if not self.from_start(sel):
                raise Unknown("a loop that does not begin at the start of its collection")
            alts = []
            w = self.in_loop(sel)
            facts = NOFACTS
            if w is not None:
                r, h = w
                facts = r.loops[h]["B"].facts
                for X in r.loops[h]["X"]:
                    if self.named(X).get(sel) != (True, frozenset([0])):
                        raise Unknown("a loop that can be left before its collection ends (%s)" % r.fn)
            for f, x in paths(self.I, B, facts):
                for g in self.expand(f):
                    alts.append((g, self.items(x, t)))
            for r2, fe in self.filters:
                if r2 is self.sites[sel][0] and fe.bb == self.sites[sel][1].bb:
                    for g in self.truth(fe.args[1], fe.facts, 0):
                        for g2 in self.expand(g):
                            alts.append((g2, []))
            return pre + [self.mkloop(self.walk_coll(sel), sel, alts)]
        if isapp(t, "seq"):
            coll, x = self.place(t.a[1]), t.a[2]
            alts = [(NOFACTS, [One(self.place(x))])]
            for p in t.a[3:]:
                nxt = []
                for f, ns in alts:
                    if not ns:
                        nxt.append((f, ns))
                        continue
                    for v, y in ((1, ns), (0, [])):
                        for g in self.truth(p, f, v):
                            nxt.append((g, y))
                alts = nxt
            return [self.mkloop(coll, None, [(g, ns) for f, ns in alts for g in self.expand(f)])]
        if t.op == "agg" and t.a[0] == "array":
            return [One(self.place(x)) for x in t.a[3:]]
        c = self.place(t)
        return [self.mkloop(c, None, [(NOFACTS, [One(mk("elem", c.a[3] if isapp(c, "flat") else c, "*"))])])]

    def mkloop(self, coll, sel, alts):
        if isapp(coll, "flat"):
            return Loop(coll.a[1], None, [(NOFACTS, [Loop(coll.a[3], sel, alts)])], coll.a[2])
        return Loop(coll, sel, alts)

    def named(self, f):
        """facts with the emptiness of a queue as the end of the walk it stands for"""
        if not self.queues or not any(t in self.queues for t in f):
            return f
        f = dict(f)
        for t in list(f):
            if t in self.queues:
                f[self.queues[t][0]] = f.pop(t)
        return f

    def nodes(self, t, facts=NOFACTS):
        """the list as nodes; alternatives that differ must not depend on anything"""
        return self.items(t)


# ---------------------------------------------------------------- list algebra
def flat(q, t):
    """a list term with the loops that copy a collection replaced by the collection"""
    try:
        ns = q.items(t, None) if t.op == "mu" else None
    except Unknown:
        ns = None
    if ns is not None:
        out = []
        for n in ns:
            if isinstance(n, One):
                out.append(app("one", n.x))
            elif all(len(a) == 1 and isinstance(a[0], One) and a[0].x.op == "elem" and a[0].x.a[0] is n.coll
                     and (n.site is None or a[0].x.a[1] != "*" and sel_of(a[0].x.a[1]) is n.site) for _, a in n.alts):
                out.append(n.coll)
            else:
                return t
        return cat(*out) if out else LIST0
    if isapp(t, "cat"):
        return cat(*[flat(q, x) for x in t.a[1:]])
    if t.op == "app" and t.a[0] in ("opt_front", "but_front", "opt_back", "but_back"):
        return app(t.a[0], flat(q, t.a[1]))
    if t.op == "case":
        return mkcase(t.a[0], [(k, flat(q, v)) for k, v in case_alts(t)])
    if t.op in ("upd", "agg", "fld"):
        return rebuild(t.op, tuple(flat(q, x) if isinstance(x, T) else x for x in t.a))
    return t


# ---------------------------------------------------------------- matching
def gens(x):
    """the walks an element comes from, outermost first: [(collection, element)]"""
    out = []
    while True:
        y = x
        while y.op == "fld":
            y = y.a[2]
        if y.op != "elem":
            return out
        out.insert(0, (y.a[0], y))
        x = y.a[0]
        if isapp(x, "values"):
            x = x.a[1]


class Match:
    """compares the selection a function makes with: for g in the groups, for x in the parts of g, x if the predicate holds"""

    def __init__(self, q, is_groups, inner, pred):
        self.q, self.is_groups, self.inner, self.pred = q, is_groups, inner, pred
        self.bad = []
        self.n = 0

    def fail(self, what):
        if what not in self.bad:
            self.bad.append(what)

    def own(self, x, coll, site, el=None):
        if el is not None:
            return x is el
        return x.op == "elem" and x.a[0] is coll and (x.a[1][-1:] == ("col",) or "col" in x.a[1] if site is None else x.a[1] != "*" and sel_of(x.a[1]) is site) \
            or x.op == "elem" and x.a[0] is coll and x.a[1] == "*"

    # lists
    def list(self, t):
        try:
            ns = self.q.items(t)
        except Unknown as u:
            return self.fail("cannot be described: %s" % u)
        if len(ns) != 1 or not isinstance(ns[0], Loop):
            return self.fail("is not one walk over the groups")
        self.level(ns[0], None, NOFACTS)

    def level(self, L, group, ctx):
        last = self.inner is None or group is not None
        if group is None:
            if not self.is_groups(L.coll):
                return self.fail("walks %s instead of all groups from the root" % show(L.coll, 4))
        elif L.coll is not field_of(group, self.inner):
            return self.fail("walks %s instead of the %s of the group" % (show(L.coll, 4), self.inner))
        picked = 0
        for f, ns in L.alts:
            self.n += 1
            f = merge(f, ctx)
            if last:
                if not ns:
                    p = self.pred(f, L.coll, L.site, None)
                    if p is not False:
                        self.fail("passes an element by without knowing that it does not match (%s)" % facts_text(f))
                elif len(ns) == 1 and isinstance(ns[0], One) and self.own(ns[0].x, L.coll, L.site):
                    picked += 1
                    p = self.pred(f, L.coll, L.site, ns[0].x)
                    if p is not True:
                        self.fail("selects an element without knowing that it matches (%s)" % facts_text(f))
                else:
                    self.fail("selects something other than the element once")
                continue
            if not ns:
                if not empty_of(f, L, self.inner):
                    self.fail("passes a group by (%s)" % facts_text(f))
                continue
            if len(ns) != 1 or not isinstance(ns[0], Loop):
                self.fail("does not walk the %s of each group once" % self.inner)
                continue
            picked += 1
            g = group_of(ns[0].coll, self.inner)
            if g is None or not self.own(g, L.coll, L.site, L.el):
                self.fail("walks %s instead of the %s of the group" % (show(ns[0].coll, 4), self.inner))
                continue
            self.level(ns[0], g, f)
        if not picked:
            self.fail("selects nothing")

    # options
    def option(self, t):
        q = self.q
        some_ = none_ = 0
        outer = set()
        for f0, x in paths(q.I, t):
            for f in q.expand(f0):
                self.n += 1
                y = q.place(q.I.simp(x, Facts(f)))
                if y.op == "agg" and y.a[0] == OPT and y.a[1] == 0:
                    none_ += 1
                    sels = [s for s, (p, v) in f.items() if s.op == "next" and p and v == frozenset([0]) and s in q.sites and self.is_groups(self.outer_of(s))]
                    if not sels:
                        self.fail("gives up before the walk over the groups has ended (%s)" % facts_text(f))
                    outer |= set(sels)
                elif y.op == "agg" and y.a[0] == OPT and y.a[1] == 1:
                    some_ += 1
                    z = y.a[3]
                    g = gens(z)
                    if len(g) != (1 if self.inner is None else 2) or z.op != "elem" or not self.is_groups(g[0][0]) or \
                            self.inner is not None and g[1][0] is not field_of(g[0][1], self.inner):
                        self.fail("returns %s" % show(z, 4))
                        continue
                    if self.pred(f, z.a[0], sel_of(z.a[1]), z) is not True:
                        self.fail("returns an element without knowing that it matches (%s)" % facts_text(f))
                    outer.add(q.flats.get(g[0][1]) or sel_of(g[0][1].a[1]))
                else:
                    self.fail("returns %s" % show(y, 4))
        if not some_ or not none_:
            self.fail("never finds anything" if not some_ else "never ends without a result")
        for s in outer:
            self.walk(s, None)

    def outer_of(self, sel):
        c = self.q.walk_coll(sel)
        return c.a[1] if isapp(c, "flat") else c

    def walk(self, sel, group):
        q = self.q
        if sel not in q.sites:
            return self.fail("takes an element from outside a walk")
        coll = q.walk_coll(sel)
        if isapp(coll, "flat") and group is None:
            if self.inner is None or coll.a[3] is not field_of(coll.a[2], self.inner):
                return self.fail("walks %s" % show(coll, 4))
            group, coll = coll.a[2], coll.a[3]
        if not q.from_start(sel):
            self.fail("a walk does not begin at the first element")
        site = sel
        last = self.inner is None or group is not None
        for f0 in q.skips(sel):
            for f in q.expand(f0):
                self.n += 1
                if last:
                    if self.pred(f, coll, site, None) is not False:
                        self.fail("passes an element by without knowing that it does not match (%s)" % facts_text(f))
                    continue
                done = False
                for s, (p, v) in f.items():
                    if s.op == "next" and p and v == frozenset([0]) and s in q.sites:
                        c = q.walk_coll(s)
                        g = group_of(c, self.inner)
                        if g is not None and self.own(g, coll, site):
                            done = True
                            self.walk(s, g)
                if not done and not empty_of(f, Loop(coll, site, []), self.inner):
                    self.fail("passes a group by (%s)" % facts_text(f))


def field_of(x, name):
    return mk("fld", None, name, x)


def group_of(coll, name):
    if coll.op == "fld" and coll.a[1] == name:
        return coll.a[2]
    return None


def merge(f, g):
    out = dict(g)
    out.update(f)
    return Facts(out)


def empty_of(f, L, name):
    for t, (p, v) in f.items():
        if isapp(t, "is_empty") and p and v == frozenset([1]):
            g = group_of(place(t.a[1]), name)
            if g is not None and g.op == "elem" and g.a[0] is L.coll:
                return True
        if t.op == "app" and t.a[0] == "len" and p and v == frozenset([0]):
            g = group_of(place(t.a[1]), name)
            if g is not None and g.op == "elem" and g.a[0] is L.coll:
                return True
    return False


def facts_text(f):
    return ", ".join(sorted("%s%s%s" % (show(t, 4), "=" if p else "!=", "/".join(map(str, sorted(v, key=str)))) for t, (p, v) in f.items()
                            if t.op not in ("M", "imp")))[:300]
