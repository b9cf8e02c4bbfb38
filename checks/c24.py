"""C24: adding and removing children."""
from engine.view import *
from engine.query import Query, Unknown

EXPLANATION = (
    "Value analysis of add_entry, add_group, remove_entry and remove_group: the group after the call is computed as a term over "
    "the group before it. Adding must append exactly the argument to exactly the one list; each alternative of removing must "
    "either take out and return the element at the first position whose UUID equals the argument, under the fact that it does, "
    "or return nothing and change nothing, under the fact that the search over the whole list ended.")


def nexts(f):
    return {t: set(vs) for t, (p, vs) in f.items() if t.op == "next" and p}


def searched(q, f, coll, want):
    """the walk over the whole list ended, every element passed by having another UUID"""
    for s, v in nexts(f).items():
        if v != {0} or s not in q.sites or not q.from_start(s):
            continue
        c = q.walk_coll(s)
        if isapp(c, "enumerate"):
            c = c.a[1]
        if c is not coll and not (isapp(c, "range") and c.a[1] is cint(0) and c.a[2] is app("len", coll)):
            continue
        try:
            ways = [g for g0 in q.skips(s) for g in q.expand(g0)]
        except Unknown:
            return False
        if ways and all(any(isapp(t, "eq") and p and set(vs) <= {0} and want in (q.place(t.a[1]), q.place(t.a[2]))
                            and any(uuid_in(q.place(x), coll) for x in t.a[1:]) for t, (p, vs) in g.items()) for g in ways):
            return True
    return False


def uuid_in(t, coll):
    return t.op == "fld" and t.a[1] == "uuid" and (t.a[2].op == "elem" and t.a[2].a[0] is coll or isapp(t.a[2], "index") and t.a[2].a[1] is coll)


def check(W, R):
    n = 0
    self_ = mk("sym", "self")
    for m, fld_ in (("add_entry", "entries"), ("add_group", "groups")):
        e = W.entry(W.method("Group", m))
        after = e.run.exit.mem.get(("p", "self"))
        u = updates(after, self_)
        n += 1
        want = cat(field(self_, fld_), app("one", e.run.args[1]))
        R.check(u is not None and set(u) == {fld_} and u[fld_] is want, "append", "Group::" + m,
                lambda: "the group becomes %s" % show(after, 7))
    for m, fld_ in (("remove_entry", "entries"), ("remove_group", "groups")):
        e = W.entry(W.method("Group", m))
        I = e.I
        coll = field(self_, fld_)
        want = e.run.args[1]
        q = Query(e)
        both = tup(e.run.ret, e.run.exit.mem.get(("p", "self")))
        pairs = []
        for f, r in paths(I, e.run.ret):
            for f2, s in paths(I, I.simp(both.a[4], f), f):
                pairs.append((f2, r, s))
        some_ = none_ = 0
        for f, r, s in pairs:
            n += 1
            u = updates(s, self_)
            if u is None or not set(u) <= {fld_}:
                R.bad("frame", "Group::" + m, "changes more than %s: %s" % (fld_, show(s, 5)))
                continue
            if r.op == "agg" and r.a[0] == OPT and r.a[1] == 0:
                none_ += 1
                R.check(not u, "none-unchanged", "Group::" + m, "returns nothing but changes the group")
                R.check(searched(q, f, coll, want), "none-searched", "Group::" + m,
                        "returns nothing although the search may have passed by an element with the UUID or did not reach the end of the list")
                continue
            if not (r.op == "agg" and r.a[0] == OPT and r.a[1] == 1):
                R.bad("result", "Group::" + m, "cannot decide %s" % show(r, 5))
                continue
            some_ += 1
            x = r.a[3]
            okk, pos, el = False, None, None
            if isapp(x, "index") and x.a[1] is coll:
                pos = x.a[2]
                if isapp(pos, "posof") and pos.a[1] is coll:
                    el = pos.a[2]
                elif pos.op == "idx" and pos.a[0] is coll:
                    el = mk("elem", coll, pos.a[1])
                else:
                    el = x
            if el is not None:
                pr = eq(field(el, "uuid"), want)
                prs = [pr]
                if pos.op == "elem":      # counting loop over the positions
                    prs.append(eq(field(app("index", coll, pos), "uuid"), want))
                if pos.op == "fld" or pos.op == "elem":
                    prs += [t for t in f if isapp(t, "eq") and want in t.a[1:] and coll in subterms(t)]
                okk = any(f.get(p_) == (True, frozenset([1])) or f.get(p_) == (True, frozenset([True])) for p_ in prs)
                base = el.a[0] if el.op == "elem" else None
                if base is not None and base is not coll:
                    okk = False
            R.check(okk, "match", "Group::" + m, lambda: "returns %s, not the first element whose UUID equals the argument" % show(x, 6))
            R.check(u.get(fld_) is app("without", coll, pos) if pos is not None else False, "rest", "Group::" + m,
                    lambda: "the list becomes %s" % show(u.get(fld_, s), 6))
        R.check(some_ and none_, "outcomes", "Group::" + m, "removing never %s" % ("succeeds" if not some_ else "returns nothing"))
    R.floor("alternatives examined", n, 6)
