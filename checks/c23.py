"""C23: parent links of an opened database."""
from engine.links import *
from engine.guards import okalts
from engine.canon import Canon
from engine.terms import *
from engine.view import isapp

EXPLANATION = (
    "Induction over the tree and over the loops of the reader. For every value the root group can have where open succeeds, and "
    "for every group returned by the function that reads groups recursively (analysed for arbitrary arguments, its own recursive "
    "results satisfying the same by induction): every element of its entries, every element of their histories and every element "
    "of its groups must have the parent the group ends up with as its UUID. A list has it of all its elements when every element "
    "appended has it and every later change keeps it, or when a loop that provably reaches every element gives it to each.")


class Judge:
    def __init__(self, W, R):
        self.W, self.R = W, R
        self.fns, self.done = [], set()
        self.n = 0

    def group(self, q, C, g, where):
        """the three kinds of links of group value g"""
        uuid = C.canon(field(g, "uuid"))

        def same(x):
            return C.canon(x) is uuid
        for path, lst, what in ((("parent",), "entries", "entries"), (("history", "*", "parent"), "entries", "history entries"),
                                (("history", "*", "history", "*", "parent"), "entries", "history entries of history entries"),
                                (("parent",), "groups", "groups")):
            self.n += 1
            F = Forall(q, same)
            try:
                okk = F.all(field(g, lst), path)
            except Unknown:
                okk = False
            self.R.check(okk, "link:" + what, where, "the parent of some of the %s of a group may differ from the group's UUID" % what)
        self.n += 1
        try:
            okk = Forall(q, self.closed, deep=("entries", "groups", "uuid")).all(field(g, "groups"), ())
        except Unknown:
            okk = False
        self.R.check(okk, "inner", where,
                     "a group below may have come from somewhere other than the function that reads groups")

    def closed(self, v):
        """a group whose own links hold by induction"""
        x = v
        while x.op == "fld":
            x = x.a[2]
        if x.op == "call" and x is not v and str(x.a[0]).startswith("rec:"):
            fn = x.a[0][4:]
            if fn in self.W.D.fns:
                if fn not in self.fns:
                    self.fns.append(fn)
                return True
        return v.op == "agg" and all(is_empty_list(field(v, n)) for n in ("entries", "groups"))


def is_empty_list(t):
    return t is LIST0


def nil(t):
    return isapp(t, "uuid_nil") or t.op == "agg" and len(t.a) == 4 and nil(t.a[3])


def check(W, R):
    J = Judge(W, R)
    e = W.entry(W.method("Database", "open"))
    q, C = Query(e), Canon(e.I)
    roots = 0
    for f, db in okalts(e):
        for g in values(e.I, field(db, "root_group")):
            roots += 1
            p = values(e.I, field(g, "parent"))
            R.check(p and all(nil(x) for x in p), "root", "Database::open", lambda: "the parent of the root group may be %s" % show(p[0] if p else field(g, "parent"), 5))
            J.group(q, C, g, "Database::open")
    R.floor("values of the root group", roots, 2)
    while J.fns:
        fn = J.fns.pop()
        if fn in J.done:
            continue
        J.done.add(fn)
        e = W.entry(fn)
        q, C = Query(e), Canon(e.I)
        k = 0
        for f, g0 in okalts(e):
            for g in values(e.I, g0):
                k += 1
                J.group(q, C, g, fn)
        R.floor("results of " + fn, k, 1)
    R.floor("recursive readers of groups", len(J.done), 1)
    R.floor("obligations on groups", J.n, 15)
