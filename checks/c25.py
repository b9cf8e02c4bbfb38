"""C25: identifiers of new objects come from the UUID generator."""
from engine.view import *

EXPLANATION = (
    "Value analysis of every constructor: the value returned by Group::new, Entry::new, Database::new and the new_random/nil "
    "constructors is computed as a symbolic term from the MIR; every alternative of every UUID of a created group, entry or "
    "identifier must be the result of a call of the UUID generator made by that very constructor call, no two objects may "
    "share one such call, and nil() must be the nil UUID.")
ASSUMPTIONS = ["uuid::Uuid::new_v4 returns a fresh random version 4 UUID that is not nil"]


def fresh(t):
    return t.op == "call" and t.a[0].endswith("Uuid::new_v4")


def ids(t):
    """alternatives of the uuid inside GroupUuid / EntryUuid / CustomIconUuid"""
    return leaves(proj(t, ("f", None, "0", None)))


def check(W, R):
    n = 0
    for ty in ("GroupUuid", "EntryUuid", "CustomIconUuid"):
        e = W.entry(W.method(ty, "new_random"))
        xs = ids(e.run.ret)
        n += len(xs)
        R.check(xs and all(fresh(x) for x in xs), "random", "%s::new_random" % ty, lambda: "returns %s" % xs)
        e = W.entry(W.method(ty, "nil"))
        xs = ids(e.run.ret)
        R.check(xs and all(x is app("uuid_nil") for x in xs), "nil", "%s::nil" % ty, lambda: "returns %s" % xs)
    objs = {}
    for ty, m in (("Group", "new"), ("Entry", "new"), ("Database", "new")):
        e = W.entry(W.method(ty, m))
        made = [x for x in subterms(e.run.ret) if x.op == "agg" and x.a[0] in (W.adt("Group"), W.adt("Entry"))]
        base = [x for x in subterms(e.run.ret) if x.op == "upd" and x.a[1][0] == "f" and x.a[1][2] == "uuid"]
        R.check(not base or made, "constructor", "%s::%s" % (ty, m), "object updated after creation: %s" % base)
        if not made:
            R.bad("constructor", "%s::%s" % (ty, m), "the created group or entry is not visible in the returned value: %s" % show(e.run.ret, 3))
        used = {}
        for o in made:
            n += 1
            xs = ids(field(o, "uuid"))
            R.check(xs and all(fresh(x) for x in xs), "fresh", "%s::%s uuid" % (ty, m), lambda: "the UUID of the new object is %s" % xs)
            for x in xs:
                R.check(x not in used, "shared", "%s::%s" % (ty, m), "two objects share one UUID")
                used[x] = o
        if ty == "Database":
            rg = field(e.run.ret, "root_group")
            xs = ids(field(rg, "uuid"))
            R.check(xs and all(fresh(x) for x in xs), "fresh", "Database::new root_group", lambda: "root group UUID %s" % xs)
    R.floor("identifiers followed to their origin", n, 6)
