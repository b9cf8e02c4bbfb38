"""C22: walking the tree and lookups by UUID."""
from engine.search import *

EXPLANATION = (
    "Induction over the iterator types, read from the compiled code. For each Iterator over groups in the crate the state after a "
    "call of next and the value delivered are computed as terms over the state before; a step must deliver the first of the groups "
    "still to deliver and leave the rest followed by the groups inside the delivered one, and deliver nothing exactly when nothing "
    "is left; Group::iter and Group::iter_mut must start with exactly the group itself. Hence every group below is delivered once, "
    "breadth-first, by both. Each lookup and search must walk that iterator from the root group to its end (and the entries of each "
    "group in order), leaving early only with the element it returns; a lookup by UUID must return an element only under the fact "
    "that its UUID equals the argument and pass one by only under the fact that it does not.")


def check(W, R):
    T = Tree(W)
    for p, ab in sorted(T.bfs.items()):
        R.check(ab is not None, "step", p, lambda: T.why.get(p, ""))
    R.floor("iterator steps", T.n, 4)
    for m in ("iter", "iter_mut"):
        e = W.entry(W.method("Group", m))
        s = place(e.run.ret)
        R.check(T.start(s) is mk("sym", "self"), "start", "Group::" + m, lambda: "starts as %s" % show(s, 5))
    n = 0
    root = field(mk("sym", "self"), "root_group")
    for name, inner in (("get_entry", "entries"), ("get_group", None)):
        for mut in ("", "_mut"):
            e = W.entry(W.method("Database", name + mut))
            q = Query(e)
            M = Match(q, lambda c: T.is_walk(c, root), inner, same_uuid(q, e.run.args[1]))
            M.option(e.run.ret)
            n += M.n
            R.check(not M.bad, "lookup", "Database::" + name + mut, lambda: "; ".join(M.bad))
    for name, inner in (("find_entries", "entries"), ("find_groups", None)):
        for mut in ("", "_mut"):
            e = W.entry(W.method("Database", name + mut))
            q = Query(e)
            M = Match(q, lambda c: T.is_walk(c, root), inner, lambda f, coll, site, x: x is not None)
            M.list(e.run.ret)
            n += M.n
            R.check(not M.bad, "walk", "Database::" + name + mut, lambda: "; ".join(M.bad))
    R.count("lookups and searches", 8)
    R.floor("alternatives", n, 16)
