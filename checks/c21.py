"""C21: what a search finds."""
from engine.search import *

EXPLANATION = (
    "Value and path analysis of the four searches of Database. The list each returns is turned into a tree of walks: for every "
    "group delivered by the iterator (shown breadth-first in the same run), for every entry of it, selected or passed by. Every "
    "alternative in which an element is selected must hold the fact that it matches, every alternative in which it is passed by "
    "the fact that it does not: for groups, the lower-cased name contains the lower-cased text; for entries, a walk over the "
    "string values of the entry either stops at a Plain value whose lower-cased text contains the lower-cased search text, or "
    "ends, every value passed by being Protected or without the text.")


def check(W, R):
    T = Tree(W)
    SV = W.adt("StringValue")
    plain = [v["d"] for v in W.D.adts[SV]["v"] if v["n"] == "Plain"][0]
    n = 0
    for name, inner in (("find_entries", "entries"), ("find_groups", None)):
        for mut in ("", "_mut"):
            e = W.entry(W.method("Database", name + mut))
            q = Query(e)
            root = field(mk("sym", "self"), "root_group")
            arg = e.run.args[1]
            M = Match(q, lambda c: T.is_walk(c, root), inner,
                      ValueContains(q, arg, SV, plain) if inner else name_contains(q, arg))
            M.list(e.run.ret)
            n += M.n
            R.check(not M.bad, "selection", "Database::" + name + mut, lambda: "; ".join(M.bad))
    R.count("searches", 4)
    R.floor("alternatives of selecting or passing by", n, 8)
