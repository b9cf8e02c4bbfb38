"""C30: recursion."""
from engine.graph import Graph
from engine.dump import ty_name, deref_ty

EXPLANATION = (
    "Call-graph analysis: strongly connected components of the crate's call graph (closures and trait calls resolved to every "
    "matching impl). For every cycle the interprocedural analysis decides whether a constant argument bounds it (the recursive "
    "call is reached again with the same constants); other cycles are violations, identified by the entry points that reach them "
    "and the type whose nesting drives them. The types that drive such a cycle and own values of their own type are "
    "reported as well, because their drop and clone glue recurses in the same way.")
ASSUMPTIONS = ["external crates do not recurse on input nesting"]


def check(W, R):
    D = W.D
    G = Graph(D)
    pub = G.public()
    R.floor("public functions", len(pub), 150)
    R.floor("call graph functions", len(G.local), 500)
    reach = {p: G.reach([p]) for p in pub}
    driven = set()
    for c in G.sccs():
        c = {x for x in c if not D.fns[x].get("derived")} or c
        if all(D.fns[x].get("derived") for x in c):
            continue    # derived impls recurse exactly along recursive types, reported below
        fns = sorted(c)
        rec = set()
        for f in fns:
            e = W.entry(f)
            for r, ev in e.events("rec"):
                rec.add((ev.name, r.fn))
        if not rec:
            R.ok("bounded-cycle", ", ".join(fns))
            continue
        ents = sorted(p for p in pub if reach[p] & c and not any(q != p and p in reach[q] and reach[q] & c for q in pub))
        drv = set()
        for f in fns:
            F = D.fns[f]
            for l in F["locals"][:F["argc"] + 1]:
                for a in adts(D.ty(l["t"])):
                    if a in D.exports and owns(D, a, a):
                        drv.add(a.split("::")[-1])
                        driven.add(a)
        if not drv:
            drv = {f.split("::")[-1] for f in fns}
        R.bad("recursion", "%s over %s" % (",".join(x.split("::", 1)[-1] for x in ents), ",".join(sorted(drv))),
              "unbounded recursion through " + " -> ".join(fns))
    for a, info in sorted(D.adts.items()):
        if info["local"]:
            R.check(a not in driven, "recursive-type", a, "a value of %s owns values of the same type, so dropping or cloning it recurses" % a)


def adts(t):
    if t[0] == "adt":
        yield t[1]
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from adts(x)


def owns(D, a, target, seen=None, top=True):
    seen = set() if seen is None else seen
    if a in seen:
        return False
    seen.add(a)
    info = D.adts.get(a)
    if not info or not info["local"]:
        return False
    for v in info["v"]:
        for f in v["f"]:
            for x in owned(D.ty(f["t"])):
                if x == target or owns(D, x, target, seen, False):
                    return True
    return False


def owned(t):
    if t[0] in ("ref", "ptr"):
        return
    if t[0] == "adt":
        yield t[1]
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from owned(x)
