"""C10: outside the encrypted payload there is only the header."""
from engine.view import *
from engine.filefmt import saved, parse, Layout

EXPLANATION = (
    "Information-flow analysis of save: the output of Database::save is computed as a term; after the header there must be exactly one "
    "item, the AES-256-CBC encryption with the derived key and the IV of the header, whose plain text starts with the start bytes of "
    "the header; every header value may depend on no part of the database but version, comment, cipher, compression and rounds; "
    "the same holds for the data of every single write to the caller's writer on every path, including the failing ones.")
PLAIN = {"version", "comment", "compression", "master_cipher", "stream_cipher", "transform_rounds", "db_type"}


def exposed(t):
    """parts of the database that reach t other than through encryption"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] == "cbcenc":
            continue
        if x.op in ("case",):     # which alternative is taken depends on the selector
            pass
        if x.op == "app" and x.a[0] in ("len", "exact"):
            pass
        if x.op == "call" and x.a[0].split("::")[-1] in ("write_all", "write", "flush"):
            continue
        p = path_of(x)
        if p and p[0] == "self":
            if len(p) == 1:
                out.add("the whole database")
            else:
                out.add(p[1])
            continue
        if x.op == "sym" and x.a[0] != "writer":
            out.add(x.a[0])
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return out


def check(W, R):
    e = saved(W)
    I = e.I
    try:
        F = parse(e.out)
    except Layout as x:
        R.bad("layout", "Database::save", str(x))
        return
    for r in F.records:
        bad = exposed(r.value) - PLAIN
        R.check(not bad, "header", "record %s" % r.id, lambda: "header record %s reveals %s" % (r.id, sorted(bad)))
    bad = (exposed(F.minor) | exposed(F.major)) - PLAIN
    R.check(not bad, "header", "version", "the version reveals %s" % bad)
    ok_ = len(F.payload) == 1 and isapp(F.payload[0], "cbcenc")
    if not R.check(ok_, "payload", "Database::save", lambda: "after the header save writes %s" % ", ".join(show(x, 2) for x in F.payload[:4])):
        return
    _, mode, key, iv, pad, data = F.payload[0].a
    hdr = {r.id: r.value for r in F.records}
    R.check("256" in str(show(mode) if isinstance(mode, T) else mode), "cipher", "key size", "the payload is encrypted with %s" % (mode,))
    R.check(iv is hdr.get(7), "iv", "Database::save", lambda: "the payload is encrypted with the IV %s but the header says %s" % (show(iv, 3), show(hdr.get(7, BOT), 3)))
    k = {path_of(x)[1] for x in deep(I, key) if path_of(x) and path_of(x)[0] == "self" and len(path_of(x)) > 1}
    R.check("composite_key" in k, "key", "Database::save", lambda: "the key depends on %s only" % sorted(k))
    items = list(data.a[1:]) if isapp(data, "cat") else [data]
    R.check(items[0] is hdr.get(9), "start-bytes", "Database::save", lambda: "the payload starts with %s" % show(items[0], 3))
    # every single write, also on paths that fail later
    n = 0
    for r, ev in e.events("write") + e.events("xfer"):
        data = ev.args[1] if len(ev.args) > 1 else None
        w = ev.args[0]
        if not isinstance(data, T) or not (isinstance(w, T) and w.op == "ref"):
            continue
        if w.a[0] != ("p", "writer"):
            continue
        n += 1
        data = e.C.canon(data)
        bad = exposed(data) - PLAIN
        R.check(not bad, "write", "%s" % e.where(r, ev).split("(in ")[-1].rstrip(")"), lambda: "writes %s in clear at %s" % (sorted(bad), ev.span))
    for f, leaf in paths(I, e.run.exit.mem[("p", "writer")]):
        n += 1
        bad = exposed(e.C.canon(leaf)) - PLAIN
        R.check(not bad, "output", "alternative of the output", lambda: "output reveals %s" % sorted(bad))
    R.floor("writes and outputs examined", n, 20)
