"""C13: the stored header hash covers the whole header and is enforced."""
from engine.view import *
from engine.filefmt import saved, parse, Layout
from engine.guards import *
from engine.inject import *

EXPLANATION = (
    "(1) save: the hash in the document is the SHA-256 of exactly the items that the output consists of up to and including the end "
    "marker. (2) open on an arbitrary input: on every path through the header loop the bytes added to the log are exactly the bytes read "
    "in that iteration, in order, and the value hashed is that log extended by every read up to the state from which the payload is "
    "read. (3) composition: open is evaluated on a saved file whose stored hash is replaced by an arbitrary value; every alternative "
    "that returns a database must carry the fact that this value equals the hash, the others must return InvalidHeaderHash.")


def check(W, R):
    e = saved(W)
    try:
        F = parse(e.out)
    except Layout as x:
        R.bad("layout", "Database::save", str(x))
        return
    hh = app("sha256", cat(*F.header_items))
    hashes = [x for x in subterms(F.payload[0]) if isapp(x, "b64")]
    n = [x for x in hashes if hh in subterms(x)]
    R.check(len(n) >= 1, "stored", "Database::save", lambda: "no text of the document is the hash of all header bytes; hashes: %s" %
            ", ".join(show(x, 6)[:200] for x in hashes if any(isapp(y, "sha256") for y in subterms(x)))[:600])
    # the reader logs what it reads
    o = W.entry(W.method("Database", "open"))
    I = o.I
    H = Header(o)
    C = H.C
    logs = [m for m in I.mus if m.a[:2] == H.loop and (cat_items(x := leavesof(I.mus[m][1])[0]) or [None])[0] is m and len(cat_items(x)) > 1] if H.loop else []
    k = 0
    for m in logs:
        E, B = I.mus[m]
        for f, leaf in paths(I, B):
            k += 1
            it = cat_items(leaf)
            st = I.simp(I.mus[H.state][1], f)
            ch = read_chain(C, st, H.state)
            got = it[1:] if it and it[0] is m else None
            if R.check(ch is not None and got is not None and [x.a[1] if isapp(x, "in") else x for x in got] == ch, "logged", "header loop, record %s" % H.ident(f, H.state),
                       lambda: "the bytes added to the log (%s) are not the bytes read" % show(leaf, 3)):
                for x in got:
                    c = x.a[1]
        st0 = I.mus[H.state][0]
        ch = read_chain(C, st0, mk("sym", "reader"))
        it = cat_items(E)
        R.check(ch is not None and [x.a[1] if isapp(x, "in") else x for x in it] == ch, "logged", "before the header", lambda: "%s is logged" % show(E, 4))
    R.floor("paths through the header loop", k, 10)
    # the value hashed
    pay = [t for f, v in H.ok for t in f if t.op == "disc" and t.a[1].op == "call" and "decrypt" in t.a[1].a[0]]
    rest = {x for t in pay for x in subterms(t) if isapp(x, "in") and x.a[2] is cstr("rest")}
    hashed = set()
    for g in [f for f, v in H.ok] + [f for s in I.guards.values() for f in s.values()]:
        for t in g:
            if isapp(t, "eq"):
                for y in (t.a[1], t.a[2]):
                    y = C.canon(y)
                    for x in subterms(strip(y)) if isapp(strip(y), "sha256") else ():
                        if isapp(x, "sha256") and any(l in subterms(x) for l in logs):
                            hashed.add(x)
    R.floor("hashes compared with the stored one", len(hashed), 1)
    for x in hashed:
        it = cat_items(x.a[1])
        okk = bool(it) and it[0] in logs
        if okk:
            st = H.state
            for y in it[1:]:
                if not (isapp(y, "in") and source(y) is st):
                    okk = False
                    break
                st = app("after", y.a[1])
            okk = okk and {source(z) for z in rest} == {st}
        R.check(okk, "complete", "hash computed by open", lambda: "the hash is that of %s, the payload is what follows %s" % (show(x.a[1], 4), [show(source(z), 4) for z in rest]))
    # enforcement

    def forge(Rr, G):
        h = Rr.genuine = app("sha256", cat(*G.header_items))
        return subst(Rr.out, {h: FORGED})
    try:
        Rr, alts_ = opened(W, forge)
    except Mismatch as x:
        R.bad("enforced", "Database::open", "open cannot be followed: %s" % x)
        return
    bad = 0
    for f, v, err_ in alts_:
        if err_ is None:
            R.check(forged_is(Rr, f, Rr.genuine), "enforced", "Database::open", "a database is returned although the stored hash differs from the hash of the header")
        else:
            bad += 1
            R.check(err_.op == "agg" and variant(I, err_) == "InvalidHeaderHash", "error", "Database::open", lambda: "a wrong hash gives %s" % show(err_, 3))
    R.floor("alternatives that reject a forged hash", bad, 1)


def variant(I, x):
    info = I.adts.get(x.a[0])
    return info["v"][x.a[1]]["n"] if info and isinstance(x.a[1], int) else None
