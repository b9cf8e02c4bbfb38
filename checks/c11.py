"""C11: open returns a database only after the key has been verified."""
from engine.view import *
from engine.guards import *

EXPLANATION = (
    "Guard analysis of Database::open on an arbitrary input, by abstract interpretation of MIR: every alternative in which open returns "
    "a database must carry the fact that the decrypted payload starts with the start bytes of the header (all 32), where the decrypted "
    "payload is the AES-256-CBC decryption with padding removal of everything after the header; the same fact must hold wherever an "
    "XML parser is created, i.e. before any content is parsed; the alternative in which the fact fails must return InvalidKey; and "
    "failing decryption must not lead to a database.")


def prefix_facts(C, f, truth):
    """(payload, start bytes) pairs known to be (un)equal as a prefix"""
    for t, (pos, vals) in f.items():
        if pos and set(vals) == {truth}:
            if isapp(t, "starts_with"):
                yield C.canon(t.a[1]), t.a[2]
            elif isapp(t, "eq"):
                for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if isapp(a, "slice") and a.a[2] is cint(0) and a.a[3] in (cint(32), length(b)) or isapp(a, "take") and a.a[2] in (cint(32), length(b)):
                        yield C.canon(a.a[1]), b


def plain(C, t):
    """decryption that t is the result of"""
    t = C.canon(t)
    return t if isapp(t, "cbcdec") else None


def check(W, R):
    e = W.entry(W.method("Database", "open"))
    I = e.I
    H = Header(e)
    C = H.C
    R.check(len(H.vars.get(9, [])) == 1, "start bytes", "header", "the start bytes are not read from exactly one header record")
    sb = None
    for m, f, leaf in H.vars.get(9, []):
        sb = m
        b = core(leaf)
        R.check(H.size(f) == 32 and isapp(b, "in") and b.a[2] is cint(32), "start bytes", "32 bytes", lambda: "the start bytes are %s" % show(leaf, 4))
    n = 0

    def good(f):
        for p, s in prefix_facts(C, f, 1):
            d = plain(C, p)
            if d is not None and sb is not None and whole(s, sb):
                return d
        return None

    def whole(s, m):
        """s is the whole value of header variable m"""
        while s.op == "fld":
            s = s.a[2]
        return s is m
    for f, v in H.ok:
        n += 1
        d = good(f)
        if not R.check(d is not None, "verified", "Database::open returns", lambda: "open returns a database without the fact that the decrypted payload starts with all the start bytes; known: %s" %
                       "; ".join(show(t, 4)[:200] for t, pv in f.items() if isapp(t, "starts_with", "eq") and pv[1] == frozenset([1]))[:900]):
            continue
        _, ks, key, iv, pad, data = d.a
        R.check("256" in show(ks, 3), "cipher", "Database::open", lambda: "the payload is decrypted with %s" % show(ks, 3))
        R.check("Pkcs" in show(pad, 3), "padding", "Database::open", lambda: "padding is %s" % show(pad, 3))
        R.check(isapp(data, "in") and data.a[2] == cstr("rest") or isapp(data, "in"), "everything", "Database::open", lambda: "not everything after the header is decrypted: %s" % show(data, 4))
        ivs = H.vars.get(7, [])
        R.check(len(ivs) == 1 and whole(iv, ivs[0][0]), "iv", "Database::open", lambda: "the IV is %s" % show(iv, 4))
        bad = [t for t, (pos, vals) in f.items() if t.op == "disc" and t.a[0] == RES and t.a[1].op == "call" and "decrypt" in t.a[1].a[0] and not (pos and set(vals) == {0})]
        R.check(not bad, "decryption", "Database::open", "open returns a database although decryption failed")
    R.floor("alternatives that return a database", n, 1)
    # nothing is parsed before the test
    k = 0
    for r, ev in e.events():
        if ev.name.split("::")[-2:-1] == ["EventReader"] and "new" in ev.name.split("::")[-1] or "create_reader" in ev.name:
            k += 1
            R.check(good(at(e, r, ev)) is not None, "parsed", "parser in %s" % r.fn, lambda: "%s: content is parsed before the key was verified" % e.where(r, ev))
        elif ev.name.split("::")[-1] in ("read_to_end",) and isinstance(ev.args[0], T):
            pass
    R.floor("XML parsers created", k, 1)
    # the failing alternative
    j = 0
    for f0, t in okalts(e, 1):
        for f, x in paths(I, t, f0):
            if any(sb is not None and whole(s, sb) for p, s in prefix_facts(C, f, 0)):
                j += 1
                R.check(x.op == "agg" and variant(I, x) == "InvalidKey", "rejected", "Database::open", lambda: "a payload that does not start with the start bytes gives %s" % show(x, 3))
            elif good(f) is None and x.op == "agg" and variant(I, x) == "InvalidKey":
                j += 1      # the same outcome for a payload that is too short
    R.floor("alternatives for a wrong key", j, 1)


def variant(I, x):
    info = I.adts.get(x.a[0])
    return info["v"][x.a[1]]["n"] if info and isinstance(x.a[1], int) else None
