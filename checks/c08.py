"""C08: save and open derive the same keys from all of the credentials."""
from engine.view import *
from engine.filefmt import saved, parse, Layout
from engine.guards import *
from engine.keys import Keys

EXPLANATION = (
    "The term of the key that save passes to the AES-CBC encryption of the payload, and of the key that every decryption in open uses, "
    "is brought to a normal form: element-wise copy loops are the copied value, SHA-256 over accumulated input is SHA-256 of the "
    "concatenation, and a loop that replaces both 16-byte halves of a buffer by their AES encryption exactly once per iteration of "
    "0..n (left only when exhausted) is rounds(key, n, half); alternatives (processor features) must agree. Both normal forms must be "
    "SHA-256(master seed, SHA-256(rounds(AES-256(transform seed), configured rounds, composite key))), with the seeds and rounds that "
    "save writes to, and open reads from, the header. Constructors of composite keys must hash the whole password and key file; "
    "Database::new and open must keep the given key.")


def want(mseed, tseed, rounds, comp):
    r = lambda a, b: app("rounds", app("aes", cstr("KeySize256"), tseed), rounds, app("slice", comp, cint(a), cint(b)))
    return app("sha256", cat(mseed, app("sha256", cat(r(0, 16), r(16, 32)))))


def sym(n, *path):
    t = mk("sym", n)
    for p in path:
        t = mk("fld", None, p, t)
    return t


def same(a, b):
    """equal up to the kind of field access"""
    if a is b:
        return True
    if not (isinstance(a, T) and isinstance(b, T)) or a.op != b.op or len(a.a) != len(b.a):
        return a == b
    if a.op == "fld":
        return a.a[1] == b.a[1] and same(a.a[2], b.a[2])
    if a.op == "const":
        return a.a[1] == b.a[1]
    return all(same(x, y) for x, y in zip(a.a, b.a))


def check(W, R):
    e = saved(W)
    try:
        F = parse(e.out)
        enc = F.payload[0]
        if not isapp(enc, "cbcenc"):
            raise Layout("the payload is %s" % show(enc, 3))
    except Layout as x:
        R.bad("layout", "Database::save", str(x))
        return
    K = Keys(e.I, e.C)
    rec = {r.id: r.value for r in F.records}
    num = rec.get(6)
    rounds = num.a[3] if num is not None and isapp(num, "enc") else num
    comp = app("unsec", sym("self", "composite_key", "0"))
    w = want(rec.get(4), rec.get(5), rounds, comp)
    got = K.nf(enc.a[2])
    R.check(same(got, w), "key", "Database::save", lambda: "the payload is encrypted with %s instead of %s" % (show(got, 14)[:900], show(w, 14)[:900]))
    R.check(rounds is not None and path_of(rounds) == ("self", "transform_rounds", "0"), "rounds written", "Database::save", lambda: "the number of rounds in the header is %s" % show(num, 4))
    R.check("256" in show(enc.a[1], 2), "cipher", "Database::save", lambda: "the payload is encrypted with %s" % show(enc.a[1], 2))
    # open
    o = W.entry(W.method("Database", "open"))
    H = Header(o)
    K = Keys(o.I, H.C)
    calls = {}
    for r, ev in o.events():
        for t in [ev.res] + [a for a in ev.args if isinstance(a, T)]:
            if isinstance(t, T):
                for x in subterms(t):
                    if x.op == "call" and "decrypt" in x.a[0] and (x not in calls or "decrypt" in ev.name and "decrypt" not in calls[x][1].name):
                        calls[x] = (r, ev)
    n = 0
    for c, (r, ev) in calls.items():
        ci = next((x for x in c.a if isinstance(x, T) and x.op == "agg" and "key" in x.a[2]), None)
        if ci is None:
            continue
        n += 1
        key = ci.a[3 + ci.a[2].index("key")]
        got = K.nf(key)
        val = {i: value_of(got, H.vars.get(i, [])) for i in (4, 5, 6)}
        if not R.check(None not in val.values(), "influences", "Database::open", lambda: "%s: the key %s does not depend on header %s" % (
                o.where(r, ev), show(got, 14)[:600], [i for i in val if val[i] is None])):
            continue
        w = want(val[4], val[5], val[6], app("unsec", sym("key", "0")))
        R.check(same(got, w), "key", "Database::open", lambda: "%s: the payload is decrypted with %s instead of %s" % (o.where(r, ev), show(got, 14)[:900], show(w, 14)[:900]))
        ks = [y for y in ci.a[3:] if isinstance(y, T) and "KeySize" in show(y, 2)]
        R.check(len(ks) == 1 and "256" in show(ks[0], 2), "cipher", "Database::open", lambda: "the payload is decrypted with %s" % show(ci, 3))
    R.floor("decryptions in open", n, 1)
    for f, v in H.ok:
        k = o.I.simp(field(v, "composite_key"), f)
        R.check(key_is(k, "key"), "kept", "Database::open", lambda: "the composite key of an opened database is %s" % show(k, 4))
    # constructors
    pw, kf = app("sha256", sym("password")), app("unsec", sym("key_file", "key"))
    for name, w in (("from_both", app("sec", app("sha256", cat(pw, kf)))), ("from_key_file", app("sec", app("sha256", kf))),
                    ("from_password", app("sec", app("sha256", pw)))):
        c = W.entry(W.method("CompositeKey", name))
        got = Keys(c.I, Canon(c.I)).nf(core(c.run.ret))
        R.check(same(got, w), "constructor", name, lambda: "the composite key is %s instead of %s" % (show(got, 9)[:500], show(w, 9)))
    d = W.entry(W.method("Database", "new"))
    k = field(d.run.ret, "composite_key")
    R.check(key_is(k, "key"), "kept", "Database::new", lambda: "the composite key of a new database is %s" % show(k, 4))


def key_is(t, name):
    while t.op == "agg" and len(t.a) == 4:
        t = t.a[3]
        if t.op == "fld" and t.a[1] == "0":
            t = t.a[2]
    return t is mk("sym", name)


def value_of(t, vs):
    """the maximal access path of the header variable inside t"""
    ms = {m for m, f, leaf in vs}
    found = set()

    def go(x):
        y = x
        while y.op == "fld":
            y = y.a[2]
        if y in ms:
            found.add(x)
            return
        for z in x.a:
            if isinstance(z, T):
                go(z)
    go(t)
    return next(iter(found)) if len(found) == 1 else None
