"""C27: files of unsupported formats are refused, and save refuses KeePass 1 databases."""
from engine.view import *
from engine.guards import *
from engine.inject import *
from engine.filefmt import saved, parse, Layout

EXPLANATION = (
    "(1) Composition: open is evaluated on a saved file in which one signature, the identifier of the master cipher, of the stream "
    "cipher or of the compression, or the identifier of a header record is replaced by an arbitrary value of the same size; every "
    "alternative that returns a database must imply that the value is an implemented one (the two KeePass 2 signatures, AES, Salsa20, "
    "no compression or gzip, header identifiers 0 to 10). (2) Guard analysis of open on an arbitrary input: every alternative in which "
    "the header loop goes on has an identifier from 1 to 10, and every path that returns a database carries the facts that both "
    "signatures are right. (3) Under the assumption that the database is a KeePass 1 database, save returns an error and the writer "
    "has not been written to.")

def cbytes(b):
    return mk("const", "bytes", tuple(b))


SIG = (bytes((3, 217, 162, 154)), bytes((103, 251, 75, 181)))
AES = bytes((0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff))


def width(x):
    return {"u8": 1, "u32": 4}[x.a[2].a[1]] if isapp(x, "enc") else x.a[2].a[1]


def blob(n):
    return app("rand", FORGED, cint(n))


def raw(v):
    """bytes of a known value"""
    if isinstance(v, (bytes, tuple, list)):
        return bytes(v)
    return None


def value(R, f, n):
    """the facts f pin the n forged bytes to this value"""
    b = blob(n)
    for t in all_terms(f):
        for x in variants_(R, t, f):
            if x is b:
                v = raw(known(f, t))
                if v is not None and len(v) == n:
                    return v
            if isapp(x, "num") and strip(x.a[3]) is b:
                v = known(f, t)
                if isinstance(v, int):
                    return v.to_bytes(n, "little" if x.a[1].a[1] == "LE" else "big")
    return None


def variants_(R, t, f):
    yield strip(t)
    yield strip(R.C.canon(R.I.simp(t, f)))


def all_terms(f):
    for t in list(f):
        yield t
        if isapp(t, "eq"):
            yield t.a[1]
            yield t.a[2]
        elif isapp(t, "starts_with", "ends_with", "index", "at"):
            yield t.a[1]


def ends_after(I, f, m):
    """the rounds of the loop are made only for one value of m, and m has another one after this round"""
    p, vs = f[m]
    v = I.simp(I.mus[m][1], f)
    return p and len(vs) == 1 and v.op == "const" and int(v.a[1]) not in {int(x) for x in vs}


def check(W, R):
    cases = [("first signature", 4, lambda F: cat(blob(4), cbytes(F.sig[4:]), *F.items[F.start:]), {SIG[0]}),
             ("second signature", 4, lambda F: cat(cbytes(F.sig[:4]), blob(4), *F.items[F.start:]), {SIG[1]}),
             ("master cipher", 16, lambda F: put(F, 2, blob(16)), {AES})]
    for what, n, alter, good in cases:
        try:
            Rr, al = opened(W, lambda Rr, F: alter(F))
        except (Mismatch, Layout) as x:
            R.bad("refused", what, "open cannot be followed: %s" % x)
            continue
        k = 0
        for f, v, err in al:
            if err is None:
                k += 1
                got = value(Rr, f, n)
                R.check(got in good, "refused", what, lambda: "open returns a database when the %s is %s" % (what, "arbitrary" if got is None else list(got)))
        R.floor("alternatives that accept the %s" % what, k, 1)
        R.floor("alternatives that refuse the %s" % what, len(al) - k, 1)
    for what, n, alter, good in (("compression", 4, lambda F, x: put(F, 3, x), {0, 1}), ("stream cipher", 4, lambda F, x: put(F, 10, x), {2}),
                                 ("header identifier", 1, extra, set(range(11)))):
        x = app("enc", cstr("LE"), cstr({1: "u8", 4: "u32"}[n]), FORGED)

        def forged(Rr, F):
            Rr.seed = {FORGED: (False, good)}
            return alter(F, x)
        try:
            Rr, al = opened(W, forged)
        except (Mismatch, Layout) as x:
            R.bad("refused", what, "open cannot be followed: %s" % x)
            continue
        for f, v, err in al:
            R.check(err is not None, "refused", what, lambda: "open returns a database although the %s is none of %s" % (what, sorted(good)))
        R.floor("alternatives with another %s" % what, len(al), 1)
    # any input
    e = W.entry(W.method("Database", "open"))
    H = Header(e)
    I = e.I
    k = 0
    for f, v in backalts(I, H.state):
        i = H.ident(f, H.state)
        k += 1
        ends = any(m in I.mus and m.a[:2] == H.state.a[:2] and ends_after(I, f, m) for m in f)
        R.check(i in range(0 if ends else 1, 11), "header", "loop", lambda: "a header record with %s is accepted" % ("any identifier" if i is None else "identifier %s" % i))
    R.floor("alternatives of the header loop", k, 10)
    for f, v in H.ok:
        found = {}
        for t in all_terms(f):
            for x, dec in ((t, raw), (t.a[3] if isapp(t, "num") else t, lambda v, t=t: v.to_bytes(4, "little" if t.a[1].a[1] == "LE" else "big") if isapp(t, "num") and isinstance(v, int) else None)):
                if isapp(x, "in") and x.a[2] is cint(4):
                    v4 = known(f, t)
                    d = dec(v4) if v4 is not None else None
                    if d is not None:
                        s, depth = source(x), 0
                        while isapp(s, "after"):
                            s, depth = source_of_call(s.a[1]), depth + 1
                        found[depth] = d
        for i in (0, 1):
            R.check(found.get(i) == SIG[i], "signature", "Database::open %d" % i, lambda: "a database is returned when signature %d is %s" % (i + 1, found.get(i)))
    # save
    s = W.entry(W.method("Database", "save"))
    idx = [v["n"] for v in W.D.adts[W.adt("DbType")]["v"]].index("Kdb1")
    f = None
    for d in subterms_of(s):
        if d.op == "disc" and d.a[1].op == "fld" and d.a[1].a[1] == "db_type":
            f = s.I.assume(NOFACTS, d, True, [idx])
    if not R.check(f is not None, "saved", "Kdb1", "save does not look at the type of the database"):
        return
    for g, v in paths(s.I, s.run.ret, f):
        R.check(v.op == "agg" and v.a[0] == RES and v.a[1] == 1, "saved", "Kdb1", lambda: "saving a KeePass 1 database returns %s" % show(v, 3))
    for g, v in paths(s.I, s.run.exit.mem[("p", "writer")], f):
        R.check(v is mk("sym", "writer"), "nothing written", "Kdb1", lambda: "saving a KeePass 1 database writes %s" % show(v, 4))


def put(F, id, x):
    r = [r for r in F.records if r.id == id and getattr(r, "pos", None)]
    if len(r) != 1 or r[0].size.op != "const" or r[0].size.a[1] != width(x):
        raise Layout("header %s is not one record of %s bytes" % (id, width(x)))
    i, j = r[0].pos
    return cat(*F.items[:i + 2], x, *F.items[j:])


def extra(F, x):
    """one more record, with an arbitrary identifier"""
    i = next(r.pos[0] for r in F.records if getattr(r, "pos", None))
    return cat(*F.items[:i], x, app("enc", cstr("LE"), cstr("u16"), cint(4)), cbytes(bytes(4)), *F.items[i:])


def subterms_of(e):
    seen = set()
    for t in [e.run.ret, e.run.exit.mem[("p", "writer")]] + [x for r in e.run.walk() for s in [getattr(r, "callfacts", None)] if s for x in s]:
        for x in subterms(t):
            if x not in seen:
                seen.add(x)
                yield x
    for s, al in e.I.guards.items():
        for fs in al.values():
            for x in fs:
                for y in subterms(x):
                    if y not in seen:
                        seen.add(y)
                        yield y
