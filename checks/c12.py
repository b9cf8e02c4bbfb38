"""C12: open accepts payload blocks only if they are intact and complete."""
from engine.view import *
from engine.guards import *
from engine.inject import *

EXPLANATION = (
    "(1) Guard analysis of Database::open on an arbitrary input: the source of every XML parser that open creates is, up to "
    "decompression, one buffer that is filled by a loop reading the decrypted payload; every alternative in which that loop starts "
    "another iteration must append exactly the data X read in this iteration and carry the facts SHA-256(X) = the hash read in this "
    "iteration and (number read first) = (iteration counter starting at 0, step 1); wherever the parser is created, the facts of the last "
    "iteration must say: number = counter, length = 0, hash = 32 zero bytes, and failure of any read is excluded. (2) Composition: open "
    "is evaluated on a saved file in which the number, hash, number of the final block or hash of the final block is replaced by an "
    "arbitrary value, in which the final block is missing, or in which a block is repeated; every alternative that returns a database "
    "must imply that the value is the genuine one.")


def check(W, R):
    e = W.entry(W.method("Database", "open"))
    I = e.I
    C = Header(e).C
    k = 0
    loops = set()
    for r, ev in e.events():
        if not ("EventReader" in ev.name and "new" in ev.name.split("::")[-1] or "create_reader" in ev.name):
            continue
        k += 1
        f0 = Facts({unpart(t): v for t, v in at(e, r, ev).items()})
        src = ev.res.a[3].a[1]
        for f, D, leaf in buffers(I, unpart(src), f0):
            if not R.check(D is not None, "source", "parser in %s" % r.fn, lambda: "%s: the document is parsed from %s, not from the data of the blocks" % (e.where(r, ev), show(leaf, 6))):
                continue
            final(e, R, I, C, f, D, r.fn)
            loops.add(D)
    R.floor("parsers", k, 1)
    for D in loops:
        blocks(R, I, C, D)
    R.floor("block buffers", len(loops), 1)
    inject(W, R)


def buffers(I, t, f0):
    """loop-filled buffers that the parsed text may consist of: [(facts, variable or None, source)]"""
    out = []
    for f, leaf in paths(I, t, f0):
        x = leaf
        if x.op == "app" and x.a[0] in ("events", "cursor", "gunzip", "slice_from", "bufreader") and (x.a[0] != "slice_from" or x.a[2] is cint(0)):
            out += buffers(I, x.a[1], f)
        elif x.op == "agg" and x.a[0] not in ("array", "tuple") and len(x.a) == 4:
            out += buffers(I, x.a[3], f)
        else:
            out.append((f, x if x.op == "mu" and x in I.mus else None, leaf))
    return out


def state_of(I, m):
    """variable that holds the reader in the loop of m"""
    for x in I.mus:
        if x.a[:2] == m.a[:2] and x is not m:
            E, B = I.mus[x]
            if leavesof(B) and all(isapp(y, "after") for y in leavesof(B)):
                return x
    return None


def from_iteration(C, t, st):
    """t consists only of bytes read in the iteration that starts in reader state st -> the reads"""
    xs = ins(t)
    return xs if xs and all(chain(x, st) for x in xs) else None


def chain(x, st):
    s = source(x)
    n = 0
    while s is not None and s is not st:
        if not isapp(s, "after"):
            return False
        s = source_of_call(s.a[1])
    return s is st


def number(C, f, st, loop, I):
    """numbers read in this iteration that are known to equal the iteration counter"""
    out = []
    for a, b in equations(f):
        if isinstance(b, tuple):
            continue
        for x, y in ((a, b), (b, a)):
            if counts_from_zero(I, x, loop):
                n = y.a[3] if isapp(y, "cast") else y
                if isapp(n, "num") and n.a[2].a[1] == "u32" and from_iteration(C, n, st):
                    out.append(n)
    return out


def blocks(R, I, C, D):
    st = state_of(I, D)
    if not R.check(st is not None, "loop", "blocks", "no reader is advanced by the loop that fills the buffer"):
        return
    E, B = I.mus[D]
    R.check(blank_value(E), "loop", "initially empty", lambda: "the buffer starts as %s" % show(E, 4))
    src = I.mus[st][0]
    R.check(any(isapp(x, "cbcdec") for x in subterms(C.canon(src))) or any(x.op == "call" and "decrypt" in x.a[0] for x in deep(I, src)), "loop", "payload",
            lambda: "blocks are read from %s" % show(src, 5))
    n = 0
    for f, leaf in backalts(I, D):
        n += 1
        it = cat_items(leaf)
        X = C.canon(cat(*it[1:])) if it and it[0] is D and len(it) > 1 else None
        if not R.check(bool(X is not None and from_iteration(C, X, st)), "appended", "block", lambda: "a block adds %s" % show(leaf, 5)):
            continue
        h = [(a, b) for a, b in equations(f) if not isinstance(b, tuple)]
        okh = False
        for a, b in h:
            for x, y in ((a, b), (b, a)):
                if any(isapp(z, "sha256") for z in subterms(strip(x))):
                    cx, cy = strip(C.canon(x)), strip(y)
                    if isapp(cx, "sha256") and C.equal(cx.a[1], X) and isapp(cy, "in") and cy.a[2] is cint(32) and chain(cy, st) and cy not in ins(X):
                        okh = True
        R.check(okh, "hash", "block", lambda: "the data of a block are used without the fact that their hash equals the stored one; known: %s" %
                "; ".join(show(t, 4)[:150] for t, pv in f.items() if isapp(t, "eq"))[:700])
        R.check(bool(number(C, f, st, D.a[:2], I)), "number", "block", lambda: "the data of a block are used without the fact that its number is the next one; known: %s" %
                "; ".join("%s=%s" % (show(t, 4)[:150], set(pv[1])) for t, pv in f.items() if isapp(t, "eq", "lt"))[:700])
    R.floor("alternatives of the block loop", n, 1)


def final(e, R, I, C, f, D, fn):
    st = state_of(I, D)
    if st is None:
        return
    R.check(bool(number(C, f, st, D.a[:2], I)), "number", "final block", lambda: "the document is parsed without the fact that the number of the last block is the next one")
    size = [t for t in f if isapp(t, "num") and known(f, t) == 0 and t.a[2].a[1] == "u32" and from_iteration(C, t, st) and t not in number(C, f, st, D.a[:2], I)]
    R.check(bool(size), "empty", "final block", "the document is parsed without the fact that the last block is empty")
    z = [t for t in all_terms(f) if isapp(t, "in") and t.a[2] is cint(32) and chain(t, st) and known(f, t) in ((0,) * 32, bytes(32))]
    R.check(bool(z), "zero hash", "final block", "the document is parsed without the fact that the hash of the last block is zero")


def all_terms(f):
    for t in list(f):
        yield t
        if isapp(t, "eq"):
            yield t.a[1]
            yield t.a[2]


def inject(W, R):
    def number_of(x):
        return isapp(x, "enc") and x.a[2].a[1] == "u32" and x.a[3].op == "const"

    def plan(fn):
        def alter(Rr, F):
            p, it = payload_items(F)
            Rr.want = Rr.forged = None
            it = fn(Rr, it)
            return repack(F, it)
        return alter

    def layout(it):
        """positions of the first and the final block"""
        if not (len(it) == 8 and number_of(it[1]) and isapp(it[2], "sha256") and number_of(it[5]) and number_of(it[7])):
            raise Mismatch("the payload is not: start bytes, one block, final block: %s" % ", ".join(show(x, 2) for x in it)[:300])

    def forge(i, bits):
        def fn(Rr, it):
            layout(it)
            Rr.want = it[i].a[3] if isapp(it[i], "enc") else it[i]
            if bits:
                it[i] = app("enc", it[i].a[1], it[i].a[2], FORGED)
                Rr.forged = FORGED
            else:
                it[i] = Rr.forged = FORGED32
            return it
        return fn

    def cut(n):
        def fn(Rr, it):
            layout(it)
            return it[:-n]
        return fn

    def double(Rr, it):
        layout(it)
        return it[:5] + it[1:5] + it[5:]

    def swapped(Rr, it):
        layout(it)
        return it[:1] + it[5:] + it[1:5]
    for what, fn in (("number of a block", forge(1, True)), ("hash of a block", forge(2, False)), ("number of the final block", forge(5, True)),
                     ("hash of the final block", forge(6, False)), ("final block missing", cut(3)), ("payload truncated", cut(1)),
                     ("block repeated", double), ("final block first", swapped)):
        try:
            Rr, al = opened(W, plan(fn))
        except Mismatch as x:
            R.bad("enforced", what, "open cannot be followed: %s" % x)
            continue
        if what == "final block first":
            # the payload ends at the first final block: its number must not be accepted
            pass
        bad = survives(Rr, al, Rr.want, Rr.forged) if Rr.forged is not None else [f for f, v, err in al if err is None]
        R.check(not bad, "enforced", what, lambda: "open returns a database when %s" % ("the %s is not the genuine one" % what if Rr.forged is not None else what))
        R.floor("alternatives (%s)" % what, len([1 for f, v, err in al if err is not None]), 1)
