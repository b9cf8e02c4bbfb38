"""C07: file header fields written by save are the ones open reads back."""
from engine.view import *
from engine.filefmt import saved, parse, Layout
from engine.guards import *
from engine.roundtrip import report, HEADER

EXPLANATION = (
    "Three analyses of MIR. (1) The term of the file that save writes is parsed as a KeePass 2 header: signatures, version, records; "
    "each record must have the length it announces, each mandatory identifier must occur exactly once and unconditionally before the "
    "end marker. (2) Guard analysis of open on an arbitrary input: every header variable is set only in iterations whose first byte is "
    "that record's identifier and whose 16-bit length equals the width of the value, and the database is returned only if every "
    "mandatory one was set. (3) Composition of save and open: the header fields of the database come back unchanged.")
SIZES = {2: 16, 3: 4, 4: 32, 5: 32, 6: 8, 7: 16, 8: 32, 9: 32, 10: 4}
NAMES = {1: "comment", 2: "master cipher", 3: "compression", 4: "master seed", 5: "transform seed", 6: "transform rounds", 7: "IV",
         8: "protected stream key", 9: "start bytes", 10: "stream cipher"}


def check(W, R):
    e = saved(W)
    try:
        F = parse(e.out)
    except Layout as x:
        R.bad("layout", "Database::save", str(x))
        F = None
    if F:
        R.check(F.sig == bytes([3, 217, 162, 154, 103, 251, 75, 181]), "signature", "Database::save", lambda: "save writes the signature %s" % list(F.sig))
        ids = [r.id for r in F.records]
        R.check(ids and ids[-1] == 0 and ids.count(0) == 1, "end", "Database::save", "the end marker is not the last record: %s" % ids)
        for i in SIZES:
            rs = [r for r in F.records if r.id == i]
            R.check(len(rs) == 1 and rs[0].cond is None, "written once", NAMES[i], lambda: "header %d is written %d times%s" % (
                i, len(rs), "".join(" when %s is %s" % (show(r.cond[0], 3), r.cond[1]) for r in rs if r.cond)))
            for r in rs:
                R.check(r.size.op == "const" and r.size.a[1] == SIZES[i], "width", NAMES[i], lambda: "header %d is written with %s bytes" % (i, show(r.size, 3)))
        R.check(set(ids) <= set(SIZES) | {0, 1} and ids.count(1) <= 1, "known records", "Database::save", "records %s are written" % ids)
    o = W.entry(W.method("Database", "open"))
    H = Header(o)
    R.floor("records open reads", len(H.vars), 10)
    for i in sorted(set(SIZES) | {1}):
        vs = H.vars.get(i, [])
        if not R.check(len(vs) >= 1, "read", NAMES[i], "no header variable is set in an iteration that is known to have read identifier %d" % i):
            continue
        for m, f, leaf in vs:
            if i in SIZES:
                n = H.size(f)
                R.check(n == SIZES[i], "length checked", NAMES[i], lambda: "header %d is accepted with length %s" % (i, "unchecked" if n is None else n))
        if i == 1:
            continue
        for g, v in H.ok:
            for m in {m for m, f, leaf in vs if o.I.mus[m][0].op == "agg" and o.I.mus[m][0].a[0] == OPT}:
                p = g.get(o.I.disc(m, OPT))
                R.check(p is not None and p[0] and set(p[1]) == {1}, "mandatory", NAMES[i], lambda: "open returns a database although header %d is missing" % i)
            R.check(any(o.I.mus[m][0].op == "agg" and o.I.mus[m][0].a[0] == OPT and o.I.mus[m][0].a[1] == 0 for m, f, leaf in vs),
                    "initially missing", NAMES[i], lambda: "header %d has a default value" % i)
    report(W, R, "C07", lambda p, t: len(p) > 1 and p[1] in HEADER, 8)
