"""C16: failures while reading or writing are reported, not swallowed."""
from engine.terms import *
from engine.view import paths

EXPLANATION = ("For opening and saving databases and key files, the analysis keeps a ghost value that says which fallible operation - of the "
               "underlying reader or writer, of the XML parser and emitter, of decoding, decompression, encryption, parsing, or a function of the crate - "
               "has failed so far. On every path to a successful return it must say: none. Errors of the XML parser repeat on the next read, so they "
               "are reported if the parser is read successfully afterwards. The only error that may be dropped is the one of the function that reads an "
               "auto-type association.")

READER = ("EventReader::next",)


def causes(I, t, f):
    """{(call, repeated): loops on the way}: what can have failed when the ghost value is t"""
    seen = set()
    out = {}
    steps = 0
    work = [(x, False, ()) for _, x in paths(I, t, f)]
    while work:
        x, rep, way = work.pop()
        if (x, rep) in seen:
            continue
        seen.add((x, rep))
        steps += 1
        if x.op == "const":
            continue
        if x.op == "mu":
            E, B = I.mus[x]
            run, h = I.loopinfo[x.a[:2]]
            work += [(y, rep, way + (run.fn,)) for _, y in paths(I, E)]
            work += [(y, rep, way + (run.fn,)) for _, y in paths(I, B, run.loops[h]["B"].facts)]
        elif x.op == "app" and x.a[0] == "sticky":
            work += [(y, True, way) for _, y in paths(I, x.a[1])]
        elif x.op == "app" and x.a[0] == "errs":
            work += [(y, rep, way) for z in x.a[1:] for _, y in paths(I, z)]
        else:
            out[(x, rep)] = way
    return out, steps


def tolerated(D, call, rep):
    n = call.a[0]
    if n in READER:
        return rep
    if n.startswith("local:"):
        t = D.ty(D.fns[n[6:]]["locals"][0]["t"])
        a = t[2] if t[0] == "adt" and len(t) > 2 else None
        return isinstance(a, tuple) and a[0] == "adt" and a[1].split("::")[-1] == "Association"
    return False


def short(n):
    return n[6:].split("::")[-1] if n.startswith("local:") else n


def place(e, call):
    """the function in which the operation is called"""
    ctx = call.a[1][0] if isinstance(call.a[1], tuple) else call.a[1]
    chain = [c.split("::")[-1] for c in e.chain(ctx)]
    if not isinstance(call.a[1], tuple):
        chain = chain[:-1]
    return chain


def check(W, R):
    D = W.D
    for ty, name, least in (("Database", "open", 60), ("Database", "save", 40), ("KeyFile", "open", 15), ("KeyFile", "save", 5)):
        fn = W.method(ty, name)
        e = W.entry(fn)
        I = e.I
        label = ty + "::" + name
        f = I.assume(e.run.exit.facts, I.disc(e.run.ret, RES), True, [0]) if e.run.exit is not None else None
        if f is None:
            R.bad("no-success", label, "%s can never succeed" % label)
            continue
        bad = set()
        out, steps = causes(I, e.run.exit.mem[("g", "err")], f)
        R.counts["alternatives followed in " + label] = steps
        for (x, rep), way in out.items():
            call = x.a[1] if x.op == "sym" and x.a[0] == "err" else None
            if call is None or call.op != "call":
                R.bad("unknown", label, "%s: cannot tell whether an operation failed before success: %s" % (label, show(x, 2)))
                continue
            p = place(e, call)
            sub = "%s in %s" % (short(call.a[0]), p[-1] if p else "?")
            if tolerated(D, call, rep):
                R.ok("tolerated" if call.a[0] not in READER else "repeated", sub)
                continue
            bad.add(sub)
            R.bad("swallowed", sub, "%s succeeds although %s failed (%s)" % (label, short(call.a[0]), " > ".join(p) or "?"))
        if name == "open":
            v = I.simp(e.run.exit.mem[("g", "doc")], f)
            late = sorted(set("%s" % (place(e, x.a[1])[-1] if x.op == "sym" and x.a[0] == "unread" else "?")
                              for _, x in paths(I, v) if x is not cint(0)))
            R.check(not late, "document read to its end", label,
                    lambda: "%s can succeed before the end of the XML document was read: the last event is read in %s" % (label, ", ".join(late)))
        ops = set()
        for call in I.fallible:
            p = place(e, call)
            ops.add("%s in %s" % (short(call.a[0]), p[-1] if p else "?"))
        for sub in sorted(ops - bad):
            R.ok("reported", label + ": " + sub)
        R.counts["calling contexts of fallible operations in " + label] = len(I.fallible)
        R.floor("fallible operations of " + label, len(ops), least)
