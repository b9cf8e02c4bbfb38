"""C17: partial reads and writes are handled."""
from engine.view import *
from engine.interp import NOFACTS

EXPLANATION = (
    "Two parts. (1) Every implementation of Read or Write in the crate is analysed on its own: each successful call must make exactly one transfer with "
    "the whole buffer, report the count of that transfer, leave the rest of the buffer alone, and - if it logs - append exactly the transferred bytes "
    "to the log while logging and nothing otherwise. Complete transfers through such an implementation therefore log exactly what was transferred. "
    "(2) In opening and saving databases and key files, every call of a function that may transfer fewer bytes than requested (read, write) is an "
    "obligation: outside of these implementations it must stand in a loop that goes on until the input ends or everything is written.")

READ1 = {"read"}
WRITE1 = {"write"}
HARMLESS = {"flush", "by_ref", "size_hint", "is_read_vectored", "is_write_vectored"}


def impls(D):
    for tr in D.by_trait:
        last = tr.split("::")[-1]
        if last in ("Read", "Write") and "fmt" not in tr:
            for im in D.by_trait[tr]:
                t = D.ty(im["self"])
                if t[0] == "adt" and D.is_local_adt(t[1]):
                    yield last, t, im["items"]


def log_fields(W, t):
    """(field of the log, flag that is true while logging) of a type that implements the crate's Log"""
    D = W.D
    for tr in D.by_trait:
        if tr.split("::")[-1] != "Log":
            continue
        for im in D.by_trait[tr]:
            if D.ty(im["self"])[1] != t[1]:
                continue
            it = im["items"]
            log = path_of(W.entry(it["logged"]).run.ret) if "logged" in it else None
            e = W.entry(it["logged"]) if "logged" in it else None
            if e is not None and log is None and e.run.ret.op == "ref":
                r = e.run.ret
                log = ("self",) + tuple(p[2] for p in r.a[1] if p[0] == "f") if r.a[0] == ("p", "self") else None
            flag = None
            if "stop" in it and "start" in it:
                ex = [W.entry(it[k]).run.exit.mem.get(("p", "self")) for k in ("stop", "start")]
                u = [updates(x, mk("sym", "self")) if x is not None else None for x in ex]
                if u[0] and u[1] and len(u[0]) == 1 and u[0].keys() == u[1].keys():
                    k = list(u[0])[0]
                    if u[0][k] is FALSE and u[1][k] is TRUE:
                        flag = k
            return True, (log[-1] if log and len(log) == 2 else None), flag
    return False, None, None


def wrapper(W, R, what, t, fn):
    """one call transfers once, reports it honestly and logs it exactly"""
    D = W.D
    name = "%s::%s" % (t[1].split("::")[-1], what)
    e = W.entry(fn)
    I = e.I
    bufp = D.fns[fn]["locals"][2].get("n", "buf")
    self_, buf = mk("sym", "self"), mk("sym", bufp)
    logs, logf, flag = log_fields(W, t)
    if logs and not R.check(logf and flag, "log", name, "cannot tell which fields hold the log and whether it is active"):
        return
    xs = e.events("xfer")
    R.check(len(xs) == 1 and xs[0][1].name == what, "one transfer", name, "%d transfers in one call" % len(xs))
    others = [(r, ev) for r, ev in e.events() if ev.kind in ("write", "read")]
    R.check(not others, "no other transfer", name, lambda: "also transfers through %s" % others[0][1].name)
    if len(xs) != 1:
        return
    part, call = xs[0][1].args[0], xs[0][1].args[1]
    n = mk("fld", "Ok", "0", call)
    inner = None
    if what == "write":
        R.check(part is app("take", buf, n), "whole buffer", name, lambda: "writes %s" % show(part, 4))
    else:
        after = e.run.exit.mem.get(("p", bufp))
        R.check(after is not None and all(isapp(x, "part") and x.a[1] is buf and x.a[3] is call or x is buf for x in leaves(after)),
                "whole buffer", name, lambda: "the buffer becomes %s" % (show(after, 5)))
    okn = 0
    for f, r in paths(I, e.run.ret):
        s0 = e.run.exit.mem.get(("p", "self"), self_)
        for f2, s in paths(I, I.simp(s0, f), f):
            for g, v in variants(I, r, f2):
                if v == 0:
                    okn += 1
                    cnt = I.simp(proj(r, ("f", "Ok", "0", 0)), g)
                    done = I.assume(g, mk("disc", RES, call), True, [1]) is None and mk("disc", RES, call) in g
                    if not R.check(cnt is n and done, "count", name, lambda: "reports %s" % show(cnt, 4)):
                        continue
                u = updates(s, self_)
                if not R.check(u is not None, "state", name, lambda: "becomes %s" % show(s, 5)):
                    continue
                if logs:
                    new = u.get(logf)
                    old = field(self_, logf)
                    on = I.assume(g, field(self_, flag), True, [1])
                    off = I.assume(g, field(self_, flag), True, [0])
                    exact = new is not None and new is cat(old, part)
                    none = new is None or new is old
                    moved = v == 0
                    R.check((not moved and none) or (moved and (on is None or exact or empty(I, on, n) and none) and (off is None or none)),
                            "log", "%s %s" % (name, "Ok" if v == 0 else "Err"),
                            lambda: "the log becomes %s" % (show(new, 5) if new is not None else "unchanged"))
                    u = {k: x for k, x in u.items() if k != logf}
                    R.check(flag not in u, "flag", name, "changes whether it logs")
    R.floor("successful outcomes of " + name, okn, 1)


def empty(I, f, n):
    """the facts say that nothing was transferred"""
    return n in f and f[n] == (True, frozenset([0]))


def variants(I, r, f):
    if r.op == "agg":
        yield f, r.a[1]
        return
    for k in (0, 1):
        g = I.assume(f, I.disc(r, RES), True, [k])
        if g is not None:
            yield g, k


def loops_on(e, r, ev):
    """a call of read whose result is taken up to the count, in a loop that ends only when nothing was read"""
    I = e.I
    call = ev.args[1]
    n = mk("fld", "Ok", "0", call)
    hs = [h for h, L in r.loops.items() if ev.bb in L["body"]]
    if not hs:
        return False
    h = min(hs, key=lambda x: len(r.loops[x]["body"]))
    if ev.name == "write":
        return False
    bad = 0
    found = 0
    for f in r.loops[h].get("X", ()):
        if I.assume(f, mk("disc", RES, call), True, [0]) is None:
            continue
        found += 1
        if not empty(I, f, n):
            bad += 1
    return found > 0 and not bad


def check(W, R):
    D = W.D
    own = set()
    nimp = 0
    for kind, t, items in impls(D):
        nimp += 1
        what = kind.lower()
        for m in items:
            full = items[m]
            if m == what:
                own.add(full)
                wrapper(W, R, what, t, full)
            else:
                R.check(m in HARMLESS, "method", "%s::%s" % (t[1].split("::")[-1], m),
                        "%s replaces %s of %s; only read and write are followed" % (t[1], m, kind))
    R.floor("implementations of Read and Write", nimp, 0)
    for ty, name in (("Database", "open"), ("Database", "save"), ("KeyFile", "open"), ("KeyFile", "save")):
        e = W.entry(W.method(ty, name))
        label = ty + "::" + name
        full = e.events("write") + e.events("read")
        R.floor("transfers in " + label, len(full) + len(e.events("partial")), 1)
        for r, ev in full:
            R.ok("complete", "%s: %s in %s" % (label, ev.name, r.fn.split("::")[-1]))
        for r, ev in e.events("partial"):
            fn = r.fn
            x = r
            sub = "%s in %s" % (ev.name, fn.split("::")[-1])
            if fn in own:
                R.ok("inside an implementation", label + ": " + fn)
                continue
            R.check(loops_on(e, r, ev), "partial", sub,
                    lambda: "%s: %s may transfer only a part and is not repeated (%s)" % (label, ev.name, e.where(r, ev)))
