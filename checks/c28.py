"""C28: lengths and numbers are never silently truncated."""
from engine.canon import isapp
from engine.filefmt import saved
from engine.graph import Graph
from engine.guards import at
from engine.panics import Judge, consts, in_blocks, name_of
from engine.ranges import Ranges, WIDTH
from engine.terms import *
from engine.view import paths, path_of

EXPLANATION = ("(a) Every numeric conversion with `as` in code that a public function reaches must keep the value: the interval of the operand, from its "
               "type, the facts of its context and the loops it depends on, lies within the target type. (b) The same holds for every addition, "
               "subtraction and multiplication, and for operations that wrap, saturate or drop bits by request. (c) Every fixed-width number in the "
               "symbolic output of save is a constant, a setting of that very width, or a checked conversion of the length of a whole value; no "
               "alternative replaces a length that does not fit.")

OPS = ("wrapping_", "saturating_", "overflowing_", "unchecked_")


def sites(D):
    """[(function, block, kind)] of conversions and arithmetic"""
    out = []
    for p, f in D.fns.items():
        if f.get("derived") or f["kind"] == "Const":
            continue
        for i, b in enumerate(f["blocks"]):
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and s[2][1].startswith(("IntTo", "FloatTo")):
                    out.append((p, i, "cast"))
                elif s[0] == "=" and s[2][0] == "bin" and str(s[2][1]) in ("Add", "Sub", "Mul", "Shl"):
                    out.append((p, i, "arith"))
            t = b["t"]
            if t["k"] == "assert" and str(t.get("m")).startswith("overflow"):
                out.append((p, i, "overflow"))
            if t["k"] == "call":
                for fn in consts({"f": t["f"]}):
                    if "closure" not in fn and not fn["local"] and fn["name"].startswith(OPS):
                        out.append((p, i, "call"))
    return out


def check(W, R):
    numbers(W, R)
    written(W, R)


def numbers(W, R):
    D = W.D
    G = Graph(D)
    ss = sites(D)
    fns = {s[0] for s in ss}
    roots = [p for p in G.public() if G.reach([p]) & fns]
    reach = {w: G.reach([w]) for w in roots}
    judged = 0
    for fn, bb, kind in sorted(set(ss)):
        evs = []
        for w in roots:
            if fn not in reach[w]:
                continue
            e = W.entry(w)
            for r in e.run.walk():
                if r.fn == fn:
                    evs += [(e, r, ev) for ev in r.events.get(bb, {}).values()]
        bad = None
        for e, r, ev in evs:
            if kind == "cast" and ev.kind == "cast":
                judged += 1
                bad = bad or cast(e, r, ev)
            elif kind == "arith" and ev.kind == "arith":
                judged += 1
                bad = bad or arith(e, r, ev)
            elif kind == "overflow" and ev.kind == "assert":
                judged += 1
                bad = bad or Judge(e).judge(r, ev)
            elif kind == "call" and ev.kind == "call" and ev.name.split("::")[-1].startswith(OPS):
                judged += 1
                bad = bad or wraps(e, r, ev)
        R.check(bad is None, kind, G.owner(fn), lambda: "%s" % bad)
    R.counts["conversions and operations"] = len(set(ss))
    R.counts["occurrences judged"] = judged
    R.floor("occurrences judged", judged, 8)


def cast(e, r, ev):
    x = ev.args[0]
    ft, tt = ev.raw
    if not ev.name.startswith("IntToInt"):
        return "%s converts %s to %s" % (ev.span, ft, tt)
    s, t = WIDTH.get(ft), WIDTH.get(tt)
    if t is None:
        return None
    if s and t[0] <= s[0] and s[1] <= t[1]:
        return None
    lo, hi = Ranges(e.I, at(e, r, ev), getattr(e, "C", None)).of(x)
    if s:
        lo, hi = max(lo, s[0]), min(hi, s[1])
    if t[0] <= lo and hi <= t[1]:
        return None
    return "%s as %s of %s may lose a part of it (%s)" % (ft, tt, show(x, 5)[:160], ev.span)


def arith(e, r, ev):
    return "%s of %s is not checked for overflow (%s)" % (ev.name, ", ".join(show(x, 4)[:80] for x in ev.args), ev.span)


def wraps(e, r, ev):
    n = ev.name.split("::")[-1]
    op = n.split("_")[1]
    J = Judge(e)
    f = at(e, r, ev)
    ty = deref(ev)
    if ty is None or op not in ("add", "sub", "mul", "div", "rem"):
        return "%s may drop a part of its result (%s)" % (ev.name, ev.span)
    lo, hi = Ranges(e.I, f, getattr(e, "C", None)).of(app(op, *[e.I.simp(x, f) for x in ev.args[:2]]))
    if WIDTH[ty][0] <= lo and hi <= WIDTH[ty][1]:
        return None
    return "%s of %s may drop a part of its result (%s)" % (ev.name, ", ".join(show(x, 4)[:80] for x in ev.args), ev.span)


def deref(ev):
    from engine.dump import deref_ty, ty_name
    for t in ev.ty or ():
        n = ty_name(deref_ty(t))
        if n in WIDTH:
            return n
    return None


# ---------------------------------------------------------------- numbers in the file
def written(W, R):
    e = saved(W)
    n = 0
    seen = {}
    for t in subterms(e.out):
        if not isapp(t, "enc"):
            continue
        n += 1
        w = t.a[2].a[1]
        for f, v in paths(e.I, t.a[3], e.okfacts):
            why = faithful(e, f, v, w)
            R.check(why is None, "written", "%s %s" % (w, shape(v)), lambda: "%s-bit field of the file holds %s: %s" % (w[1:], show(v, 5)[:160], why))
    R.floor("fixed-width numbers in the file", n, 15)


def shape(v):
    if v.op == "const":
        return "constant"
    p = path_of(v)
    if p:
        return ".".join(p)
    while isapp(v, "cast"):
        v = v.a[3]
    if isapp(v, "exact", "len"):
        p = path_of(v.a[-1])
        return "length of %s" % shape(v.a[-1]) if isapp(v, "exact") else "length of %s" % (".".join(p) if p else "data")
    return v.a[0] if v.op == "app" else v.op


def faithful(e, f, v, w):
    R = Ranges(e.I, f, e.C)
    plain = v
    while isapp(plain, "cast"):     # judged where it is done
        plain = plain.a[3]
    if plain is not v and (isapp(plain, "len") or path_of(plain)):
        return whole(e, f, plain) if isapp(plain, "len") else None
    lo, hi = R.of(v)
    if v.op == "const":
        odd = [t for t, pv in f.items() if t not in e.okfacts and dodgy(t)]
        if odd:
            return "a constant stands for a number under the condition %s" % show(odd[0], 4)[:120]
        return None if WIDTH[w][0] <= lo and hi <= WIDTH[w][1] else "the constant does not fit"
    if path_of(v):
        ty = R.type_of(v)
        if ty[0] == "prim" and ty[1] == w:
            return None
        return None if WIDTH[w][0] <= lo and hi <= WIDTH[w][1] else "the setting is wider than the field"
    if isapp(v, "exact"):
        if not (v.a[1] is cstr(w) or v.a[1] == w or fits(R, v, w)):
            return "it is converted to another width"
        for g, x in paths(e.I, v.a[2], f):
            why = whole(e, g, x) if isapp(x, "len") else None if path_of(x) or x.op == "const" else "it is not the length of a value"
            if why:
                return why
        return None
    if isapp(v, "len"):
        if WIDTH[w][1] < 2 ** 64 - 1 and not fits(R, v, w):
            return "a length is written without a check that it fits"
        return whole(e, f, v)
    if fits(R, v, w) and isapp(v, "disc"):
        return None
    return "it is neither a setting, nor a constant, nor the checked length of a value"


def fits(R, v, w):
    lo, hi = R.of(v)
    return WIDTH[w][0] <= lo and hi <= WIDTH[w][1]


def whole(e, f, v):
    """length of a whole value, not of a part of it"""
    for _, x in paths(e.I, v.a[1], f):
        if isapp(x, "take", "slice", "slice_from", "part", "truncate", "skip"):
            return "only a part of the value is counted: %s" % show(x, 4)[:120]
    return None


def dodgy(t):
    """a condition on the size of something or on the outcome of a conversion"""
    if t.op in ("M", "imp"):
        return False
    return any(isapp(x, "lt", "fits", "exact") or x.op == "call" and "try_from" in str(x.a[0]) for x in subterms(t))
