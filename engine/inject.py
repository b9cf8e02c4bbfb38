"""Composition of save and open on a file in which one part has been replaced by an arbitrary value."""
from .terms import *
from .compose import compose_db, Mismatch
from .filefmt import parse
from .canon import isapp, cat_items
from .view import paths

FORGED = mk("sym", "forged")


def opened(W, replace):
    """alternatives [(facts, Ok value or None, error or None)] of open on the file altered by replace(R, F)"""
    R = compose_db(W, lambda R: replace(R, parse(R.out)))
    out = []
    for f, t in paths(R.I, R.rrun.ret, C=R.C):
        if t.op == "agg" and t.a[0] == RES and t.a[1] == 1:
            out.append((f, None, t.a[3]))
        else:
            out.append((f, t, None))
    return R, out


def forged_is(R, facts, want, forged=FORGED):
    """the facts say that the forged value is the genuine one"""
    for t, (pos, vals) in facts.items():
        if isapp(t, "eq") and pos and set(vals) == {1}:
            a, b = strip(t.a[1]), strip(t.a[2])
            for x, y in ((a, b), (b, a)):
                if is_forged(R, x, facts, forged) and (y is want or same(R, y, want, facts)):
                    return True
        elif t is forged and pos and len(vals) == 1 and plain_value(want) is not None and next(iter(vals)) == plain_value(want):
            return True
    return False


def same(R, y, want, facts):
    return R.C.equal(R.C.canon(R.I.simp(y, facts)), want) or R.C.equal(R.C.canon(R.I.simp(R.C.canon(y), facts)), R.C.canon(R.I.simp(want, facts)))


def is_forged(R, x, facts, forged=FORGED):
    """x is the forged value; or the empty value, if that is what was forged (the genuine value is not empty)"""
    leaves = [strip(v) for f, v in paths(R.I, x, facts, C=R.C)]
    return forged in leaves and all(v is forged or blank_value(v) for v in leaves)


def plain_value(t):
    if t.op == "const":
        return t.a[1]
    if t.op == "agg" and t.a[0] == "array" and all(x.op == "const" for x in t.a[3:]):
        return tuple(x.a[1] for x in t.a[3:])
    return None


def blank_value(v):
    return (v.op == "const" and v.a[1] in ("", b"", ())) or ((isapp(v, "cat") or isapp(v, "list")) and len(v.a) == 1) or (v.op == "agg" and v.a[0] == "array" and len(v.a) == 2)


def strip(t):
    """newtype wrappers removed"""
    while t.op == "agg" and len(t.a) == 4 and t.a[0] not in ("array", "tuple"):
        t = t.a[3]
    return t


FORGED32 = app("rand", FORGED, cint(32))


def payload_items(F):
    """(encryption term, items of the plaintext) of a parsed file"""
    p = F.payload
    if len(p) != 1 or not isapp(p[0], "cbcenc"):
        raise Mismatch("the payload is not one encryption")
    return p[0], list(cat_items(p[0].a[-1]))


def repack(F, items):
    """the file with another plaintext"""
    p = F.payload[0]
    return cat(*F.header_items, mk("app", *p.a[:-1], cat(*items)))


def survives(R, alts_, want, forged=FORGED):
    """alternatives that return a database although the forged value is not known to be the genuine one"""
    return [f for f, v, err in alts_ if err is None and not forged_is(R, f, want, forged)]
