"""save followed by open: every field of the database that open returns, compared with the one that was saved."""
from .terms import *
from .interp import Facts, AnalysisError
from .compose import compose_db, Mismatch
from .compare import Compare
from .view import paths

HEADER = {"comment", "compression", "master_cipher", "stream_cipher", "db_type", "version", "transform_rounds"}
SCALAR = {"types::icon::Icon", "types::obfuscation::Obfuscation", "types::color::Color", "types::string_key::StringKey",
          "uuid::Uuid", "chrono::datetime::DateTime"}


class RoundTrip:
    pass


def start_facts(I, run):
    f = I.assume(run.exit.facts, I.disc(run.ret, RES), True, [0])
    return Facts({t: v for t, v in f.items() if t.op not in ("M", "imp") and not any(x.op in ("call", "mu") for x in subterms(t))})


def roundtrip(W):
    if hasattr(W, "_rt"):
        return W._rt
    X = W._rt = compared(W)
    return X


def compared(W, **k):
    """open of what save wrote (with further attributes in the document), compared with what was saved"""
    X = RoundTrip()
    X.mismatch, X.diffs, X.checked, X.errs, X.leaves = None, [], [], [], 0
    try:
        R = X.R = compose_db(W, **k)
    except Mismatch as e:
        X.mismatch = str(e)
        return X
    I = R.I
    f = start_facts(I, R.wrun)
    C = Compare(R, f)
    n = 0
    for facts, leaf in paths(I, R.rrun.ret, f, R.C):
        if leaf.op == "agg" and leaf.a[0] == RES and leaf.a[1] == 0:
            C.facts0 = facts
            C.run(leaf.a[3], mk("sym", "self"), ("Database",), ("adt", W.adt("Database")))
            n += 1
        elif leaf.op == "agg" and leaf.a[0] == RES:
            X.errs.append((facts, leaf))
        else:
            X.mismatch = "open returns %s" % show(leaf, 4)[:300]
    if not n:
        X.mismatch = X.mismatch or "open never returns a database for a saved file"
    X.diffs, X.checked, X.leaves, X.C = C.diffs, C.checked, C.leaves, C
    return X


def exempt(p):
    """differences that are part of the design"""
    return p == ("Database", "generator") or p[-1] == "parent" or p[-3:] == ("history", "item", "history")


def kinds(d):
    """properties that a difference breaks"""
    p = d.path
    if exempt(p):
        return set()
    out = set()
    if len(p) < 2:
        return {"C01", "C02", "C03", "C07", "C08"}
    if p[1] in HEADER:
        out.add("C07")
    elif p[1] == "composite_key":
        out.add("C08")
    elif p[1] != "root_group":
        out.add("C01")
    elif "entries" in p:
        out.add("C03")
    else:
        out.add("C02")
    if p[1] not in HEADER and scalar(d.tys):
        out.add("C04")
    if textual(d) and not filled(d.facts) and p[1] not in HEADER and p[1] != "composite_key" and not d.cond:
        out.add("C05")
    return out


def textual(d):
    """the value is, or contains, text or bytes of the user: what is stored as the text of an element or attribute"""
    if blank(d.facts):
        return True
    for t in reversed(d.tys):
        if t is None:
            continue
        if t[0] == "prim":
            return t[1] in ("str", "u8")
        if t[0] == "adt" and (t[1] in SCALAR - {"types::string_key::StringKey"} or t[1].endswith("Uuid")):
            return False
        if t[0] == "adt" and t[1] != "core::option::Option":
            return True
        if t[0] == "adt" and len(t) > 2 and t[2] and t[2][0] == "prim":
            return False
    return True


def filled(facts):
    """the difference shows only where the text is neither empty nor whitespace"""
    on = False
    for t, (pos, vals) in facts.items():
        if t.op == "disc" and t.a[0] in ("%Text", "%TextB") and pos:
            if set(vals) - {0}:
                return False
            on = True
    return on


def scalar(tys):
    """the value is (part of) one that is stored as one text with an encoding of its own"""
    for t in tys:
        while t is not None and t[0] == "adt" and t[1] == "core::option::Option" and len(t) > 2:
            t = t[2][0] if isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple) else t[2]
        if t is None:
            continue
        if t[0] == "prim" and t[1] not in ("str",):
            return True
        if t[0] == "adt" and (t[1] in SCALAR or t[1].endswith("Uuid")):
            return True
        if t[0] == "adt" and t[1] in ("alloc::vec::Vec", "secstr::SecVec") and len(t) > 2 and t[2] == ("prim", "u8"):
            return True
    return False


def blank(facts):
    """the alternative is one in which some text is empty or consists of whitespace only"""
    for t, (pos, vals) in facts.items():
        if t.op == "disc" and t.a[0] in ("%Text", "%TextB") and pos and not (set(vals) & {0}):
            return True
    return False


def subject(d):
    s = d.name() + " " + d.why.split(": ")[0][:80]
    return s + ("" if not d.cond else " if text is " + "/".join(d.cond))


def report(W, R, pid, mine, floor):
    """obligations of property pid: mine(path, types) selects its fields"""
    X = roundtrip(W)
    if X.mismatch:
        R.bad("round-trip", "Database::open", "open cannot be followed on a saved file: " + X.mismatch)
        return X
    for f, e in X.errs:
        if pid != "C05" or not filled(f):
            R.bad("round-trip", "Database::open fails", "open of a saved file can fail: %s; when %s" % (show(e, 4)[:200], why(X, f)))
    bad = set()
    for d in X.diffs:
        if pid in kinds(d):
            bad.add(d.path)
            R.bad("field", subject(d), "%s is saved as %s but opened as %s: %s" % (d.name(), show(d.want, 5)[:200], show(d.got, 5)[:300], d.why[:300]))
    seen = set()
    for p, t in X.checked:
        if p not in seen and mine(p, t):
            seen.add(p)
            if p not in bad:
                R.ok("field", ".".join(p))
    R.counts["fields compared"] = len(seen)
    R.floor("fields compared", len(seen), floor)
    R.counts["writer functions analysed"] = len({r.fn for r in X.R.wrun.walk()})
    R.counts["reader functions analysed"] = len({r.fn for r in X.R.rrun.walk()})
    R.counts["values compared (with case distinctions)"] = X.leaves
    return X


def why(X, f):
    out = []
    for t, (pos, vals) in f.items():
        if X.C.facts0.get(t) == (pos, vals) or t.op in ("M", "imp"):
            continue
        out.append("%s %s %s" % (show(t, 4)[:80], "in" if pos else "not in", sorted(map(str, vals))[:4]))
    return "; ".join(out[-6:])
