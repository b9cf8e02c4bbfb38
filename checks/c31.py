"""C31: saved documents are well-formed."""
from engine.view import *
from engine.compose import Doc, Mismatch, writer_config
from engine.canon import cat_items
from engine.canon import Canon
from engine.dump import ty_name
from engine.filefmt import saved

EXPLANATION = (
    "Abstract interpretation of both writers: the output of Database::save and KeyFile::save is computed as a term; every document in it "
    "is flattened to its sequence of start tags, texts and end tags with conditions and repetitions kept as such. Obligations: exactly one "
    "root element, every alternative and every loop body balanced, no text outside the root, constant element names, attribute "
    "names that are constant and distinct, no element with both text and child elements, the settings of the XML writer do not switch "
    "off escaping. For every function that the recursion over groups enters again, the stack of open elements at each successful "
    "return is the stack at its entry.")

NAME = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")


def documents(t, out):
    """maximal sequences that contain document events"""
    if xmlish(t):
        if not any(t is d for d in out):
            out.append(t)
        return
    if t.op == "cat" or isapp(t, "cat"):
        items = list(t.a[1:])
        if any(xmlish(x) for x in items):
            keep = [x for x in items if xmlish(x)]
            out.append(t if len(keep) == len(items) else cat(*keep))
            items = [x for x in items if not xmlish(x)]
        for x in items:
            documents(x, out)
        return
    for y in t.a:
        if isinstance(y, T):
            documents(y, out)


_memo = {}


def xmlish(t):
    """part of a document"""
    if t in _memo:
        return _memo[t]
    r = isapp(t, "xmlout", "xmlrec") or (isapp(t, "star") and any(xmlish(x) for x in cat_items(t.a[2]))) or \
        (t.op == "case" and any(any(xmlish(x) for x in cat_items(v)) for _, v in case_alts(t)) and all(all(xmlish(x) for x in cat_items(v)) for _, v in case_alts(t)))
    _memo[t] = r
    return r


def goodname(t):
    return t.op == "const" and isinstance(t.a[1], str) and t.a[1] and t.a[1][0] in NAME and all(c in NAME or c.isdigit() or c in "-." for c in t.a[1])


def check(W, R):
    _memo.clear()
    total = 0
    for what, e, out in outputs(W, R):
        docs = []
        documents(out, docs)
        R.check(docs, "documents", what, "no document is found in what is written")
        for t in docs:
            total += 1
            document(R, e, what, t)
        nesting(R, e, what)
    R.floor("documents", total, 2)


def outputs(W, R):
    s = saved(W)
    yield "Database::save", s, s.out
    e = W.entry(W.method("KeyFile", "save"))
    I = e.I
    C = Canon(I)
    e.C = C
    n = 0
    for f, t in paths(I, e.run.ret, e.run.exit.facts, C):
        if t.op == "agg" and t.a[0] == RES and t.a[1] == 1:
            continue
        o = C.canon(I.simp(e.run.exit.mem[("p", "writer")], f))
        if any(isapp(x, "xmlout") for x in subterms(o)):
            n += 1
            yield "KeyFile::save" + (" (%d)" % n if n > 1 else ""), e, o
    R.floor("key file documents", n, 1)


class Wr:
    pass


def document(R, e, what, t):
    m = Wr()
    m.wrun = e.run
    try:
        writer_config(m)
        R.ok("settings", what)
    except Mismatch as x:
        R.bad("settings", what, str(x))
    C = e.C
    try:
        d = Doc(C, t, False)
        problems = list(d.problems)
    except Mismatch as x:
        R.bad("structure", what, str(x))
        return
    for kind, p, msg in problems:
        R.bad("structure", "%s:%s/%s" % (what, kind, p), msg)
    if not problems:
        R.ok("structure", what)
    toks = d.toks
    roots = [x for x in toks if x.kind == "START" and "/" not in x.path.strip("/")]
    R.check(len(roots) == 1 and not optional(toks, roots[0]), "root", what,
            lambda: "the document has %d root elements%s" % (len(roots), ", under a condition" if len(roots) == 1 else ""))
    stack = []
    n = 0
    for x in toks:
        if x.kind == "START":
            n += 1
            name, attrs = x.a
            R.check(goodname(name), "element", x.path, lambda: "the element name %s is not a fixed name" % show(name, 4))
            if stack:
                stack[-1][1].append(x)
            stack.append((x, [], []))
            attributes(R, C, x, attrs)
        elif x.kind == "REC" and stack:
            stack[-1][1].append(x)
        elif x.kind == "TEXT" and stack:
            stack[-1][2].append(x)
        elif x.kind == "END":
            s, kids, texts = stack.pop()
            R.check(not (texts and any(together(toks, k, y) for k in kids for y in texts)), "content", s.path,
                    lambda: "the element contains both text (%s) and elements (%s)" % (show(texts[0].a[0], 3)[:100], kids[0].path))
    R.count("elements", n)
    R.floor("elements in " + what.split(" ")[0], n, 4)


def spans(toks):
    """(selector position, key index, first, last) of the conditional parts"""
    out = []
    for x in toks:
        if x.kind == "ALT":
            keys = sorted(x.coll.values()) + [x.end]
            for a, b in zip(keys, keys[1:]):
                out.append((x.i, a, b))
    return out


def together(toks, x, y):
    """the two tokens are not in different alternatives of one condition"""
    for i, a, b in spans(toks):
        if a <= x.i < b and not (a <= y.i < b) and i < y.i < toks[i].end:
            return False
    return True


def optional(toks, x):
    return any(a <= x.i < b for _, a, b in spans(toks)) or any(t.kind == "STAR" and t.i < x.i < t.end for t in toks)


def attributes(R, C, x, attrs):
    for alt in ([v for _, v in case_alts(attrs)] if attrs.op == "case" else [attrs]):
        names = []
        for a in cat_items(alt):
            v = a.a[1] if isapp(a, "one") else None
            if a is LIST0:
                continue
            if v is None or v.op != "agg" or v.a[0] != "tuple":
                R.bad("attribute", x.path, "attributes of the element are not known: %s" % show(a, 4))
                continue
            nm = v.a[3]
            R.check(goodname(nm), "attribute", "%s@%s" % (x.path, show(nm, 2)[:40]), lambda: "attribute name %s is not a fixed name" % show(nm, 4))
            names.append(nm)
        R.check(len(names) == len(set(names)), "attribute", x.path, lambda: "an attribute is written twice: %s" % [show(n, 2) for n in names])


def nesting(R, e, what):
    """a recursive call leaves the stack of open elements as it was"""
    I = e.I
    rec = {ev.name for r, ev in e.events("rec")}
    n = 0
    for r in e.run.walk():
        if r.fn not in rec or r.exit is None:
            continue
        for root, v0 in r.entry.items():
            if not (v0.op == "agg" and v0.a[0] == "%xmlwriter") or root not in r.exit.mem:
                continue
            n += 1
            want = field(v0, "stack")
            ret = r.ret
            f0 = r.exit.facts
            if ty_name(e.W.D.ty(e.W.D.fns[r.fn]["locals"][0]["t"])) == RES:
                f0 = I.assume(f0, I.disc(ret, RES), True, [0])
                if f0 is None:
                    continue
            got = [g for f, g in paths(I, I.simp(field(r.exit.mem[root], "stack"), f0), f0, e.C)]
            bad = [g for g in got if g is not want]
            R.check(not bad, "nesting", r.fn.split("::")[-1], lambda: "on return the open elements are %s instead of %s" % (show(bad[0], 4)[:200], show(want, 3)))
    if what.startswith("Database"):
        R.floor("recursive functions", n, 1)
