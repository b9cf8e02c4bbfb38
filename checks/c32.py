"""C32: text that XML cannot represent is rejected by save."""
from engine.view import *
from engine.guards import *
from engine.dump import ty_name
from engine.canon import Canon, INTS
from engine.filefmt import saved

EXPLANATION = (
    "Guard analysis of every call that writes to a document (Database::save and KeyFile::save): for each alternative of each text and "
    "attribute value, either every character is known to be allowed in XML (constants, formatted numbers and dates, Base64 and "
    "hexadecimal encodings) or the facts that hold at the call contain the outcome of a search through exactly this text that found no "
    "character for which is_xml10_char fails. The text of a protected StringValue must have passed a UTF-8 check. What a "
    "successful save has written must not depend on the outcome of such a search (rejected means that save fails).")


def legal(s):
    return all(c in "\t\n\r" or 0x20 <= ord(c) <= 0xd7ff or 0xe000 <= ord(c) <= 0xfffd or ord(c) >= 0x10000 for c in s)


def fixed(t):
    """text of which every character is allowed, whatever the data are"""
    if t is BOT or t is LIST0:
        return True
    if t.op == "const":
        return isinstance(t.a[1], str) and legal(t.a[1])
    if isapp(t, "b64", "hex", "hexu"):
        return True
    if isapp(t, "fmt"):
        ty = t.a[2].a[1]
        return ty in INTS or ty in ("bool", "f32", "f64") or ty.startswith("DateTime")
    if isapp(t, "cat"):
        return all(fixed(x) for x in t.a[1:])
    if t.op == "case":
        return all(fixed(v) for _, v in case_alts(t))
    return False


def parts(t):
    """texts that a concatenation or an alternative consists of, without those that are always allowed"""
    if fixed(t):
        return []
    if isapp(t, "cat"):
        return [y for x in t.a[1:] for y in parts(x)]
    return [t]


def char_test(p, item):
    """the predicate is `the character is not allowed`"""
    p = core(p)
    neg = False
    while isapp(p, "not"):
        neg = not neg
        p = p.a[1]
    return neg and isapp(p, "is_xml10_char") and p.a[1] is item



def searches(e):
    """{selector whose value 0 says that no forbidden character was found: the text searched}"""
    out = {}
    for r in e.run.walk():
        for bb, es in r.events.items():
            nx = [x for x in es.values() if x.kind == "next"]
            fs = [x for x in es.values() if x.kind == "filter"]
            for f in fs:
                if not (isapp(f.args[2], "chars") and char_test(f.args[1], f.args[0])):
                    continue
                if len(f.args) > 3 and len(fs) == 1:
                    out[f.args[3]] = f.args[2].a[1]
                elif len(nx) == 1 and len(fs) == 1:
                    it = nx[0].args[0]
                    if it.op == "agg" and it.a[0] == "%it" and it.a[3] is f.args[2] and len(it.a[4].a[3:]) == 1 and nx[0].args[1] is cint(0):
                        out[nx[0].args[2]] = f.args[2].a[1]
        for h, l in r.loops.items():
            B = l.get("B")
            if B is None:
                continue
            for b in l["body"]:
                for x in r.events.get(b, {}).values():
                    if x.kind != "next" or x.args[2].op != "next" or len(x.args[2].a) > 2:
                        continue
                    it = x.args[0]
                    if not (it.op == "agg" and it.a[0] == "%it" and isapp(it.a[3], "chars") and not it.a[4].a[3:]):
                        continue
                    ok_ = any(isapp(t, "is_xml10_char") and p and set(vs) == {1} and t.a[1].op == "elem" and t.a[1].a[0] is it.a[3]
                              for t, (p, vs) in B.facts.items())
                    if ok_:
                        out[x.args[2]] = it.a[3].a[1]
    return out


def check(W, R):
    n = 0
    for what, e in (("Database::save", saved(W)), ("KeyFile::save", W.entry(W.method("KeyFile", "save")))):
        n += one(W, R, what, e)
    R.floor("texts that depend on data", n, 20)


def one(W, R, what, e):
    I = e.I
    C = Canon(I)
    S = searches(e)
    R.count("character searches", len(S))
    secret = protected_fields(W)
    n = utf = 0
    for r, ev in e.events("xml"):
        v = ev.args[1]
        facts = at(e, r, ev)
        for f, v in paths(I, v, facts, C):
            texts = []
            if v.op == "agg" and v.a[0] == "%sb":
                for f2, lst in paths(I, v.a[4], f, C):
                    for a in cat_items(lst):
                        if a is LIST0:
                            continue
                        if not (isapp(a, "one") and a.a[1].op == "agg"):
                            R.bad("attributes", where(ev), "attributes are not known: %s" % show(a, 4))
                            continue
                        texts += [(f2, a.a[1].a[3]), (f2, a.a[1].a[4])]
            elif v.op == "agg" and v.a[0] == "%ee":
                continue
            elif v.op == "agg" and isinstance(v.a[0], str) and v.a[0].startswith("%"):
                texts.append((f, v.a[3]))
            else:
                texts.append((f, v))
            for f, t in texts:
                for f3, t in paths(I, t, f, C):
                    for x in parts(C.canon(I.simp(t, f3))):
                        n += 1
                        done = [s for s, (p, vs) in f3.items() if s in S and p and set(vs) == {0} and same(I, C, S[s], x, f3)]
                        R.check(done, "characters", "%s:%s" % (what, name(x)), lambda: "%s is written at %s without having been searched for characters that XML does not allow" % (show(x, 5)[:200], ev.span))
                    for y in subterms(t):
                        if isapp(y, "salsa") and plain_of(y) & secret:
                            utf += 1
                            data = C.canon(y.a[-1])
                            okk = any(s.op == "disc" and s.a[1].op == "call" and s.a[1].a[0].split("::")[-1] == "from_utf8" and p and set(vs) == {0} and
                                      C.equal(C.canon(I.simp(s.a[1].a[-1], f3)), C.canon(I.simp(data, f3))) for s, (p, vs) in f3.items())
                            R.check(okk, "utf8", "%s:%s" % (what, name(data)), lambda: "the protected text %s is written at %s without having been checked to be UTF-8" % (show(data, 5)[:200], ev.span))
    if what.startswith("Database"):
        R.floor("protected texts", utf, 1)
        out = e.out
        bad = {x.a[0] for x in subterms(out) if x.op == "case" and x.a[0] in S}
        R.check(not bad, "rejected", what, lambda: "what is written by a successful save depends on whether %s has forbidden characters" % ", ".join(show(S[b], 4)[:100] for b in bad))
    return n


def same(I, C, a, b, f):
    return a is b or C.equal(C.canon(I.simp(a, f)), b) or C.equal(C.canon(I.simp(C.canon(a), f)), C.canon(I.simp(b, f)))


def where(ev):
    return (ev.span or "?").split(":")[0]


def name(t):
    """field a text comes from"""
    p = []
    for x in subterms(t):
        q = path_of(x)
        if q and len(q) > len(p):
            p = q
    fs = []
    x = t
    while x.op in ("fld", "elem", "app", "agg") and x.a:
        if x.op == "fld":
            fs.append(str(x.a[1]))
            x = x.a[2]
        elif x.op == "elem":
            fs.append("*")
            x = x.a[0]
        else:
            y = [z for z in x.a if isinstance(z, T)]
            if not y:
                break
            x = y[-1]
    return ".".join(reversed(fs)) or show(t, 3)[:60]


def protected_fields(W):
    """names of the fields that hold StringValues"""
    out = set()
    sv = W.adt("StringValue")

    def mentions(t):
        if isinstance(t, tuple):
            return any(mentions(x) for x in t)
        return t == sv
    for p, a in W.D.adts.items():
        if not a["local"]:
            continue
        for v in a["v"]:
            for fl in v["f"]:
                if mentions(W.D.ty(fl["t"])):
                    out.add(fl["n"])
    return out


def plain_of(y):
    """fields that the plaintext of an encryption is taken from"""
    return {x.a[1] for x in subterms(y.a[-1]) if x.op == "fld"}
