"""C06: protected values are only stored encrypted, and come back protected."""
from engine.compose import *
from engine.view import paths, deep
from engine.interp import NOFACTS
from engine.guards import *
from engine.roundtrip import roundtrip, compared, exempt, subject

EXPLANATION = (
    "(1) Writer: the document that save produces, as a term over the database, is walked token by token: the plain bytes of a protected "
    "value (unsec) occur only as the argument of the inner stream cipher, the argument is always a whole protected value, the text of an "
    "element is such a cipher text exactly when its start tag says Protected=True, and the cipher position (a loop-carried value of the "
    "writer) at each encrypted text is the position after the previous one in document order, through repetitions, alternatives and the "
    "recursion over groups. (2) Reader on exactly this document: each cipher text is decrypted once, at its own place, with the same key "
    "and nonce, by one cipher whose position is threaded through all repetitions. (3) Reader on arbitrary documents: every use of the "
    "cipher happens under the fact that the element has the attribute Protected with value true; every Base64 text of an element Value or "
    "Binary is decoded by code that looks at this attribute; results of the cipher reach strings and entry binaries only as protected "
    "values; the recursion passes the same cipher. (4) Composition as in C03 with a "
    "further attribute, ProtectInMemory, on each protected element, before or after Protected: what is opened must not change.")

NONCE = (232, 48, 9, 75, 151, 32, 93, 42)


def where(tok):
    return tok.path


def salsas(t):
    return {y for y in subterms(t) if isapp(y, "salsa")}


def unsecs(t, inside=False, out=None, seen=None):
    """unsec terms outside of cipher texts"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if isapp(t, "salsa"):
        return out
    if isapp(t, "unsec"):
        out.add(t)
    if isapp(t, "len"):
        return out
    for x in (t.a[2:] if t.op == "case" else t.a):
        if isinstance(x, T):
            unsecs(x, inside, out, seen)
    return out


def protected_value(t):
    """t is the whole content of a protected value"""
    return isapp(t, "unsec") and t.a[1].op == "fld" and t.a[1].a[1] == "0" and t.a[1].a[2].op == "fld" and t.a[1].a[2].a[1] == "Protected" or \
        isapp(t, "unsec") and any(y == "Protected" for y in t.a[1].a)


def check(W, R):
    Rc = compose_db(W)
    docs = [d for d in Rc.m.docs.values()]
    R.check(len(docs) == 1, "document", "save", "save does not produce exactly one document")
    for d in docs:
        for k, p, msg in d.problems:
            R.bad("document", p, msg)
        marks(R, Rc, d)
        writer_order(R, Rc, d)
        reader_order(R, Rc, d)
    outside(R, Rc, docs)
    generic(W, R)
    more(W, R)


def more(W, R):
    """values marked protected are decrypted whatever other attributes their element has"""
    X = roundtrip(W)
    old = {subject(d) for d in X.diffs}
    for name, pick in (("before", lambda a, x: [x] + a), ("after", lambda a, x: a + [x])):
        hit = []

        def add(pairs):
            if any(n.op == "const" and str(n.a[1]).lower() == "protected" for n, v in pairs):
                hit.append(1)
                return pick(list(pairs), (cstr("ProtectInMemory"), cstr("True")))
            return pairs
        Y = compared(W, more_attrs=add)
        R.floor("elements given the further attribute (%s Protected)" % name, len(hit), 3)
        if Y.mismatch:
            R.bad("further attribute", "Database::open", "open cannot be followed on a file with further attributes: " + Y.mismatch)
            continue
        for f, e in Y.errs[len(X.errs):]:
            R.bad("further attribute", "Database::open fails", "open fails if a protected element has the attribute ProtectInMemory: %s" % show(e, 4)[:200])
        for d in Y.diffs:
            if not exempt(d.path) and subject(d) not in old:
                R.bad("further attribute", subject(d), "if the element also has the attribute ProtectInMemory, %s is saved as %s but opened as %s: %s" % (d.name(), show(d.want, 5)[:200], show(d.got, 5)[:300], d.why[:300]))
        if not Y.diffs or {subject(d) for d in Y.diffs} <= old:
            R.ok("further attribute", name)


# ---------------------------------------------------------------------- what is encrypted
def marks(R, Rc, d):
    I = Rc.I
    n = 0
    stack = []
    for x in d.toks:
        if x.kind == "START":
            stack.append((x, []))
        elif x.kind == "TEXT" and stack:
            stack[-1][1].append(x)
        if x.kind == "START":
            for y in unsecs(x.a[1]):
                R.bad("plain", x.path, "a protected value is written in an attribute")
        if x.kind == "TEXT":
            for y in unsecs(x.a[0]):
                R.bad("plain", x.path, "the plain bytes of a protected value are written: %s" % show(y, 5))
            for y in salsas(x.a[0]):
                arg = y.a[2]
                R.check(protected_value(arg), "encrypted value", x.path, lambda: "the stream cipher is applied to %s" % show(arg, 5))
                w = y.a[1]
                R.check(w.op == "agg" and isapp(w.a[3], "sha256"), "cipher key", x.path, lambda: "the key of the stream cipher is %s" % show(w, 4))
                R.check(w.op == "agg" and nonce(w.a[4]) == NONCE, "cipher nonce", x.path, lambda: "the nonce of the stream cipher is %s" % show(w, 4))
        if x.kind == "END":
            s, txt = stack.pop()
            n += marked(R, Rc, s, txt)
    R.floor("encrypted texts", n, 2)


def nonce(t):
    if t.op == "agg":
        return tuple(y.a[1] if y.op == "const" else None for y in t.a[3:])
    if t.op == "const":
        return tuple(t.a[1])
    return None


def attr_flag(C, attrs):
    """'Protected' attribute of a start tag: 'True', another text, or None"""
    v = None
    for it in cat_items(attrs):
        if isapp(it, "one"):
            y = it.a[1]
            nm, val = (y.a[3], y.a[4]) if y.op == "agg" and len(y.a) >= 5 else (None, None)
            if nm is None:
                return "?"
            if nm.op == "const" and str(nm.a[1]).lower() == "protected":
                v = val.a[1] if val.op == "const" else "?"
    return v


def marked(R, Rc, s, txt):
    """the element says Protected=True exactly when its text is encrypted"""
    n = 0
    whole = cat(*[t.a[0] for t in txt]) if txt else LIST0
    for f, leaf in paths(Rc.I, tup_cases(s.a[1], whole)):
        attrs, text = leaf.a[3], leaf.a[4]
        enc = bool(salsas(text))
        flag = attr_flag(Rc.C, attrs)
        n += enc
        if flag == "True" and is_empty(text) and any(isapp(y, "unsec") and empty_value(f, y) for t in f for y in subterms(t)):
            continue
        R.check(enc == (flag == "True") and flag in ("True", None, "False"), "marked", s.path,
                lambda: "element %s has Protected=%s, but its text is %s" % (s.path, flag, "encrypted" if enc else "not encrypted"))
    return n


def empty_value(f, y):
    n = length(y)
    return is_val(f, n, 0) or is_val(f, eq(cint(0), n), 1) or is_val(f, app("eq", cint(0), n), 1)


def tup_cases(a, b):
    """case term over pairs"""
    if a.op == "case":
        return mkcase(a.a[0], [(k, tup_cases(v, dict(case_alts(b)).get(k, b) if b.op == "case" and b.a[0] is a.a[0] else b)) for k, v in case_alts(a)])
    if b.op == "case":
        return mkcase(b.a[0], [(k, tup_cases(a, v)) for k, v in case_alts(b)])
    return tup(a, b)


def outside(R, Rc, docs):
    """nothing else that is written contains a plain protected value"""
    n = 0
    for it in cat_items(Rc.out):
        n += 1
        for y in unsecs(hide(it)):
            R.bad("plain", "output", "the plain bytes of a protected value reach the output: %s" % show(it, 5)[:300])
    R.floor("parts of the output", n, 10)


def hide(t):
    """t without keys of ciphers and hashes"""
    m = {}
    for y in subterms(t):
        if isapp(y, "cbcenc"):
            m[y] = app("cbcenc", y.a[1], mk("sym", "key"), *y.a[3:])
    return subst(t, m) if m else t


# ---------------------------------------------------------------------- order in the writer
class Stop(Exception):
    pass


def writer_order(R, Rc, d):
    I, C = Rc.I, Rc.C
    gen = {}

    def norm(t):
        return general(C.canon(t), gen)
    cand = []
    for m, (E, B) in I.mus.items():
        if m.a[3] and m.a[3][-1] == "pos":
            cand.append((m, norm(E), norm(B)))
    nsal = [0]

    def same(a, b):
        a, b = settle_empty(a), settle_empty(b)
        return a is b or C.equal(a, b)

    def settle_empty(t):
        # encrypting nothing does not move the cipher
        def one(y):
            return y
        return fmap(t, one)

    def after(q, x):
        return app("after_salsa", q, x)

    def walk(i, j, q, quiet):
        while i < j:
            x = d.toks[i]
            if x.kind == "TEXT":
                q = text(x, x.a[0], q, quiet)
            elif x.kind == "ALT":
                outs = []
                for k, s in x.coll.items():
                    e = next(t for t in range(s, x.end + 1) if d.toks[t].kind in ("JUMP",) and d.toks[t].end == x.end)
                    outs.append((k, walk(s, e, q, quiet)))
                q = mkcase(x.a[0], outs)
                i = x.end
            elif x.kind == "STAR":
                q = star(i, x, q, quiet)
                i = x.end
            elif x.kind == "REC":
                q = after(q, norm(x.a[0]))
            i += 1
        return q

    def text(x, t, q, quiet):
        if t.op == "case":
            return mkcase(t.a[0], [(k, text(x, v, q, quiet)) for k, v in case_alts(t)])
        ss = salsas(t)
        if not ss:
            return q
        if len(ss) > 1:
            raise Stop((x.path, "several encrypted values in one text"))
        y = next(iter(ss))
        pos = norm(y.a[1].a[5])
        nsal[0] += not quiet
        if q.op == "case":
            pass
        if not same(pos, q):
            raise Stop((x.path, "the value is not encrypted with the key stream that follows the previous encrypted value of the document: cipher position %s, expected %s" % (show(pos, 5)[:200], show(q, 5)[:200])))
        return after(q, norm(y.a[2]))

    def star(i, x, q, quiet):
        why = None
        for m, E, B in cand:
            if not same(E, q):
                continue
            try:
                e = walk(i + 1, x.end, m, True)
            except Stop as s:
                why = why or s
                continue
            if same(e, B):
                if not quiet:
                    walk(i + 1, x.end, m, False)
                return m
            why = why or Stop((x.path, "after a member of %s the cipher stands at %s, expected %s" % (show(x.a[0], 3), show(B, 6)[:300], show(e, 6)[:300])))
        try:
            e = walk(i + 1, x.end, q, quiet)
            if same(e, q):
                return q
            why = why or Stop((x.path, "a repetition of encrypted values does not advance the cipher"))
        except Stop as s:
            why = why or s
        raise why
    try:
        walk(0, len(d.toks), norm(mk("sym", "pos0")), False)
    except Stop as s:
        R.bad("order of encryption", s.args[0][0], s.args[0][1])
        return
    R.ok("order of encryption", "document")
    R.floor("encrypted texts in order", nsal[0], 2)


# ---------------------------------------------------------------------- order in the reader
def reader_order(R, Rc, d):
    I, C = Rc.I, Rc.C
    base = next(k for k, v in Rc.m.docs.items() if v is d) * 1000000
    want = {x.i for x in d.toks if x.kind == "TEXT" and salsas(x.a[0])}
    got = set()
    for i, sp, prob in Rc.m.salsa:
        got.add(i)
        R.check(prob is None, "decryption", "cipher", lambda: "%s: %s" % (sp, prob))
    for i in sorted(want):
        R.check(i in got, "decryption", d.toks[i].path, "an encrypted value is read without passing it through the stream cipher")
    R.floor("encrypted texts that are decrypted", len(want & got), 2)
    # one cipher position, carried through the repetitions that contain encrypted values
    stars, encl = [], {}
    for x in d.toks:
        if x.kind == "STAREND":
            stars.pop()
        encl[x.i] = list(stars)         # repetitions around the token
        if x.kind == "STAR":
            stars.append(x.i)
    has = [s.i for s in d.toks if s.kind == "STAR" and any(t in want for t in range(s.i, s.end))]
    mus = {}
    for m in I.mus:
        if m.a[3] and m.a[3][-1] == "pos" and isinstance(m.a[1], tuple) and m.a[1][:1] == ("star",):
            mus.setdefault(m.a[1][2] - base, []).append(m)
    chosen = {}

    def bases(t):
        """alternatives of a position: (where it starts, repetitions passed since)"""
        for leaf in leavesof(t):
            cs = []
            while isapp(leaf, "fold"):
                cs.append(leaf.a[2])
                leaf = leaf.a[1]
            if leaf.op == "case":
                for b, c2 in bases(leaf):
                    yield b, c2 + cs[::-1]
            else:
                yield leaf, cs[::-1]

    def inside(s, upto):
        """encrypted texts and repetitions with encrypted texts directly in repetition s (None: the document), before token upto"""
        return [t for t in sorted(list(want) + has) if t < upto and (encl[t][-1] if encl[t] else None) == s]

    def expect(t, s, upto, path):
        """t is the position of a cipher that has passed everything in s before token upto"""
        items = inside(s, upto)
        for b, cs in bases(t):
            if b.op == "const" and b.a[0] == "sp":
                if b.a[1] not in items:
                    return "the cipher stands at another value"
                rest = [x for x in items if x > b.a[1] and x in has]
            else:
                if s is None and not fresh(b):
                    return "the cipher starts at %s" % show(b, 3)
                if s is not None and b is not chosen.get(s):
                    return "the cipher is not carried from one member of %s to the next: its position is %s" % (show(d.toks[s].a[0], 3), show(b, 3))
                rest = [x for x in items if x in has]
            if [general(c) for c in cs] != [general(d.toks[x].a[0]) for x in rest] and \
                    not (len(cs) == len(rest) and all(C.equal(general(a), general(d.toks[x].a[0])) for a, x in zip(cs, rest))):
                return "the cipher has passed %s before, expected %s" % ([show(c, 3) for c in cs], [show(d.toks[x].a[0], 3) for x in rest])
        for x in items:
            if x not in want or any(y in want for y in items if y > x):
                continue
            for f, leaf in paths(I, t):
                if any(b.op == "const" and b.a[0] == "sp" and b.a[1] == x for b, cs in bases(leaf)):
                    continue
                if possible(x, f):
                    return "the value at %s does not advance the cipher" % d.toks[x].path
        return None

    conds = {}
    open_alts = []
    for x in d.toks:
        for a in [a for a in open_alts if a[0].end == x.i]:
            open_alts.remove(a)
        for a in open_alts:
            k = [k for k, q in a[0].coll.items() if q <= x.i]
            a[1] = max(k, key=lambda k: a[0].coll[k]) if k else None
        conds[x.i] = [(a[0].a[0], a[1], [k for k in a[0].coll if k != "*"]) for a in open_alts]
        if x.kind == "ALT":
            open_alts.append([x, None])

    def possible(x, f):
        """token x, with a text that is not empty, may exist under the facts f"""
        g = f
        for sel, k, named in conds[x]:
            sel = general(C.canon(sel))
            g = I.assume(g, sel, False, named) if k == "*" else I.assume(g, sel, True, [k])
            if g is None:
                return False
        for h, leaf in paths(I, d.toks[x].a[0], g):
            if salsas(leaf):
                kind = textkind(leaf)
                if kind.op != "disc" or I.assume(h, kind, False, [2]) is not None:
                    return True
        return False
    for s in has:
        path = d.toks[s].path
        out = encl[s][-1] if encl[s] else None
        why = "no cipher is carried through the repetition"
        for m in mus.get(s, []):
            if chosen and m.a[2] not in {c.a[2] for c in chosen.values()}:
                why = "it is read with another cipher"
                continue
            chosen[s] = m
            E, B = I.mus[m]
            why = expect(E, out, s, path) or expect(C.canon(B), s, d.toks[s].end, path)
            if why is None:
                break
            del chosen[s]
        R.check(why is None, "order of decryption", "%s: %s" % (path, show(d.toks[s].a[0], 3)), lambda: why)
    R.floor("repetitions with encrypted values", len(has), 2)


def fresh(t):
    return t is mk("sym", "pos0")


# ---------------------------------------------------------------------- arbitrary documents
def attr_of(t):
    """(reader call, kind) if t tests an attribute of the element that the call returned"""
    for y in subterms(t):
        if y.op == "elem" and any(z == "attributes" for z in y.a[0].a):
            for z in subterms(y.a[0]):
                if z.op == "call" and z.a[0].split("::")[-1].startswith("next"):
                    return z, y
    return None, None


def says_protected(f):
    """reader calls whose element is known to have Protected=True"""
    named, true = {}, {}
    for t, (pos, vals) in f.items():
        if t.op == "imp":
            continue
        n, y = attr_of(t)
        if n is None:
            continue
        s = show(t, 60)
        if isapp(t, "eq") and pos and set(vals) == {1}:
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if b.op == "const" and isinstance(b.a[1], str):
                    if is_name(a) and b.a[1].lower() == "protected":
                        named[y] = n
                    if is_value(a) and b.a[1].lower() == "true":
                        true[y] = n
        elif pos and len(vals) == 1 and isinstance(next(iter(vals)), str):
            v = next(iter(vals))
            if is_name(t) and v.lower() == "protected":
                named[y] = n
            if is_value(t) and v.lower() == "true":
                true[y] = n
        elif isapp(t, "parse") and t.a[1] == cstr("bool") and is_value(t.a[2]):
            if (pos and set(vals) == {1}) or (not pos and set(vals) == {0}):
                true[y] = n
    return {n for y, n in named.items() if y in true}


def is_name(t):
    return any(x == "local_name" or x == "name" for y in subterms(t) for x in y.a if isinstance(x, str)) and not is_value(t)


def is_value(t):
    while isapp(t, "lower", "ascii_lower", "trim", "upper", "ascii_upper"):
        t = t.a[1]
    return t.op == "fld" and t.a[1] == "value"


def generic(W, R):
    e = W.entry(W.method("Database", "open"))
    I = e.I
    calls, roots = set(), set()
    n = k = 0
    for r, ev in e.events():
        if ev.kind == "salsa":
            n += 1
            s = says_protected(at(e, r, ev))
            R.check(bool(s), "condition", ev_fn(e, r, ev), lambda: "%s: a value is passed through the stream cipher without the fact that its element is marked protected" % e.where(r, ev))
            calls |= s
            w = ev.args[0]
            R.check(w.op == "agg" and nonce(w.a[4]) == NONCE, "cipher nonce", "open", lambda: "the nonce of the stream cipher is %s" % show(w, 4))
            p = w.a[5] if w.op == "agg" else None
            for leaf in leavesof(p) if p is not None else []:
                if leaf.op == "mu":
                    roots.add(leaf.a[2])
                elif not isapp(leaf, "after_salsa"):
                    R.bad("one cipher", ev_fn(e, r, ev), "%s: a new cipher is used for a value" % e.where(r, ev))
    R.floor("uses of the stream cipher in open", n, 3)
    R.check(len(roots) == 1, "one cipher", "open", lambda: "values are decrypted by different ciphers: %s" % (sorted(map(str, roots)),))
    starts = [m for m, (E, B) in I.mus.items() if m.a[3] and m.a[3][-1] == "pos" and m.a[2] in roots and not any(x.op == "mu" for x in subterms(E))]
    R.check(len(starts) == 1, "one cipher", "open: start", lambda: "the cipher starts in %d loops" % len(starts))
    for r, ev in e.events():
        if ev.kind == "rec":
            k += 1
            refs = {a.a[0] for a in ev.args if a.op == "ref"}
            R.check(bool(refs & roots), "one cipher", "recursion in %s" % r.fn, lambda: "%s: nested groups are read with another cipher" % e.where(r, ev))
    R.floor("recursive calls", k, 1)
    # every Base64 text of a value is decoded by code that looks at the attribute
    j = 0
    for r, ev in e.events():
        if ev.kind == "call" and ev.name.split("::")[-1] == "decode" and "ngine" in ev.name:
            f = at(e, r, ev)
            el = element(ev.args[-1], f)
            if el is None or not is_value_element(el, f):
                continue
            j += 1
            R.check(el in calls, "attribute", ev_fn(e, r, ev), lambda: "%s: the text of an element Value or Binary is decoded without looking at its attribute Protected" % e.where(r, ev))
    R.floor("decoded values", j, 3)
    # results of the cipher become protected values
    leaks = 0
    vals = [v for f, v in okalts(e)]
    seen = set()
    for v in vals:
        for t in flows(I, v, seen):
            leaks += 1
            if not pool(t):
                R.bad("protected again", "open", "a decrypted value is stored without protection: %s" % " <- ".join(show(y, 5)[:200] for y in t[::-1]))
    R.count("decrypted shared binaries", leaks)


def ev_fn(e, r, ev):
    """name of the innermost function of the crate that is not the cipher itself"""
    c, names = ev.ctx, []
    byctx = {x.ctx: x for x in e.run.walk()}
    while c is not None:
        x = byctx.get(c)
        if x is not None and not x.fn.startswith("crypto::"):
            return x.fn
        c = e.I.ctxinfo[c][0]
    return r.fn


def element(t, f):
    """reader call that returned the start tag directly before the text t"""
    ns = [y for y in subterms(t) if y.op == "call" and y.a[0].split("::")[-1].startswith("next")]
    # the innermost calls are the oldest: the text is the newest call; its start tag is the newest one known to be a start tag
    if not ns:
        return None
    order = sorted(ns, key=depth, reverse=True)
    for y in order[1:]:
        if start_tag(y, f):
            return y
    return None


def depth(t):
    n = 0
    while True:
        nx = next((y for y in t.a if isinstance(y, T) and (isapp(y, "after") or y.op == "call")), None)
        if nx is None:
            return n
        n += 1
        t = nx


def start_tag(y, f):
    for t, (pos, vals) in f.items():
        if t.op != "imp" and any(z is y for z in subterms(t)) and "StartElement" in show(t, 8):
            return True
    return False


def is_value_element(el, f):
    for t, (pos, vals) in f.items():
        if t.op == "imp" or not pos or len(vals) != 1:
            continue
        a = None
        if isapp(t, "eq") and set(vals) == {1}:
            for x, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if b.op == "const" and isinstance(b.a[1], str):
                    a = (x, b.a[1])
        elif isinstance(next(iter(vals)), str):
            a = (t, next(iter(vals)))
        if a and a[1].lower() in ("value", "binary") and any(y is el for y in subterms(a[0])) and "attributes" not in show(a[0], 30):
            return True
    return False


def flows(I, v, seen):
    """ways to cipher results that are not inside a protected value, with respect to the facts on the way"""
    out = []
    memo = {}

    def kids(t):
        return [y for y in (t.a[2:] if t.op == "case" else t.a) if isinstance(y, T)]

    def stop(t):
        return isapp(t, "sec", "after_salsa", "after") or t.op == "call"

    def has(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = isapp(t, "salsa") or (not stop(t) and any(has(y) for y in kids(t)))
        return r

    # loop-carried values through which a cipher result may come
    carried, grow = set(), True
    while grow:
        grow = False
        for m, (E, B) in I.mus.items():
            if m not in carried and m.a[3][-1:] != ("pos",) and (has(E) or has(B) or any(y in carried for y in deep_subterms(E, B, stop))):
                carried.add(m)
                grow = True
    touch = {}

    def hit(t):
        r = touch.get(t)
        if r is None:
            r = touch[t] = isapp(t, "salsa") or t in carried or (not stop(t) and any(hit(y) for y in kids(t)))
        return r

    def go(t, f, p):
        if not hit(t) or stop(t):
            return
        if isapp(t, "salsa"):
            out.append(p + (t,))
        elif t.op == "mu":
            if t not in seen:
                seen.add(t)
                for y in I.mus.get(t, ()):
                    go(y, NOFACTS, p + (t,))
        elif t.op == "case":
            for g, y in paths(I, t, f):
                go(y, g, p)
        else:
            for y in kids(t):
                go(y, f, p)
    go(v, NOFACTS, ())
    return out


def deep_subterms(E, B, stop):
    st, seen = [E, B], set()
    while st:
        t = st.pop()
        if t in seen or stop(t):
            continue
        seen.add(t)
        yield t
        st.extend(y for y in (t.a[2:] if t.op == "case" else t.a) if isinstance(y, T))


def pool(p):
    """the path leads into the map of shared binaries, whose values cannot be protected"""
    return any(m.op == "mu" and m.a[3] and m.a[3][-1] == "binaries" for m in p if m.op == "mu") or any("binaries" in str(m.a[2:]) for m in p if m.op == "mu")
