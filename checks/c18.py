"""C18: key files keep their key and type across save and open."""
from engine.view import *
from engine.guards import *
from engine.compose import compose, Mismatch, Doc
from engine.compare import Compare
from engine.filefmt import is_rand

EXPLANATION = (
    "Composition: for each of the three types, KeyFile::save is evaluated symbolically and KeyFile::open is evaluated on its output "
    "(32 key bytes for the binary and hexadecimal types, any key for XML; the XML document is shown to be longer than 64 bytes by adding up "
    "its tags); every alternative must return the same key and type. Guard analysis of KeyFile::open on an arbitrary input: the "
    "alternatives that return a key file must carry exactly the length facts of their type (32 / 64 / neither), the binary key is "
    "the whole content, the hexadecimal key is the decoded content with the fact that decoding succeeded, the XML key comes out "
    "of the Base64 decoder. Constructors: the key is one unmodified 32-byte draw and the type is the one asked for.")

KEY = app("unsec", mk("fld", None, "key", mk("sym", "self")))


def check(W, R):
    names = [v["n"] for v in W.D.adts[W.adt("KeyFileType")]["v"]]
    variant = typename(W, names)
    saved(W, R, names, variant)
    arbitrary(W, R, names, variant)
    constructors(W, R, names, variant)


def typename(W, names):
    return lambda t: names[t.a[1]] if t.op == "agg" and isinstance(t.a[1], int) and t.a[0] == W.adt("KeyFileType") else show(t, 3)


def saved(W, R, names, variant, layout=None, only=None):
    """what is saved is opened with the same key and type"""
    save, open_ = W.method("KeyFile", "save"), W.method("KeyFile", "open")

    def mk_args(I, m, Rr):
        return [mk("ref", ("p", "reader"), ())], {("p", "reader"): m.src(I, Rr.out)}
    changed = 0
    for k, name in enumerate(names):
        if only and name not in only:
            continue
        def alter(Rr):
            I, C = Rr.I, Rr.C
            d = next((x for x in subterms(Rr.out) if x.op == "disc" and x.a[1].op == "fld" and x.a[1].a[1] == "file_type"), None)
            if d is None:
                raise Mismatch("what save writes does not depend on the type")
            f = I.assume(NOFACTS, d, True, [k])
            f = I.assume(f, I.disc(Rr.wrun.ret, RES), True, [0])
            if f is None:
                raise Mismatch("a key file of this type is never saved")
            Rr.facts = f
            o = C.canon(I.simp(Rr.out, f))
            n = length(o)
            if name == "Xml":
                least = shortest(C, o)
                R.check(least > 64, "length", name, "the document may have only %d bytes" % least)
                Rr.seed = {d: (True, {k}), n: (False, {32, 64})}
            else:
                Rr.seed = {d: (True, {k})}
                if isapp(o, "hex", "hexu") and o.a[1] is KEY:
                    Rr.seed[n] = (True, {64})
                if o is KEY or o in (C.canon(KEY),):
                    Rr.seed[n] = (True, {32})
            return o
        try:
            Rr = compose(W, save, None, open_, mk_args, alter=alter, layout=layout)
            changed += Rr.m.changed
        except Mismatch as x:
            R.bad("round-trip", name, "open cannot be followed on a saved key file: %s" % x)
            continue
        n = 0
        for f, t in paths(Rr.I, Rr.rrun.ret, Rr.facts, Rr.C):
            if t.op == "agg" and t.a[0] == RES and t.a[1] == 0:
                n += 1
                v = t.a[3]
                C = Compare(Rr, f)
                C.run(field(v, "key"), mk("fld", None, "key", mk("sym", "self")), ("KeyFile", "key"), None)
                for d in C.diffs:
                    R.bad("key", name, "the key is saved as %s but opened as %s: %s" % (show(d.want, 5)[:200], show(d.got, 6)[:300], d.why[:200]))
                if not C.diffs:
                    R.ok("key", name)
                got = variant(Rr.I.simp(field(v, "file_type"), f))
                R.check(got == name, "type", name, lambda: "a %s key file is opened as %s" % (name, got))
            else:
                R.bad("round-trip", name + " fails", "open of a saved key file can fail: %s" % show(t, 4)[:300])
        R.floor("alternatives (%s)" % name, n, 1)
    return changed


def shortest(C, out):
    """least number of bytes of the tags and constant texts of a document"""
    d = Doc(C, out)
    n, skip = 0, None
    for t in d.toks:
        if skip is not None:
            if t.i < skip:
                continue
            skip = None
        if t.kind == "ALT":
            skip = t.end
        elif t.kind == "STAR":
            skip = t.end if getattr(t, "end", None) is not None else len(d.toks)
        elif t.kind == "START":
            nm = next((x for x in t.a if isinstance(x, T) and x.op == "const"), None)
            nm = nm.a[1] if nm is not None else next((x for x in t.a if isinstance(x, str)), "")
            nx = next((x.kind for x in d.toks[t.i + 1:] if x.kind != "WS"), "END")
            n += len(nm) + 3 if nx not in ("START", "TEXT") else 2 * len(nm) + 5
        elif t.kind == "TEXT" and isinstance(t.a[0], T) and t.a[0].op == "const":
            n += len(t.a[0].a[1])
    return n


def arbitrary(W, R, names, variant):
    e = W.entry(W.method("KeyFile", "open"))
    I = e.I
    seen = set()
    for f, v in okalts(e):
        t = variant(I.simp(field(v, "file_type"), f))
        k = I.simp(field(v, "key"), f)
        lens = [(x, pv) for x, pv in f.items() if isapp(x, "len") and isapp(x.a[1], "in") and x.a[1].a[2] is cstr("rest")]
        seen.add(t)
        if t == "Xml":
            R.check(any(not p and set(s) >= {32, 64} for x, (p, s) in lens), "decided", t, "content of 32 or 64 bytes may be read as XML")
            R.check(made_by(I, k, "unb64"), "source", t, lambda: "the key does not come out of the Base64 decoder: %s" % show(k, 5)[:300])
            continue
        want = {"Binary": 32, "Hex": 64}.get(t)
        R.check(want is not None and any(p and set(s) == {want} for x, (p, s) in lens), "decided", t, lambda: "a key file is %s without the fact that its content has %s bytes" % (t, want))
        x = lens[0][0].a[1] if lens else None
        if t == "Binary":
            R.check(isapp(k, "sec") and k.a[1] is x, "source", t, lambda: "the key is %s" % show(k, 5)[:300])
        else:
            R.check(isapp(k, "sec") and isapp(k.a[1], "unhex") and k.a[1].a[1] is x, "source", t, lambda: "the key is %s" % show(k, 5)[:300])
            R.check(any(y.op == "disc" and y.a[1].op == "call" and "hex" in y.a[1].a[0] and pv == (True, frozenset([0])) and x in subterms(y) for y, pv in f.items()),
                    "decoded", t, "the key is used without the fact that decoding succeeded")
    for n in names:
        R.check(n in seen, "reached", n, "open never returns a key file of this type")


def made_by(I, t, fn):
    """every value t may have was produced by fn"""
    seen = set()

    def go(x):
        if x in seen or x is BOT:
            return True
        seen.add(x)
        if x.op == "case":
            return all(go(v) for _, v in case_alts(x))
        if x.op == "fld" and x.a[2].op == "mu" and x.a[2] in I.mus:
            E, B = I.mus[x.a[2]]
            return go(E) and go(B)
        if x.op == "mu" and x in I.mus:
            return all(go(y) for y in I.mus[x])
        if x.op == "fld":
            return go(x.a[2])
        if x.op == "agg" and x.a[0] == OPT and x.a[1] == 0:
            return True
        if x.op == "agg" and len(x.a) == 4:
            return go(x.a[3])
        if isapp(x, "sec", "part"):
            return go(x.a[1])
        if isapp(x, fn):
            return True
        return blank(x)
    return go(t)


def blank(v):
    return (v.op == "const" and v.a[1] in ("", b"", ())) or (isapp(v, "cat", "list") and len(v.a) == 1) or (v.op == "agg" and v.a[0] == "array" and len(v.a) == 2)


def constructors(W, R, names, variant):
    for fn, want in (("new", "Xml"), ("new_xml", "Xml"), ("new_hex", "Hex"), ("new_binary", "Binary")):
        e = W.entry(W.method("KeyFile", fn))
        n = 0
        for f, v in okalts(e):
            n += 1
            t = variant(e.I.simp(field(v, "file_type"), f))
            R.check(t == want, "constructor", fn, lambda: "the type is %s" % t)
            k = Canon(e.I).canon(e.I.simp(field(v, "key"), f))
            okk = isapp(k, "sec") and is_rand(k.a[1]) is not None and k.a[1].a[2] is cint(32)
            R.check(okk, "random", fn, lambda: "the key is %s" % show(k, 6)[:300])
        R.floor("alternatives of %s" % fn, n, 1)
