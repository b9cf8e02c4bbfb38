"""C20: secrets are not revealed by formatting."""
from engine.dump import deref_ty, ty_name
from engine.graph import Graph
from engine.terms import *
from engine.view import *
from checks.c06 import flows, pool
from engine.guards import okalts

EXPLANATION = (
    "Type and information-flow analysis. (1) The fields that hold credentials and protected values (composite key, master key, transformed key, key file, "
    "protected strings and binaries) are of the secure-string type, whose own formatting hides its content, or of a type of the crate for which the same "
    "holds; no other type is derived from them. (2) Every formatting implementation written by hand and every other function that formats is analysed: "
    "what reaches the formatter must not contain the content of a secure string, key-file data, a password or a decrypted value. (3) The same for every "
    "error that a public function returns, every diagnostic it prints and the text of every panic; a failure of a foreign function counts as harmless "
    "only if its error type is known not to carry the input. (4) Decrypted values that open stores lie inside a secure string. (5) Nothing leaks or "
    "forgets a value, so that the wiping on drop takes place.")

SECSTR = "secstr::SecVec"
# public type -> fields (variant.field) that hold a secret
HOLDERS = {"CompositeKey": None, "MasterKey": None, "TransformedKey": None, "KeyFile": {"key"},
           "StringValue": {"Protected"}, "BinaryValue": {"Protected"}}
# error types of foreign functions that say what failed and where, not what the input was
QUIET = ("Utf8Error", "ParseIntError", "ParseBoolError", "DecodeError", "FromHexError", "TryFromIntError", "SymmetricCipherError", "ParseError",
         "ParseFloatError", "EmitterError", "DecodeSliceError", "TryFromSliceError", "Infallible", "ParseCharError", "CharTryFromError")
FMT = ("Debug", "Display", "LowerHex", "UpperHex", "Octal", "Binary", "Pointer", "LowerExp", "UpperExp")
FORGET = ("mem::forget", "ManuallyDrop", "Box::leak", "Vec::leak", "String::leak", "mem::zeroed", "Rc::new_cyclic", "Box::into_raw", "Rc::into_raw")


def secret_type(D, t, seen=()):
    """a value of this type shows nothing when it is formatted: secure string, or a holder of one"""
    t = deref_ty(t)
    if t[0] == "adt":
        if t[1].startswith("secstr::"):
            return True
        if t[1] in ("alloc::boxed::Box", "core::option::Option", "alloc::rc::Rc", "alloc::sync::Arc"):
            return secret_type(D, t[2], seen)
    return False


def errors_of(v):
    """the alternatives of an error value, each once"""
    seen, out, work = set(), [], [v]
    while work:
        t = work.pop()
        if t in seen or t is BOT:
            continue
        seen.add(t)
        if t.op == "case":
            work += [x for _, x in case_alts(t)]
        else:
            out.append(t)
    return out


class Flow:
    """does a term contain a secret?"""
    def __init__(self, D, I, passwords=(), keyfile=False):
        self.D, self.I, self.pw, self.kf = D, I, set(passwords), keyfile
        self.memo = {}

    def find(self, t):
        """a secret part of t, or None"""
        work, seen = [t], set()
        while work:
            x = work.pop()
            if x in seen or x is BOT:
                continue
            seen.add(x)
            if x.op == "case":
                work += [y for _, y in case_alts(x)]
                continue
            if isapp(x, "sec", "len", "cbcdec", "cbcenc", "chunk", "after_salsa"):
                continue
            if isapp(x, "fmt") and x.a[1] is cstr("display") and len(x.a) > 4 and x.a[4].op == "fld" and x.a[4].a[0] == "Err" and \
                    self.error_name(x.a[4].a[2]) == "FromUtf8Error":
                continue        # only the debug formatter shows the bytes
            if isapp(x, "unsec"):
                return x
            if isapp(x, "salsa"):
                if self.find(x.a[2]) is None:
                    return x
                continue        # encrypted with the stream cipher
            if x.op == "sym":
                if x.a[0] in self.pw:
                    return x
                continue
            if x.op == "fld" and x.a[0] == "Err" and x.a[2].op == "call":
                if self.quiet(x.a[2]):
                    continue
            if x.op == "elem" and isapp(x.a[0], "chars") and isapp(x.a[0].a[1], "b64", "hex") and x.a[1][-1] == "fi":
                continue        # a character that the search for forbidden characters finds; there is none in such text
            if self.kf and isapp(x, "in"):
                return x
            if self.kf and x.op == "fld" and x.a[0] in ("Characters", "CData", "Whitespace") and x.a[2].op in ("fld", "call"):
                return x
            if x.op == "mu":
                for y in self.I.mus.get(x, ()):
                    work.append(y)
                continue
            if x.op in ("call", "app", "agg", "fld", "upd", "elem", "out", "ld", "ref"):
                work += [y for y in x.a if isinstance(y, T)]
        return None

    def error_name(self, call):
        t = self.I.errty.get(call)
        return t[1].split("::")[-1] if t and t[0] == "adt" else None

    def quiet(self, call):
        t = self.I.errty.get(call)
        n = call.a[0]
        if n.startswith("rec:") or n.startswith("local:") or n.split("::")[0] in ("EventReader", "EventWriter", "Read", "Write"):
            return True     # what failed in the parser, emitter, reader or writer
        if t is None:
            return False
        return t[0] == "adt" and (t[1].split("::")[-1] in QUIET or t[1].endswith("io::error::Error") or self.D.is_local_adt(t[1])
                                  or t[1].split("::")[0] in ("rand", "rand_core", "xml", "uuid", "chrono") or t[1].startswith("core::fmt"))


def holders(W, R):
    D = W.D
    n = 0
    byname = {}
    for p, a in D.adts.items():
        if a["local"]:
            byname.setdefault(p.split("::")[-1], []).append((p, a))
    for name, want in HOLDERS.items():
        for p, a in byname.get(name, []):
            for v in a["v"]:
                for i, f in enumerate(v["f"]):
                    if want is not None and v["n"] not in want and f["n"] not in want:
                        continue
                    t = D.ty(f["t"])
                    n += 1
                    R.check(secret_type(D, t) or harmless(D, t), "held", "%s.%s" % (name, f["n"] if len(a["v"]) == 1 else v["n"]),
                            lambda: "%s keeps its content in %s instead of a secure string" % (p, show_ty(t)))
    R.floor("fields that hold secrets", n, 5)
    for name in ("CompositeKey", "KeyFile", "StringValue", "BinaryValue"):
        R.check(name in byname, "holder", name, "the type %s is gone" % name)


def harmless(D, t):
    """no data: an enum without fields"""
    return t[0] == "adt" and D.is_local_adt(t[1]) and all(not v["f"] for v in D.adts[t[1]]["v"]) or t[0] == "prim" and t[1] == "bool"


def show_ty(t):
    return ty_name(t) if t[0] == "adt" else str(t)


def fn_name(fn):
    return fn.split("::")[-1] if not fn.startswith("<") else fn


def examine(W, R, fn, what):
    """everything that fn formats, prints or returns as an error"""
    D = W.D
    e = W.entry(fn)
    I = e.I
    t = D.fns[fn]
    own, pws = passwords(D, fn)
    F = Flow(D, I, pws, keyfile=own == "KeyFile")
    n = 0
    for r, ev in e.events():
        if ev.kind in ("diag", "fmtout"):
            n += 1
            x = F.find(tup(*[a for a in ev.args if isinstance(a, T)]))
            R.check(x is None, what if ev.kind == "fmtout" else "diagnostic", "%s in %s" % (fn_name(fn), r.fn.split("::")[-1]),
                    lambda: "%s shows %s (%s)" % (fn, show(x, 4), e.where(r, ev)))
    if e.run.exit is not None:
        rt = D.ty(t["locals"][0]["t"])
        if rt[0] == "adt" and rt[1] == RES and "fmt" not in fn.split("::")[-1]:
            g = I.assume(e.run.exit.facts, I.disc(e.run.ret, RES), True, [1])
            for v in errors_of(I.simp(e.run.ret, g)) if g is not None else []:
                for y in errors_of(v.a[3]) if v.op == "agg" and v.a[1] == 1 else [v]:
                    n += 1
                    x = F.find(y)
                    R.check(x is None, "error", "%s: %s" % (fn_name(fn), label(y)),
                            lambda: "the error %s of %s contains %s" % (label(y), fn, show(x, 4)))
    return n


def stores(W, R, fn):
    """secrets that fn leaves in its arguments or in the structure it returns lie inside secure strings"""
    D = W.D
    e = W.entry(fn)
    if e.run.exit is None:
        return 0
    I = e.I
    f = D.fns[fn]
    pws = passwords(D, fn)
    F = Flow(D, I, pws[1], keyfile=False)
    vals = []
    rt = D.ty(f["locals"][0]["t"])
    while rt[0] == "adt" and rt[1] in (RES, OPT):
        rt = rt[2]
    if rt[0] == "adt" and D.is_local_adt(rt[1]) and rt[1].split("::")[-1] != "Error":
        v = e.run.ret
        if D.ty(f["locals"][0]["t"])[1] == RES:
            g = I.assume(e.run.exit.facts, I.disc(v, RES), True, [0])
            v = I.simp(v, g) if g is not None else UNIT
        vals.append(("result", v))
    for i in range(1, f["argc"] + 1):
        t = D.ty(f["locals"][i]["t"])
        n = f["locals"][i].get("n")
        if t[0] == "ref" and deref_ty(t)[0] == "adt" and D.is_local_adt(deref_ty(t)[1]):
            after = e.run.exit.mem.get(("p", n))
            if after is not None and after is not mk("sym", n):
                vals.append((n, after))
    for n, v in vals:
        x = F.find(v)
        R.check(x is None, "kept", "%s: %s" % (fn_name(fn), n), lambda: "%s keeps %s outside of a secure string" % (fn, show(x, 4)))
    return len(vals)


def passwords(D, fn):
    """(type whose function this is, parameters that are credentials)"""
    t = D.fns[fn]
    sty = deref_ty(D.ty(t["self_ty"])) if t.get("self_ty") is not None else None
    own = sty[1].split("::")[-1] if sty and sty[0] == "adt" else ""
    pws = set()
    if own in ("CompositeKey", "KeyFile"):
        for i in range(1, t["argc"] + 1):
            if D.ty(t["locals"][i]["t"])[0] in ("param", "ref") and t["locals"][i].get("n") not in ("self", "reader", "writer", "f"):
                ty = deref_ty(D.ty(t["locals"][i]["t"]))
                if ty[0] in ("param", "slice", "array", "prim") or ty[0] == "adt" and ty[1].endswith("String"):
                    pws.add(t["locals"][i].get("n"))
    return own, pws


def label(y):
    """name of an error alternative"""
    n = 0
    while y.op == "agg" and y.a[0] == RES and n < 4:
        y, n = y.a[3], n + 1
    if y.op == "agg":
        return str(y.a[0]).split("::")[-1] + ":" + str(y.a[1])
    return y.op


def check(W, R):
    D = W.D
    G = Graph(D)
    holders(W, R)
    n = 0
    hand = set()
    derived = 0
    for tr in D.by_trait:
        if tr.split("::")[-1] in FMT and "fmt" in tr:
            for im in D.by_trait[tr]:
                for f in im["items"].values():
                    if f not in D.fns:
                        continue
                    if D.fns[f].get("derived"):
                        derived += 1
                        R.ok("derived: formats its fields", f)
                    else:
                        hand.add(f)
    R.floor("derived formatting implementations", derived, 10)
    for f in sorted(hand):
        n += examine(W, R, f, "format")
    R.floor("formatting implementations written by hand", len(hand), 3)
    pub = []
    for p in G.public():
        if p in hand or D.fns[p].get("derived"):
            continue
        t = D.ty(D.fns[p]["locals"][0]["t"])
        if t[0] == "adt" and t[1] == RES or prints(D, G, p):
            pub.append(p)
    for p in pub:
        n += examine(W, R, p, "format")
    R.floor("public functions that can fail or print", len(pub), 8)
    R.floor("errors, diagnostics and formatted texts", n, 30)
    m = 0
    for p in G.public():
        if not D.fns[p].get("derived") and p not in (W.method("Database", "open"), W.method("KeyFile", "open")):
            m += stores(W, R, p)
    R.floor("structures that public functions return or change", m, 20)
    # what open stores
    e = W.entry(W.method("Database", "open"))
    seen = set()
    for f, v in okalts(e):
        for t in flows(e.I, v, seen):
            R.bad("stored", "shared binaries" if pool(t) else "open",
                  "a decrypted value is stored outside of a secure string: %s" % " <- ".join(show(y, 4)[:120] for y in t[::-1]))
    # nothing is kept from being dropped
    m = 0
    for fn, f in D.fns.items():
        for b in f["blocks"]:
            c = b["t"]
            if c["k"] == "call" and "const" in c.get("f", {}) and "fn" in c["f"]["const"]:
                m += 1
                d = c["f"]["const"]["fn"]["def"]
                if any(x in d for x in FORGET):
                    R.bad("dropped", fn, "%s keeps a value from being dropped with %s" % (fn, d))
    R.floor("calls looked at for values that are never dropped", m, 500)


def prints(D, G, p):
    for q in G.reach([p]):
        for b in D.fns[q]["blocks"] if q in D.fns else []:
            c = b["t"]
            if c["k"] == "call" and "const" in c.get("f", {}) and "fn" in c["f"]["const"]:
                d = c["f"]["const"]["fn"]["def"]
                if "stdio::" in d or "_print" in d or "_eprint" in d:
                    return True
    return False
