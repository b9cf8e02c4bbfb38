"""Composition of writer and reader.

The document or file that the writer produces is known as a term over the value
being saved.  The reader is interpreted on exactly that document: the positions
of the reader's sources are constants, so loop iterations are partitioned by
position; a repeated part of the document (one element per member of a
collection) is entered once, for an arbitrary member, and closed to a fold; a
part that exists only under a condition is entered under this condition."""
from .terms import *
from . import terms as TT
from .interp import Interp, AnalysisError, Facts, NOFACTS, State
from .models import xml_config, Models, HANDLERS, State_copy, drop_fact
from .canon import Canon, isapp, is_empty, cat_items, NUM_SIZES, INTS
from .dump import deref_ty, ty_name


class Mismatch(Exception):
    """the reader cannot follow what the writer wrote"""


class Ended(Mismatch):
    """the input ends"""


class Tok:
    __slots__ = ("kind", "a", "path", "coll", "i", "end", "prot", "depth", "cdata")

    def __init__(self, kind, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))
        self.kind = kind

    def __repr__(self):
        return "%s %s" % (self.kind, self.path)


class Doc:
    """token sequence of an XML buffer term"""
    def __init__(self, C, t, indent=True):
        self.C = C
        self.toks = []
        self.problems = []
        self.root_names = {}
        self.emit("STARTDOC", path="")
        self.items(self.merge_text(cat_items(t)), [], indent)
        self.emit("ENDDOC", path="")
        self.mark()

    def mark(self):
        """the element that is written again, nested, by the recursion; the sequence of protected texts"""
        open_, stars = [], []
        self.prot = {}
        for x in self.toks:
            if x.kind == "START":
                open_.append(x)
            elif x.kind == "END":
                open_.pop()
            elif x.kind == "STAR":
                stars.append(x)
            elif x.kind == "STAREND":
                stars.pop()
            elif x.kind == "REC":
                x.coll = [s.a[0] for s in stars]
                x.prot = open_[-1].i if open_ else None
                open_[-1].depth = "root"
            elif x.kind == "TEXT":
                for y in subterms(x.a[0]):
                    if isapp(y, "salsa"):
                        self.prot[y] = x.i

    def rec_value(self, call, tok):
        """the member of the collection that a recursive call writes"""
        C = self.C
        for coll in reversed(tok.coll or []):
            el = mk("elem", coll, "*")
            for y in call.a[2:]:
                if isinstance(y, T) and C.canon(y) is el:
                    return el
        return None

    def emit(self, kind, **k):
        x = Tok(kind, **k)
        x.i = len(self.toks)
        self.toks.append(x)
        return x

    def merge_text(self, items):
        return items

    def ev(self, x):
        return x.a[1].a[0] if isapp(x, "xmlout") and x.a[1].op == "agg" else None

    def needs_ws(self, prev, tag):
        """indentation the XML writer puts before a tag: True, False or (selector, {key: ...})"""
        if isinstance(prev, tuple):
            sel, alts = prev
            r = {k: self.needs_ws(v, tag) for k, v in alts.items()}
            v0 = next(iter(r.values()))
            return v0 if all(v is v0 for v in r.values()) else (sel, r)
        return prev == "END" or (prev == "START" and tag == "START")

    def ws(self, n, p):
        if n is True:
            self.emit("WS", path=p)
        elif isinstance(n, tuple):
            sel, alts = n
            self.alt(sel, [(k, (lambda v=v: self.ws(v, p))) for k, v in alts.items()], p)

    def alt(self, sel, alts, p):
        b = self.emit("ALT", a=(sel,), path=p)
        b.coll = {}
        outs, res = [], []
        for k, f in alts:
            b.coll[k] = len(self.toks)
            res.append((k, f()))
            outs.append(self.emit("JUMP", path=p))
        e = self.emit("ALTEND", path=p)
        for o in outs:
            o.end = e.i
        b.end = e.i
        return res

    def items(self, items, stack, indent, prev=None):
        """emit a balanced item sequence; `stack` are the names of open elements;
        -> what was written last in the current element"""
        base = len(stack)
        for x in items:
            k = self.ev(x)
            p = "/".join(n if isinstance(n, str) else "?" for n in stack)
            if k == "%sb":
                name, attrs = x.a[1].a[3], x.a[1].a[4]
                if name.op != "const":
                    self.problems.append(("name", p, "element name depends on data: %s" % show(name, 4)))
                if not stack and any(t.kind == "START" for t in self.toks):
                    self.problems.append(("root", p, "a second root element"))
                nm = name.a[1] if name.op == "const" else "?"
                if indent:
                    self.ws(self.needs_ws(prev, "START"), p)
                stack.append(nm)
                self.emit("START", a=(name, attrs), path=p + "/" + nm)
                prev = "START"
            elif k == "%ee":
                if len(stack) <= base:
                    self.problems.append(("balance", p, "end tag without start tag"))
                    raise Mismatch("unbalanced end tag in " + p)
                if indent:
                    self.ws(self.needs_ws(prev, "END"), p)
                nm = stack.pop()
                self.emit("END", a=(cstr(nm),), path=p)
                prev = "END"
            elif k == "%comment":
                prev = "END"
            elif isapp(x, "xmlout"):
                v = x.a[1]
                tx = self.plain(v)
                if tx is not None:
                    self.text(tx, p, stack)
                    prev = "TEXT"
                else:
                    self.problems.append(("event", p, "unknown document event %s" % show(v, 4)))
                    raise Mismatch("unknown document event in " + p)
            elif isapp(x, "xmlrec"):
                if indent:
                    self.ws(self.needs_ws(prev, "START"), p)
                self.emit("REC", a=(x.a[1],), path=p + "/<rec>")
                self.emit("RECBODY", a=(x.a[1],), path=p + "/<rec>")
                prev = "END"
            elif isapp(x, "star"):
                b = self.emit("STAR", a=(x.a[1],), path=p)
                n = len(stack)
                last = self.items(cat_items(x.a[2]), stack, indent, prev)
                if len(stack) != n:
                    self.problems.append(("balance", p, "tags opened and closed in different iterations of a loop"))
                    raise Mismatch("unbalanced loop in " + p)
                e = self.emit("STAREND", path=p)
                b.end = e.i
                e.end = b.i
                if last != prev:
                    prev = (app("eq", cint(0), app("len", x.a[1])), {1: prev, 0: last})
            elif x.op == "case":
                n = list(stack)

                def one(v):
                    st2 = list(n)
                    r = self.items(cat_items(v), st2, indent, prev)
                    if st2 != n:
                        self.problems.append(("balance", p, "tags opened under a condition are not closed under it"))
                        raise Mismatch("unbalanced alternative in " + p)
                    return r
                res = self.alt(x.a[0], [(kk, (lambda v=v: one(v))) for kk, v in case_alts(x)], p)
                prev = res[0][1] if all(r == res[0][1] for _, r in res) else (x.a[0], dict(res))
            else:
                self.problems.append(("item", p, "part of the document is not understood: %s" % show(x, 4)[:300]))
                raise Mismatch("part of the document is not understood in %s: %s" % (p, show(x, 4)[:200]))
        if base == 0 and stack:
            self.problems.append(("balance", "/".join(stack), "element is not closed"))
            raise Mismatch("unclosed element")
        return prev

    def plain(self, v):
        """text of a characters event or of a string converted to one"""
        if v.op == "case":
            xs = [(k, self.plain(y)) for k, y in case_alts(v)]
            return None if any(y is None for _, y in xs) else mkcase(v.a[0], xs)
        if v.op == "agg":
            return v.a[3] if v.a[0] in ("%characters", "%cdata") else None
        return v

    def text(self, v, p, stack):
        if not stack:
            self.problems.append(("text", p, "text outside the root element"))
        if self.toks and self.toks[-1].kind == "TEXT":
            self.toks[-1].a = (cat(self.toks[-1].a[0], v),)
            return
        self.emit("TEXT", a=(v,), path=p)


# ---------------------------------------------------------------------- text kinds
def textkind(v):
    """case term over %Text kinds: 0 characters, 1 white space only, 2 empty"""
    if v.op == "case":
        return fmap(v, textkind)
    if v.op == "const" and v.a[0] in ("str",):
        s = v.a[1]
        return cint(2 if s == "" else 1 if s.strip(" \t\r\n") == "" else 0)
    if v is LIST0:
        return cint(2)
    if isapp(v, "fmt"):
        ty = v.a[2].a[1]
        if ty in INTS or ty.startswith("DateTime") or ty in ("bool",):
            return cint(0)
    if isapp(v, "b64", "hex", "hexu"):
        x = v.a[-1]
        if isapp(x, "gzip", "sha256", "uuid_bytes", "rand", "enc") or (length(x).op == "const" and length(x).a[1] > 0):
            return cint(0)
        return mk("disc", "%TextB", v)
    if isapp(v, "cat"):
        for x in v.a[1:]:
            if x.op == "const" and x.a[0] == "str" and x.a[1].strip(" \t\r\n"):
                return cint(0)
            if textkind(x) is cint(0):
                return cint(0)
    return mk("disc", "%Text", v)


def empties(v, out=None):
    """terms that are empty when text v is empty"""
    out = set() if out is None else out
    if v in out:
        return out
    out.add(v)
    if isapp(v, "b64", "hex", "hexu"):
        empties(v.a[-1], out)
    if isapp(v, "salsa"):
        empties(v.a[-1], out)
    if isapp(v, "cat"):
        for x in v.a[1:]:
            empties(x, out)
    return out


def general(t, memo=None):
    """forget at which place of the program an element of a collection was taken"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        n = tuple(general(x, memo) if isinstance(x, T) else x for x in t.a)
        if t.op == "elem":
            r = mk("elem", n[0], "*")
        else:
            r = t if n == t.a else TT.rebuild(t.op, n)
        memo[t] = r
    return r


POS = "xp"


class Ints:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __len__(self):
        return max(0, self.hi - self.lo)

    def __getitem__(self, i):
        return cint(self.lo + i)

    def __iter__(self):
        return iter([cint(x) for x in range(self.lo, min(self.hi, self.lo + 1000))])


class CModels(Models):
    def __init__(self):
        Models.__init__(self)
        self.on = self.altered = False
        self.more_attrs = self.layout = None
        self.changed = 0
        self.C = None
        self.docs = {}
        self.I = None
        self.salsa = []          # (token, problem or None)
        self.templates = {}      # token index of a START -> function called with its content
        self.rec_used = []
        self.entered = {}
        self.reads = []
        self.srcs, self.srct = {}, {}
        self.texts = None

    # ------------------------------------------------------------ results of inverse operations
    def result(self, I, st, c, call, okval, exempt=False):
        if self.on:
            r = self.known(okval, call)
            if r is not None:
                return r
        return Models.result(self, I, st, c, call, okval, exempt)

    def known(self, okval, call):
        """result of a decoder on an encoded value"""
        if okval.op != "app" or okval.a[0] not in ("unb64", "unhex", "text", "uuid_of", "parse", "radix"):
            return None
        idx = {"radix": 2}.get(okval.a[0], len(okval.a) - 1)
        x = self.C.canon(okval.a[idx])

        def one(y):
            v = self.C.reduce(app(*(okval.a[:idx] + (y,) + okval.a[idx + 1:])))
            if isapp(v, okval.a[0]):
                if okval.a[0] == "text" and self.is_text(y):
                    return ok(y)
                return None
            return ok(v)

        def go(y):
            if y is BOT:
                return BOT
            if y.op == "case":
                alts = [(k, go(v)) for k, v in case_alts(y)]
                return mkcase(y.a[0], alts)
            r = one(y)
            if r is None:
                c2 = mk("call", call.a[0], call.a[1], *([z for z in call.a[2:-1]] + [y])) if call.op == "call" and len(call.a) > 2 else call
                v = app(*(okval.a[:idx] + (y,) + okval.a[idx + 1:]))
                return mkcase(mk("disc", RES, c2), [(0, ok(v)), (1, err(mk("fld", "Err", "0", c2)))])
            return r
        r = go(x)
        return r

    def is_text(self, y):
        """byte term that is the UTF-8 encoding of a text"""
        if self.texts is None:
            self.texts = set()
            runs = {r.ctx: r for r in self.wrun.walk()}
            info = self.C.I.ctxinfo
            for r in runs.values():
                xs = [e for es in r.events.values() for e in es.values() if e.kind == "xml"]
                known = [e.facts or {} for e in xs]
                c = r.ctx
                while xs and c is not None:
                    # what is known where the functions that write are called
                    if c in runs and getattr(runs[c], "callfacts", None):
                        known.append(runs[c].callfacts)
                    c = info[c][0] if c in info else None
                for fs in known:
                    for t, (p, vs) in fs.items():
                        if t.op == "disc" and t.a[1].op == "call" and t.a[1].a[0].endswith("from_utf8") and p and set(vs) == {0}:
                            self.texts.add(general(self.C.canon(t.a[1].a[-1])))
        return general(y) in self.texts

    def eq(self, I, st, c):
        v = Models.eq(self, I, st, c)
        return I.simp(settle(I, v), st.facts) if self.on else v

    def on_doc(self, d):
        pass

    def prot_token(self, y):
        for k, d in self.docs.items():
            for z, i in d.prot.items():
                if z is y or self.C.equal(z, y):
                    return i
        return None

    # ------------------------------------------------------------ iterators over known lists
    def known_list(self, t):
        t = self.C.canon(t) if t.op == "mu" else t
        if t.op == "agg" and t.a[0] == "array":
            return list(t.a[3:])
        if t is LIST0:
            return []
        if isapp(t, "one"):
            return [t.a[1]]
        if isapp(t, "range") and t.a[1].op == "const" and t.a[2].op == "const":
            return Ints(t.a[1].a[1], t.a[2].a[1])
        if isapp(t, "cat") and all(isapp(x, "one") for x in t.a[1:]):
            return [x.a[1] for x in t.a[1:]]
        if isapp(t, "enumerate"):
            r = self.known_list(t.a[1])
            return None if r is None else [tup(cint(i), x) for i, x in enumerate(r)]
        return None

    def known_iter(self, I, st, it):
        if not self.on or it.op != "agg" or it.a[0] != "%it":
            return None
        coll = I.simp(it.a[3], st.facts)
        if coll.op == "ref":
            return None
        adv = I.simp(it.a[5], st.facts)
        if adv.op != "const":
            return None
        xs = self.known_list(coll)
        return None if xs is None else (xs, adv.a[1])

    def next(self, I, st, c, ref, it, sub=()):
        k = self.known_iter(I, st, it)
        if k is None:
            return Models.next(self, I, st, c, ref, it, sub)
        xs, i = k
        filters = any(s.a[3].a[1] != "map" for s in self.stages(it))

        def go(s, n):
            if n >= len(xs):
                return NONE
            if ref is not None:
                self.setp(I, s, ref, agg("%it", 0, ("coll", "stages", "adv"), it.a[3], it.a[4], cint(n + 1)))
            if not filters:
                x = self.run_stages(I, s, c, it, xs[n], tuple(sub) + ("u", n))
                return None if x is None else some(x)
            return self.filtered(I, s, c, it, xs[n], tuple(sub) + ("u", n), lambda s2: go(s2, n + 1))
        return go(st, i)

    def filtered(self, I, st, c, it, x, sub, other):
        """run stages on x: branch on filters; `other` continues with the next item"""
        stages = self.stages(it)

        def step(s, n, x):
            if n == len(stages):
                return some(x)
            kind, f = stages[n].a[3].a[1], stages[n].a[4]
            r = I.call_value(s, c, f, [x], sub + ("st", n))
            if r is None:
                return None
            if kind == "map":
                return step(s, n + 1, r)
            if kind == "inspect":
                return step(s, n + 1, x)
            if kind in ("filter", "find"):
                return I.branch(s, c, r, [(1, lambda s2: step(s2, n + 1, x)), (0, other)], sub + ("b", n))
            return I.branch(s, c, I.disc(r, OPT), [(1, lambda s2: step(s2, n + 1, I.simp(proj(r, ("f", "Some", "0", 1)), s2.facts))),
                                                   (0, other)], sub + ("b", n))
        return step(st, 0, x)

    # ------------------------------------------------------------ byte sources
    def src(self, I, t):
        return agg("%src", 0, ("rest",), self.srcid(self.C.canon(t)))

    def srcid(self, t):
        """handle of a byte sequence (not subject to simplification)"""
        if t.op == "case":
            return mkcase(t.a[0], [(k, self.srcid(v)) for k, v in case_alts(t)])
        k = self.srcs.get(t)
        if k is None:
            k = self.srcs[t] = const("src", len(self.srcs))
            self.srct[k] = t
        return k

    def rest(self, v):
        return fmap(v.a[3] if v.op == "agg" else v, lambda x: self.srct[x])

    def blen(self, x):
        n = txtlen(x)
        if n is not None:
            return n
        if x.op == "const" and x.a[0] in ("bytes", "str"):
            return len(x.a[1]) if x.a[0] == "bytes" else len(x.a[1].encode())
        if isapp(x, "enc"):
            return NUM_SIZES[x.a[2].a[1]]
        l = length(x)
        if l.op == "const":
            return l.a[1]
        if isapp(x, "rand") and x.a[2].op == "const":
            return x.a[2].a[1]
        if isapp(x, "uuid_bytes"):
            return 16
        return None

    def take(self, rest, n):
        """-> (content, remaining) of reading n bytes"""
        items = cat_items(rest)
        n0 = self.C.canon(n)
        if isapp(n0, "exact"):
            n0 = n0.a[-1]
        if n0.op != "const":
            for k in range(1, min(len(items), 40) + 1):
                if length(cat(*items[:k])) is n0:
                    return cat(*items[:k]), cat(*items[k:])
        if n.op == "case":
            raise Mismatch("a length that depends on %s is read" % show(n.a[0], 3))
        if items and items[0].op == "case":
            x = items[0]
            outs = [(k, self.take(cat(v, *items[1:]), n)) for k, v in case_alts(x)]
            return mkcase(x.a[0], [(k, o[0]) for k, o in outs]), mkcase(x.a[0], [(k, o[1]) for k, o in outs])
        n = self.C.canon(n)
        if isapp(n, "exact"):
            n = n.a[-1]
        if n.op == "const":
            need, got = n.a[1], []
            while need > 0:
                if not items:
                    raise (Ended if self.altered else Mismatch)("the reader wants %d more bytes than were written" % need)
                x = items.pop(0)
                l = self.blen(x)
                if l is None:
                    raise Mismatch("the reader takes %d bytes of %s, whose length varies" % (need, show(x, 4)[:200]))
                if l <= need:
                    got.append(x)
                    need -= l
                elif x.op == "const" and (x.a[0] == "bytes" or x.a[0] == "str" and x.a[1].isascii()):
                    got.append(const(x.a[0], x.a[1][:need]))
                    items.insert(0, const(x.a[0], x.a[1][need:]))
                    need = 0
                else:
                    raise Mismatch("the reader takes %d of the %d bytes of %s" % (need, l, show(x, 4)[:200]))
            return self.bytes_of(got), cat(*items)
        for k in range(0, min(len(items), 40) + 1):
            pre = cat(*items[:k])
            if length(pre) is n or (isapp(n, "len") and self.C.equal(n.a[1], pre)):
                return pre, cat(*items[k:])
        raise Mismatch("the reader takes %s bytes where %s follows" % (show(n, 5)[:200], [show(x, 3)[:80] for x in items[:3]]))

    def bytes_of(self, got):
        return cat(*got) if got else LIST0

    def find_src(self, I, st, v):
        """the byte source reachable from a reader value: (root or None, %src term)"""
        seen, out = set(), []
        work = [v]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "agg" and x.a[0] == "%src":
                out.append(x)
                continue
            if x.op == "ref":
                work.append(I.simp(I.load(st, x.a[0], x.a[1]), st.facts))
            for y in x.a:
                if isinstance(y, T) and (y.refs or y.op in ("agg", "case")):
                    work.append(y)
        return out

    def read_into(self, I, st, c, rd, buf, length_, sub=(), name="read_exact"):
        if not self.on:
            return Models.read_into(self, I, st, c, rd, buf, length_, sub, name)
        ref, v = self.place(I, st, rd)
        v = I.simp(v, st.facts)
        length_ = I.simp(length_, st.facts)
        if self.local_rw(I, c, "read") is None:
            if v.op == "case":
                raise Mismatch("the position of the reader depends on %s" % show(v.a[0], 4))
            if v.op == "agg" and v.a[0] == "%src":
                have = I.simp(v.a[3], st.facts)
                have = self.rest(have)
                if name == "read_to_end":
                    content, rest = have, LIST0
                else:
                    try:
                        content, rest = self.take(have, length_)
                    except Ended:
                        return err(mk("sym", "end of input")), mk("sym", "unread")
                self.reads.append((c.span, length_, content))
                self.setp(I, st, ref, agg("%src", 0, ("rest",), self.srcid(rest)))
                return ok(UNIT), I.simp(content, st.facts)
            if v.op == "agg" and v.a[0] == "%gzdec" and name == "read_to_end":
                x = self.C.canon(v.a[3])
                if isapp(x, "gzip"):
                    return ok(UNIT), x.a[1]
            return Models.read_into(self, I, st, c, rd, buf, length_, sub, name)
        srcs = self.find_src(I, st, rd)
        if len(srcs) != 1:
            return Models.read_into(self, I, st, c, rd, buf, length_, sub, name)
        src = srcs[0]
        res, content = Models.read_into(self, I, st, c, rd, buf, length_, sub, name)
        if res is None:
            return None, None
        have = self.rest(I.simp(src.a[3], st.facts))
        try:
            real, rest = (have, LIST0) if name == "read_to_end" else self.take(have, length_)
        except Ended:
            return err(mk("sym", "end of input")), mk("sym", "unread")
        rest = self.srcid(rest)
        real = I.simp(real, st.facts)
        self.reads.append((c.span, length_, real))
        ins = {x for x in subterms(content) if isapp(x, "in")} or {content}
        if len(ins) != 1:
            raise Mismatch("partial reads are not handled at %s" % c.span)
        h = next(iter(ins))
        m = {h: real, src: agg("%src", 0, ("rest",), rest)}
        memo = {}
        for r, x in list(st.mem.items()):
            st.mem[r] = subst(x, m, memo)
        d = res.a[0] if res.op == "case" else None
        if d is not None:
            f = I.assume(st.facts, d, True, [0])
            st.facts = f
            for r, x in list(st.mem.items()):
                st.mem[r] = I.simp(x, f)
        return ok(UNIT), subst(content, m, memo)

    # ------------------------------------------------------------ XML reader
    def reader_state(self, st):
        out = []
        for r, v in st.mem.items():
            if v.op == "agg" and v.a[0] == "%xmlreader":
                out.append((r, v))
        return out

    def tok(self, p):
        return self.docs[p // 1000000].toks[p % 1000000]

    def settle(self, p):
        """skip tokens that produce no event"""
        while True:
            t = self.tok(p)
            if t.kind in ("JUMP",):
                p = p - t.i + t.end
            elif t.kind == "ALTEND":
                p += 1
            else:
                return p

    def event_at(self, I, c, p):
        """-> (event value, next state) as case terms"""
        p = self.settle(p)
        t = self.tok(p)
        base = p - t.i
        nxt = const(POS, p + 1)
        X = self.xmlevent
        if t.kind == "ALT":
            outs = [(k, self.event_at(I, c, base + q)) for k, q in t.coll.items()]
            return mkcase(t.a[0], [(k, o[0]) for k, o in outs]), mkcase(t.a[0], [(k, o[1]) for k, o in outs])
        if t.kind == "STARTDOC":
            return X(I, "StartDocument"), nxt
        if t.kind == "ENDDOC":
            return X(I, "EndDocument"), const(POS, p)
        if t.kind == "WS":
            return X(I, "Characters" if self.docs[p // 1000000].ws_chars else "Whitespace", mk("sym", "indent")), nxt
        if t.kind in ("START", "REC"):
            if t.kind == "REC":
                name, attrs = self.rec_tag(t)
            else:
                name, attrs = t.a
            return X(I, "StartElement", self.oname(I, name), self.attrs(I, attrs), mk("sym", "namespace")), nxt
        if t.kind == "PI":
            return X(I, "ProcessingInstruction", mk("sym", "pi"), NONE), nxt
        if t.kind == "END":
            return X(I, "EndElement", self.oname(I, t.a[0])), nxt
        if t.kind == "TEXT":
            v = t.a[0]
            k = textkind(v)
            ee, en = self.event_at(I, c, p + 1)
            doc = self.docs[p // 1000000]
            chars, blank = "Characters", "Characters" if doc.ws_chars else "Whitespace"
            if t.cdata and not doc.cdata_chars:
                chars = blank = "CData"

            def one(k, v):
                if k.op == "const":
                    return {0: (X(I, chars, v), nxt), 1: (X(I, blank, v), nxt), 2: (ee, en)}[k.a[1]]
                alts = [(0, (X(I, chars, v), nxt)), (2, (ee, en))]
                if k.a[0] == "%Text":
                    alts.insert(1, (1, (X(I, blank, v), nxt)))
                return mkcase(k, [(a, b[0]) for a, b in alts]), mkcase(k, [(a, b[1]) for a, b in alts])

            def go(k, v):
                if k.op == "case":
                    outs = []
                    for a, kk in case_alts(k):
                        vv = v
                        if v.op == "case" and v.a[0] is k.a[0]:
                            vv = dict(case_alts(v))[a]
                        outs.append((a, go(kk, vv)))
                    return mkcase(k.a[0], [(a, o[0]) for a, o in outs]), mkcase(k.a[0], [(a, o[1]) for a, o in outs])
                return one(k, v)
            return go(k, v)
        if t.kind == "RECBODY":
            raise Mismatch("the reader looks into a nested group at %s without the function that reads groups" % t.path)
        raise Mismatch("the reader reads %s outside of a loop over the elements of %s" % (
            "a repeated element" if t.kind == "STAR" else t.kind, t.path))

    def rec_tag(self, t):
        d = [x for x in self.docs.values()]
        for doc in d:
            for q, x in enumerate(doc.toks):
                if x.kind == "START" and x.depth == "root":
                    return x.a
        raise Mismatch("nested group without a template")

    def xmlevent(self, I, vname, *fields):
        p = [a for a in I.adts if a.endswith("events::XmlEvent") and "reader" in a][0]
        for i, v in enumerate(I.adts[p]["v"]):
            if v["n"] == vname:
                names = [f["n"] for f in v["f"]]
                fs = list(fields) + [mk("sym", "xml", n) for n in names[len(fields):]]
                return agg(p, i, names, *fs)
        raise AnalysisError("XmlEvent::" + vname)

    def oname(self, I, name):
        p = [a for a in I.adts if a.endswith("name::OwnedName")]
        p = p[0] if p else "xml::name::OwnedName"
        return agg(p, 0, ("local_name", "namespace", "prefix"), name, NONE, NONE)

    def attrs(self, I, lst):
        xs = self.known_list(lst)
        if xs is None:
            raise Mismatch("attributes are not a fixed list: %s" % show(lst, 4))
        pairs = [(x.a[3], x.a[4]) for x in xs]
        if self.more_attrs:
            pairs = self.more_attrs(pairs)
        return agg("array", 0, (), *[agg("xml::attribute::OwnedAttribute", 0, ("name", "value"), self.oname(I, n), v) for n, v in pairs])

    # ------------------------------------------------------------ recursion
    def pre(self, I, st, c, kind, path):
        r = Models.pre(self, I, st, c, kind, path)
        if r is not None or not self.on or kind != "local":
            return r
        for a in c.args:
            if a.op != "ref":
                continue
            ref, v = self.place(I, st, a)
            if v.op == "agg" and v.a[0] == "%xmlreader":
                s = I.simp(v.a[3], st.facts)
                if s.op == "const" and s.a[0] == POS:
                    p = s.a[1]
                    t = self.tok(p)
                    if t.kind == "RECBODY":
                        return self.recursion(I, st, c, path, ref, v, p, t)
                    if p % 1000000 > 0:
                        q = self.tok(p - 1)
                        if q.kind == "START":
                            self.templates.setdefault(p - 1, []).append(path)
                break
        return r

    def recursion(self, I, st, c, path, ref, v, p, t):
        call = t.a[0]
        g = None
        root = None
        doc = self.docs[p // 1000000]
        for q, x in enumerate(doc.toks):
            if x.kind == "START" and x.depth == "root":
                root = q
        fns = self.templates.get(p - p % 1000000 + root, []) if root is not None else []
        if path not in fns:
            raise Mismatch("nested groups are read by %s, the outermost group by %s" % (path, fns))
        w = doc.rec_value(call, doc.toks[p % 1000000 - 1])
        if w is None:
            raise Mismatch("the nested group that is written is not identified")
        self.rec_used.append((p, path, c.span))
        I.rec_differs(st, path, c.site[0], c.args)
        self.setp(I, st, ref, agg("%xmlreader", 0, ("state",), const(POS, p + 1)))
        return (ok(agg_parent(I, w)),)


def agg_parent(I, w):
    return w


HC = {}


def hc(*names):
    def deco(f):
        for n in names:
            for x in n.split():
                HC[x] = f
        return f
    return deco


def wrap(m):
    """dispatch of the handlers above before the general ones"""
    base = m.external2

    def external2(I, st, c, key):
        if m.on:
            h = HC.get(key)
            if h is not None:
                r = h(m, I, st, c)
                if r is not NotImplemented:
                    return r
        return base(I, st, c, key)
    m.external2 = external2


@hc("Cursor::new")
def _(m, I, st, c):
    x = m.C.canon(m.pv(I, st, c.args[0]))
    return m.src(I, x)


@hc("Read::read")
def _(m, I, st, c):
    if m.local_rw(I, c, "read"):
        return NotImplemented
    ref, v = m.place(I, st, c.args[0])
    if not (v.op == "agg" and v.a[0] == "%src"):
        return NotImplemented
    bref, old = m.place(I, st, c.args[1])
    call = mk("call", "Read::read", c.site, mk("sym", "src"))
    n = mk("fld", "Ok", "0", call)
    m.ev(I, st, c, "xfer", "read", [app("got", call), call])
    if bref is not None:
        m.setp(I, st, bref, app("part", old, n, call))
    st.facts = I.assume(st.facts, mk("disc", RES, call), True, [0])    # reading what was written succeeds
    return ok(n)


@hc("EventReader::new EventReader::new_with_config ParserConfig::create_reader")
def _(m, I, st, c):
    i = 0
    cfg = app("cfg")
    if len(c.args) > 1:
        if c.key.startswith("ParserConfig"):
            cfg, i = I.pure(st, c.args[0]), 1
        else:
            cfg = I.pure(st, c.args[1])
    src = m.C.canon(m.pv(I, st, c.args[i]))
    rest = None
    if src.op == "agg" and src.a[0] == "%src":
        rest = m.rest(I.simp(src.a[3], st.facts))
        ref, _v = m.place(I, st, c.args[i])
        if ref is not None:
            m.setp(I, st, ref, agg("%src", 0, ("rest",), m.srcid(LIST0)))
    else:
        rest = src
    if rest is None or isapp(rest, "in"):
        return NotImplemented
    doc = m.open_doc(I, rest, cfg, st)
    return agg("%xmlreader", 0, ("state",), const(POS, doc * 1000000))


@hc("EventReader::next")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    v = I.simp(v, st.facts)
    if not (v.op == "agg" and v.a[0] == "%xmlreader"):
        return NotImplemented
    s = I.simp(v.a[3], st.facts)

    def one(x):
        if x.op == "const" and x.a[0] == POS:
            return m.event_at(I, c, x.a[1])
        raise Mismatch("the position of the XML reader is not known")

    def go(x):
        if x.op == "case":
            outs = [(k, go(y)) for k, y in case_alts(x)]
            return mkcase(x.a[0], [(k, o[0]) for k, o in outs]), mkcase(x.a[0], [(k, o[1]) for k, o in outs])
        return one(x)
    e, n = go(s)
    m.setp(I, st, ref, agg("%xmlreader", 0, ("state",), n))
    return fmap(e, ok)


@hc("SynchronousStreamCipher::process")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if not (v.op == "agg" and v.a[0] == "%salsa"):
        return NotImplemented
    x = m.C.canon(m.pv(I, st, c.args[1]))
    pos = [I.simp(r.a[3], st.facts) for _, r in m.reader_state(st)]
    toks = []

    def one(y):
        if is_empty(y):
            return y
        if not isapp(y, "salsa"):
            m.salsa.append((None, c.span, "a value that was stored unencrypted is passed through the stream cipher: %s" % show(y, 4)[:200]))
            return app("salsa", v, y)
        w = y.a[1]
        if not (w.op == "agg" and m.C.equal(w.a[3], v.a[3]) and m.C.equal(w.a[4], v.a[4])):
            m.salsa.append((None, c.span, "the stream cipher key or nonce differs: written with %s, read with %s" % (show(w, 4)[:200], show(v, 4)[:200])))
            return app("salsa", v, y)
        toks.append(y)
        return y.a[2]
    out = fmap(x, one)
    for y in toks:
        i = m.prot_token(y)
        okk = i is not None and all(p.op == "const" and p.a[1] % 1000000 in (i + 1, i + 2) or
                                    p.op == "case" and all(q.op == "const" and q.a[1] % 1000000 in (i + 1, i + 2) for _, q in flat(p)) for p in pos)
        m.salsa.append((i, c.span, None if okk else "a protected value is decrypted at another position of the document than it was encrypted at"))
        old = v.a[5]
        if old.op == "const" and old.a[0] == "sp" and old.a[1] == i:
            m.salsa.append((i, c.span, "a protected value is passed through the stream cipher twice"))
        v = agg("%salsa", 0, v.a[2], v.a[3], v.a[4], const("sp", i))
    if ref is not None:
        m.setp(I, st, ref, v)
    m.setp(I, st, c.args[2], out)
    return UNIT


def settle(I, v):
    def one(y):
        if isapp(y, "not"):
            return not_(known_eq(I, y.a[1]))
        return known_eq(I, y)
    return fmap(v, one)


def flat(t, out=None):
    out = [] if out is None else out
    if t.op == "case":
        for k, v in case_alts(t):
            flat(v, out)
    else:
        out.append((None, t))
    return out


@hc("ReadBytesExt::read_u8 ReadBytesExt::read_u16 ReadBytesExt::read_u32 ReadBytesExt::read_u64 ReadBytesExt::read_i32 ReadBytesExt::read_i64 ReadBytesExt::read_i16 ReadBytesExt::read_i8")
def _(m, I, st, c):
    from .models import SIZES, endian
    t = c.fn["name"].split("_")[1]
    e = "LE" if t in ("u8", "i8") else endian(c)
    res, content = m.read_into(I, st, c, c.args[0], None, cint(SIZES[t]))
    if res is None:
        return None
    v = m.C.canon(app("num", cstr(e), cstr(t), content))
    from .models import split2
    return split2(I, st, res, RES, lambda i, p: ok(v) if i == 0 else err(p))


@hc("num::from_le_bytes num::from_be_bytes u16::from_le_bytes u32::from_le_bytes u64::from_le_bytes u16::from_be_bytes u32::from_be_bytes u64::from_be_bytes")
def _(m, I, st, c):
    r = HANDLERS[c.key](m, I, st, c)
    return m.C.canon(r) if isinstance(r, T) else r


@hc("Vec::is_empty String::is_empty slice::is_empty str::is_empty")
def _(m, I, st, c):
    r = HANDLERS[c.key](m, I, st, c)
    return settle(I, r) if isinstance(r, T) and m.C is not None else r


@hc("str::contains str::starts_with str::ends_with Range::contains RangeInclusive::contains")
def _(m, I, st, c):
    return NotImplemented


def known_eq(I, t):
    """settle equations between values that are equal up to call sites, or can never be equal"""
    C = I.models.C
    if not (isapp(t, "eq") and C):
        return t
    a, b = C.canon(t.a[1]), C.canon(t.a[2])
    if a.op == "const" or b.op == "const":
        x, k = (b, a) if a.op == "const" else (a, b)
        if k.a[0] == "int" and k.a[1] == 0 and nonzero(x):
            return FALSE
        return eq(a, b)
    if a is b or C.equal(a, b):
        return TRUE
    return t


def nonzero(x):
    """length terms that are never zero"""
    if isapp(x, "exact", "cast"):
        return nonzero(x.a[-1])
    if x.op == "case":
        return all(nonzero(v) for _, v in case_alts(x))
    if isapp(x, "len"):
        return nonempty(x.a[1])
    return x.op == "const" and x.a[1] != 0


def nonempty(x):
    if x.op == "const":
        return len(x.a[1]) > 0
    if isapp(x, "gzip", "xmlout", "sha256", "enc", "cbcenc"):
        return True
    if isapp(x, "cat"):
        return any(nonempty(y) for y in x.a[1:])
    if x.op == "case":
        return all(nonempty(v) for _, v in case_alts(x))
    return False


class CInterp(Interp):
    """interpreter whose loops follow known input"""
    composing = False

    def same_value(self, x, y):
        C = self.models.C
        return C is not None and C.equal(x, y)

    def binop(self, fr, st, op, a, b, bb, i, sp, r):
        v = Interp.binop(self, fr, st, op, a, b, bb, i, sp, r)
        if self.composing and op in ("Eq", "Ne"):
            v = settle(self, v)
        elif self.composing and op in ("Lt", "Le", "Gt", "Ge"):
            v = self.known_order(v)
        return v

    def known_order(self, v):
        """settle comparisons of a number with the length of known data that is at least so long"""
        if isapp(v, "not"):
            return not_(self.known_order(v.a[1]))
        if not isapp(v, "lt") or not self.models.C:
            return v
        a, b = v.a[1], v.a[2]
        for x, k, less in ((a, b, FALSE), (b, a, TRUE)):
            if k.op == "const" and isapp(x, "len"):
                n = sum(self.models.blen(y) or 0 for y in cat_items(self.models.C.canon(x.a[1])))
                if n >= k.a[1] + (less is TRUE):
                    return less
        return v

    # ------------------------------------------------------------ positions in a state
    def tracked(self, st):
        """-> list of (root, path-getter, value) of input positions"""
        out = []
        for r, v in st.mem.items():
            if v.op != "agg":
                continue
            self.tr(r, v, out, 0)
        return out

    def tr(self, r, v, out, d):
        tag = v.a[0]
        if tag == "%xmlreader":
            out.append((r, tag, v.a[3]))
        elif tag == "%src":
            out.append((r, tag, v.a[3]))
        elif tag == "%it":
            if v.a[5].op == "const":
                out.append((r, tag, v.a[5]))
        elif d < 3 and isinstance(tag, str):
            for x in v.a[3:]:
                if x.op == "agg":
                    self.tr(r, x, out, d + 1)

    def key(self, st):
        k = []
        for r, tag, v in self.tracked(st):
            if tag == "%xmlreader":
                if v.op != "const":
                    return None
                k.append((str(r), self.models.settle(v.a[1])))
            elif tag == "%src":
                if v.op == "case":
                    return None
                t = self.models.srct[v]
                k.append((str(r), -sum(len(x.a[1]) if x.op == "const" and x.a[0] == "bytes" else 1 for x in cat_items(t))))
            else:
                k.append((str(r), v.a[1]))
        k.sort()
        return (sum(v for _, v in k), tuple(k))

    def splits(self, st):
        """partition a state so that every input position is a constant"""
        for r, tag, v in self.tracked(st):
            if tag == "%it":
                continue
            sel = None
            v2 = self.simp(v, st.facts)
            if v2 is not v:
                return self.splits(State({q: self.simp(x, st.facts) for q, x in st.mem.items()}, st.facts))
            if v.op == "case":
                sel = v.a[0]
                keys = v.a[1]
            elif tag == "%src":
                its = cat_items(self.models.srct[v])
                if its and its[0].op == "case" and any(is_empty(y) or isapp(y, "cat") for _, y in case_alts(its[0])):
                    alts = [(k, cat(y, *its[1:])) for k, y in case_alts(its[0])]
                    out = []
                    named = [k for k, _ in alts if k != "*"]
                    for k, y in alts:
                        f = self.assume(st.facts, its[0].a[0], False, named) if k == "*" else self.restrict(st.facts, its[0].a[0], frozenset([k]))
                        if f is None:
                            continue
                        sub = {v: self.models.srcid(y)}
                        s2 = State({q: self.simp(subst(x, sub) if q == r else x, f) for q, x in st.mem.items()}, f)
                        out += self.splits(s2)
                    return out
            elif tag == "%xmlreader" and v.op == "const":
                t = self.models.tok(self.models.settle(v.a[1]))
                if t.kind == "ALT":
                    return self.split_alt(st, r, v, t)
            if sel is not None:
                out = []
                named = [k for k in keys if k != "*"]
                for k in keys:
                    if k == "*":
                        f = self.assume(st.facts, sel, False, named)
                    else:
                        f = self.restrict(st.facts, sel, frozenset([k]))
                    if f is None:
                        continue
                    s2 = State({q: self.simp(x, f) for q, x in st.mem.items()}, f)
                    out += self.splits(s2)
                return out
        return [st]

    def split_alt(self, st, r, v, t):
        p = self.models.settle(v.a[1])
        base = p - t.i
        sel = t.a[0]
        out = []
        named = [k for k in t.coll if k != "*"]
        for k, q in t.coll.items():
            f = self.assume(st.facts, sel, False, named) if k == "*" else self.restrict(st.facts, sel, frozenset([k]))
            if f is None:
                continue
            mem = {a: self.simp(x, f) for a, x in st.mem.items()}
            s2 = State(mem, f)
            self.setpos(s2, r, v, const(POS, base + q))
            out += self.splits(s2)
        return out

    def setpos(self, st, r, old, new):
        o = agg("%xmlreader", 0, ("state",), old)
        n = agg("%xmlreader", 0, ("state",), new)
        st.mem[r] = subst(st.mem[r], {o: n})

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, sub, body, edges):
        if self.composing:
            outside = [p for p in ([-1] if h == 0 else []) + fr.cfg.pred[h] if p not in body]
            E = self.join(fr, h, self.incoming(fr, h, edges, outside), "e")
            if E is None:
                return
            for r, v in E.mem.items():
                E.mem[r] = self.simp(v, E.facts)
            if self.unroll(fr, h, sub, body, edges, E):
                return
        Interp.loop(self, fr, h, sub, body, edges)

    def unroll(self, fr, h, sub, body, edges, E):
        exits = {}
        backs = self.drive(fr, h, sub, body, edges, [E], exits, None)
        if backs is None:
            return False
        for k in [k for k in edges if k[0] in body]:
            del edges[k]
        for k, l in exits.items():
            edges[k] = l[0] if len(l) == 1 else list(enumerate(l))
        return True

    def drive(self, fr, h, sub, body, edges, starts, exits, stop):
        """iterate the loop from the given states; stop: position that ends the iteration of a repetition"""
        work, done, ended = {}, set(), []
        n = [0]

        def push(st):
            for s in self.splits(st):
                k = self.key(s)
                if k is None:
                    raise AnalysisError("input position not constant at %s: %s" % (fr.fn, [show(v, 5)[:200] for _, _, v in self.tracked(s) if v.op != "const"]))
                if stop is not None and self.at(s, stop):
                    ended.append(s)
                    continue
                if k in done:
                    raise AnalysisError("loop of %s returns to a position" % fr.fn)
                work.setdefault(k, []).append(s)
        for s in starts:
            push(s)
        base = fr.it
        hn = (h,) + base if base else h
        while work:
            k = min(work)
            ss = work.pop(k)
            n[0] += 1
            tag = ("u", h, n[0]) + ((("s",) + stop) if stop else ())
            if len(ss) == 1:
                st = ss[0]
            else:
                sel = mk("M", fr.ctx, "%dU%s" % (h, base + tag))
                st, g = self.merge(sel, list(enumerate(ss)))
                fr.run.guards[sel] = g
            star = self.star_at(st)
            if star is not None:
                s2 = self.star(fr, h, sub, body, edges, st, star, exits)
                if s2 is None:
                    return None
                push(s2)
                continue
            done.add(k)
            fr.it = base + tag
            for e in [e for e in edges if e[0] in body]:
                del edges[e]
            edges[("H", h)] = st.copy()
            try:
                self.region(fr, sub, h, edges)
            finally:
                fr.it = base
            bk = self.incoming(fr, h, edges, [p for p in fr.cfg.pred[h] if p in body])
            for (p, s), v in list(edges.items()):
                if p in body and s not in body:
                    l = [x for _, x in v] if isinstance(v, list) else [v]
                    exits.setdefault((p, s), []).extend(l)
            for _, b in bk:
                for s in self.splits(b):
                    k2 = self.key(s)
                    if k2 == k:
                        return None      # no input consumed: an ordinary loop
                push(b)
            if n[0] > 3000:
                raise AnalysisError("loop of %s does not end" % fr.fn)
        return ended

    def at(self, st, stop):
        r, p = stop
        for r2, tag, v in self.tracked(st):
            if tag == "%xmlreader" and str(r2) == r and v.op == "const" and self.models.settle(v.a[1]) == p:
                return True
        return False

    def star_at(self, st):
        for r, tag, v in self.tracked(st):
            if tag == "%xmlreader" and v.op == "const":
                p = self.models.settle(v.a[1])
                t = self.models.tok(p)
                if t.kind == "STAR":
                    return r, v, p, t
        return None

    def star(self, fr, h, sub, body, edges, E, star, exits):
        r0, v0, p, t = star
        base = p - t.i
        hn = ("star", h, p) + fr.it

        def mkmu_for(root):
            return lambda path: mk("mu", fr.ctx, hn, root, path)
        E = E.copy()
        self.setpos(E, r0, v0, const(POS, p + 1))
        H = E.copy()
        base_it = fr.it
        for it in range(30):
            ex = {}
            fr.it = base_it + ("*", p)
            try:
                ended = self.drive(fr, h, sub, body, edges, [H.copy()], ex, (str(r0), base + t.end))
            finally:
                fr.it = base_it
            if ended is None:
                return None
            if not ended:
                raise Mismatch("reading an element of %s never succeeds" % t.path)
            if len(ended) == 1:
                B = ended[0]
            else:
                sel = mk("M", fr.ctx, "%dS%s" % (h, hn))
                B, g = self.merge(sel, list(enumerate(ended)))
                fr.run.guards[sel] = g
            Bm = dict(B.mem)
            s2 = State(Bm, B.facts)
            self.setpos(s2, r0, const(POS, base + t.end), const(POS, p + 1))
            N, fin, changed = {}, {}, False
            for r in H.mem:
                hv = H.mem[r]
                bv = self.simp(s2.mem.get(r, BOT), B.facts)
                if bv is BOT:
                    continue
                fin[r] = bv
                w = self.widen(hv, bv, mkmu_for(r))
                N[r] = w
                if w is not hv:
                    changed = True
            for r, bv in s2.mem.items():
                if r[0] == "o" and r not in H.mem and bv is not r[1]:
                    N[r] = self.widen(r[1], self.simp(bv, B.facts), mkmu_for(r))
                    changed = True
            if not changed:
                break
            for r in H.mem:
                if r not in N:
                    N[r] = H.mem[r]
            H = State(N, E.facts)
        else:
            raise AnalysisError("repetition at %s does not stabilise" % t.path)
        for e, l in ex.items():
            exits.setdefault(e, []).extend(l)
        mus = {}
        for r, hv in H.mem.items():
            if r in fin:
                self.record_mus(hv, E.mem.get(r, BOT), fin[r], mus, mkmu_for(r))
        self.mus.update(mus)
        fr.run.mus.update(mus)
        closed = {}
        for m, (e, b) in mus.items():
            closed[m] = self.close(m, e, b, t)
        out = State({}, E.facts)
        memo = {}
        for r, hv in H.mem.items():
            out.mem[r] = subst(hv, closed, memo)
        self.setpos(out, r0, const(POS, p + 1), const(POS, base + t.end + 1))
        return out

    def close(self, m, e, b, t):
        """value of a fold over all members of the collection"""
        C = self.models.C
        coll = t.a[0]
        b = C.canon(b)
        el = mk("elem", coll, "*")
        items = cat_items(b)
        if items and items[0] is m and not any(m in subterms(x) for x in items[1:]):
            body = items[1:]
            if len(body) == 1 and body[0].op == "case" and all(isapp(y, "one") for _, y in case_alts(body[0])):
                body = [app("one", mkcase(body[0].a[0], [(k, y.a[1]) for k, y in case_alts(body[0])]))]
            if len(body) == 1 and isapp(body[0], "one"):
                return cat(e, app("listof", coll, body[0].a[1]))
            return cat(e, app("star", coll, cat(*body)))
        if isapp(b, "ins") and b.a[1] is m and not any(m in subterms(x) for x in b.a[2:]):
            if is_empty(e):
                return app("mapof", coll, b.a[2], b.a[3])
            return app("mapinto", e, coll, b.a[2], b.a[3])
        return app("fold", e, coll, subst(b, {m: mk("sym", "acc")}))


def open_doc(m, I, rest, cfg, st):
    """start reading an XML document from a byte term"""
    rest = m.C.canon(rest)
    if rest.op == "case":
        # the same document, stored in alternative ways
        outs = []
        for k, v in case_alts(rest):
            f = I.restrict(st.facts, rest.a[0], frozenset([k])) if k != "*" else st.facts
            outs.append(v)
        raise Mismatch("the document depends on %s" % show(rest.a[0], 3))
    k = len(m.docs) + 1
    w = writer_config(m)
    d = Doc(m.C, rest, w["perform_indent"])
    d.ws_chars, d.cdata_chars = reader_config(cfg)
    if m.layout:
        from .layout import variant
        m.changed += variant(d, Tok, m.layout)
    m.docs[k] = d
    m.on_doc(d)
    return k


def truth(d, name, default):
    v = d.get(name)
    if v is None:
        return default
    if v.op == "const":
        return bool(v.a[1])
    raise Mismatch("XML setting %s depends on %s" % (name, show(v, 3)))


def writer_config(m):
    """settings of the XML writers; only layout may differ from the defaults"""
    out = []
    for r in m.wrun.walk():
        for bb, es in r.events.items():
            for e in es.values():
                if e.kind != "xmlwriter":
                    continue
                d = xml_config(e.args[0])
                if d is None:
                    raise Mismatch("the configuration of the XML writer is not known: %s" % show(e.args[0], 4))
                for k in ("perform_escaping", "keep_element_names_stack"):
                    if not truth(d, k, True):
                        raise Mismatch("the XML writer is configured with %s = false" % k)
                for k in ("indent_string", "line_separator"):
                    v = d.get(k)
                    if v is not None and not (v.op == "const" and str(v.a[1]).strip(" \t\r\n") == ""):
                        raise Mismatch("the XML writer is configured with %s = %s" % (k, show(v, 3)))
                d["perform_indent"] = truth(d, "perform_indent", False)
                out.append(d)
    if len({d["perform_indent"] for d in out}) != 1:
        raise Mismatch("the XML writers are configured differently")
    return out[0]


def reader_config(cfg):
    """-> whether white space is reported as characters"""
    d = xml_config(cfg)
    if d is None:
        raise Mismatch("the configuration of the XML reader is not known: %s" % show(cfg, 4))
    for k, want in (("trim_whitespace", False), ("coalesce_characters", True), ("ignore_comments", True), ("ignore_end_of_stream", False)):
        if truth(d, k, want) != want:
            raise Mismatch("the XML reader is configured with %s = %s" % (k, not want))
    return truth(d, "whitespace_to_characters", False), truth(d, "cdata_to_characters", False)


CModels.open_doc = open_doc


# ---------------------------------------------------------------------- more operations on known values
def on_known(I, m, v):
    """slices of sequences whose parts are known"""
    def one(y):
        try:
            if isapp(y, "slice_from") and y.a[2].op == "const":
                return m.take(m.C.canon(y.a[1]), y.a[2])[1]
            if isapp(y, "take") and y.a[2].op == "const":
                return m.take(m.C.canon(y.a[1]), y.a[2])[0]
            if isapp(y, "slice") and y.a[2].op == "const" and y.a[3].op == "const":
                r = m.take(m.C.canon(y.a[1]), y.a[2])[1]
                return m.take(r, cint(y.a[3].a[1] - y.a[2].a[1]))[0]
        except Mismatch:
            pass
        return y
    return fmap(v, one)


@hc("slice::get str::get")
def _(m, I, st, c):
    from .models import const_range, sliceof
    v = m.C.canon(m.pv(I, st, c.args[0]))
    r = const_range(I.simp(c.args[1], st.facts)) if len(c.args) > 1 else None
    n = m.blen(v)
    if r is None or n is None or (isapp(v, "cat") and txtlen(v) is None and any(x.op == "const" and x.a[0] == "str" for x in v.a[1:])):
        return NotImplemented
    a, b = r[0], n if r[1] is None else r[1]
    if not 0 <= a <= b <= n:
        return NONE
    return some(on_known(I, m, app("slice", v, cint(a), cint(b))))


@hc("Index::index")
def _(m, I, st, c):
    r = HANDLERS["Index::index"](m, I, st, c)
    return on_known(I, m, r) if isinstance(r, T) else r


@hc("slice::starts_with str::starts_with slice::ends_with str::ends_with")
def _(m, I, st, c):
    a, b = m.C.canon(m.pv(I, st, c.args[0])), m.C.canon(m.pv(I, st, c.args[1]))
    x, y = cat_items(a), cat_items(b)
    if c.key.endswith("ends_with"):
        x, y = x[::-1], y[::-1]
    if len(x) >= len(y) and all(p is q or m.C.equal(p, q) for p, q in zip(x, y)):
        return TRUE
    return NotImplemented


@hc("slice::strip_prefix str::strip_prefix")
def _(m, I, st, c):
    a, b = m.C.canon(m.pv(I, st, c.args[0])), m.C.canon(m.pv(I, st, c.args[1]))
    x, y = cat_items(a), cat_items(b)
    if len(x) >= len(y) and all(p is q or m.C.equal(p, q) for p, q in zip(x, y)):
        return some(cat(*x[len(y):]))
    return HANDLERS[c.key](m, I, st, c)


@hc("Encryptor::encrypt Decryptor::decrypt")
def _(m, I, st, c):
    r = HANDLERS[c.key](m, I, st, c)
    st.facts = I.assume(st.facts, I.disc(r, RES), True, [0]) or st.facts    # the data is what the writer encrypted
    return r


def compose(W, writer, wargs, reader, make_args, sink="writer", alter=None, more_attrs=None, layout=None):
    """analyse `writer`, then `reader` on what was written -> Composition"""
    general = {}
    for _ in range(6):
        R = compose1(W, writer, reader, make_args, sink, general, alter, more_attrs, layout)
        new = R.I.differs - set(general)
        if not new:
            return R
        for k in new:
            general[k] = True
    raise AnalysisError("arguments of recursive calls do not settle")


def compose1(W, writer, reader, make_args, sink, general, alter=None, more_attrs=None, layout=None):
    m = CModels()
    I = CInterp(W.D, m)
    I.general = dict(general)
    wrap(m)
    R = Composition()
    R.I, R.m = I, m
    R.wrun = m.wrun = I.analyse(writer)
    C = R.C = m.C = Canon(I)
    R.general = general
    if I.differs - set(general):
        return R
    run = R.wrun
    f = I.assume(run.exit.facts, I.disc(run.ret, RES), True, [0])
    if f is None:
        raise AnalysisError("%s never succeeds" % writer)
    R.okfacts = f
    w = I.simp(run.exit.mem[("p", sink)], f)
    R.raw = w
    items = cat_items(C.canon(w))
    if not items or items[0] is not mk("sym", sink):
        raise Mismatch("the output does not start where the writer stood")
    R.out = cat(*items[1:])
    if alter:
        R.out = alter(R)
        m.altered = True
    m.more_attrs, m.layout = more_attrs, layout
    m.on = I.composing = True
    R.rargs, mem = make_args(I, m, R)

    def pre(st):
        st.mem.update(mem)
        I.sticky = set(getattr(R, "seed", ()))
        for t, (pos, vals) in getattr(R, "seed", {}).items():
            st.facts = I.assume(st.facts, t, pos, vals)
    R.rrun = I.analyse(reader, args=R.rargs, pre=pre)
    return R


class Composition:
    pass


def compose_db(W, alter=None, more_attrs=None, layout=None):
    save, open_ = W.method("Database", "save"), W.method("Database", "open")

    def mk_args(I, m, R):
        ref = mk("ref", ("p", "reader"), ())
        key = mk("fld", None, "composite_key", mk("sym", "self"))
        return [ref, key], {("p", "reader"): m.src(I, R.out)}
    return compose(W, save, None, open_, mk_args, alter=alter, more_attrs=more_attrs, layout=layout)
