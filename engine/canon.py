"""Normal forms of value terms.

A list-valued term is turned into a sequence of items; a loop that appends to a
list becomes `star(collection, element, items)`, an alternative that depends on
control flow becomes `alt(selector, ...)` where the selector is a value of the
program (an enum discriminant, a comparison) instead of a merge point.  Inverse
pairs of encodings cancel."""
from .terms import *
from . import terms as TT
from .interp import Facts, NOFACTS

INV = {("unb64", "b64"), ("unhex", "hex"), ("unhex", "hexu"), ("gunzip", "gzip"), ("uuid_of", "uuid_bytes"), ("uuid_bytes", "uuid_of"),
       ("unsec", "sec"), ("text", "utf8")}
NUM_SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}
INTS = set(NUM_SIZES) | {"usize", "isize", "u128", "i128"}
TT.ADTS  # populated by the interpreter
TEXTKINDS = {"%Text": {"v": [{"n": "Chars", "d": 0, "f": []}, {"n": "Space", "d": 1, "f": []}, {"n": "Empty", "d": 2, "f": []}], "local": False},
             "%TextB": {"v": [{"n": "Chars", "d": 0, "f": []}, {"n": "Empty", "d": 2, "f": []}], "local": False}}


def isapp(t, *names):
    return t.op == "app" and t.a[0] in names


def is_empty(t):
    return t is LIST0 or (t.op == "const" and t.a[0] in ("str", "bytes") and len(t.a[1]) == 0)


def cat_items(t):
    if isapp(t, "cat"):
        return list(t.a[1:])
    return [] if is_empty(t) else [t]


class Canon:
    def __init__(self, I):
        self.I = I
        self.memo = {}
        self.busy = set()
        self.stars = {}
        I.adts.update(TEXTKINDS)
        TT.ADTS.update(TEXTKINDS)

    # ------------------------------------------------------------ selectors
    def resolve(self, sel, alts):
        """case over a merge point -> nested case over program values"""
        g = self.I.guards.get(sel)
        if not g:
            return None
        fs = []
        for k, v in alts:
            if k not in g:
                return None
            fs.append((k, v, g[k]))
        return self.tree(fs, set())

    def facts_sets(self, f):
        return {t: v for t, v in f.items() if t.op != "M"}

    def tree(self, fs, used):
        if len(fs) == 1 or all(v is fs[0][1] for _, v, _ in fs):
            return fs[0][1]
        cand = None
        for t in fs[0][2]:
            if t.op == "M" or t in used:
                continue
            if not all(t in f and f[t][0] or (t in f and self.I.domain(t) is None) for _, _, f in fs):
                continue
            sets = [f[t] for _, _, f in fs]
            if all(s == sets[0] for s in sets):
                continue
            pos = [s[1] if s[0] else None for s in sets]
            # pairwise equal or disjoint
            okk = True
            for i in range(len(sets)):
                for j in range(i):
                    a, b = sets[i], sets[j]
                    if a == b:
                        continue
                    if a[0] and b[0]:
                        if a[1] & b[1]:
                            okk = False
                    elif a[0] != b[0]:
                        p, n = (a, b) if a[0] else (b, a)
                        if p[1] - n[1]:
                            okk = False
                    else:
                        okk = False
            if not okk:
                continue
            key = (t.op != "disc", t.id)
            if cand is None or key < cand[0]:
                cand = (key, t)
        if cand is None:
            return None
        t = cand[1]
        groups = {}
        for k, v, f in fs:
            groups.setdefault(f[t], []).append((k, v, f))
        out = []
        neg = None
        for (p, vs), sub in groups.items():
            x = self.tree(sub, used | {t})
            if x is None:
                return None
            if p:
                for val in sorted(vs, key=str):
                    out.append((val, x))
            else:
                out.append(("*", x))
        out.sort(key=lambda kv: (kv[0] == "*", str(kv[0])))
        return self.factor(mkcase(t, out))

    # ------------------------------------------------------------ terms
    def canon(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op in ("const", "sym", "bot", "M", "next", "ref"):
            return t
        self.busy.add(t)
        r = self._canon(t)
        self.busy.discard(t)
        self.memo[t] = r
        return r

    def _canon(self, t):
        if t.op == "mu":
            s = self.star(t)
            return t if s is None else s
        if t.op == "case":
            alts = [(k, self.canon(v)) for k, v in case_alts(t)]
            sel = t.a[0]
            if sel.op == "M":
                r = self.resolve(sel, alts)
                if r is not None:
                    return self.factor(r) if r.op == "case" else r
                return self.factor(mkcase(sel, alts))
            return self.factor(mkcase(self.canon(sel), alts))
        if t.op == "call":
            return t
        n = tuple(self.canon(x) if isinstance(x, T) else x for x in t.a)
        r = t if n == t.a else rebuild(t.op, n)
        if r.op == "app":
            r = self.reduce(r)
            if isapp(r, "cat"):
                r = self.cbc_fold(r)
        return r

    def factor(self, t):
        """case of sequences -> common prefix, alternatives, common suffix"""
        if t.op != "case":
            return t
        alts = case_alts(t)
        seqs = [cat_items(v) for _, v in alts]
        if not any(isapp(v, "cat") for _, v in alts):
            return t
        if not all(isapp(v, "cat", "list", "star", "one", "xmlout", "xmlrec", "enc") or is_empty(v) or v.op in ("const", "mu", "app", "case") for _, v in alts):
            return t
        n = min(len(s) for s in seqs)
        i = 0
        while i < n and all(s[i] is seqs[0][i] for s in seqs):
            i += 1
        j = 0
        while j < n - i and all(s[-1 - j] is seqs[0][-1 - j] for s in seqs):
            j += 1
        if i == 0 and j == 0:
            return t
        mid = [(k, s[i:len(s) - j]) for (k, _), s in zip(alts, seqs)]
        pre, post = seqs[0][:i], seqs[0][len(seqs[0]) - j:]
        # keep start and end tags of an element on the same side
        for m in self.depths(mid):
            if m < 0 and pre:
                d = m
                while pre and d < 0:
                    x = pre.pop()
                    d += self.depth1(x)
                    mid = [(k, [x] + s) for k, s in mid]
                break
        dm = max(self.depths(mid))
        while dm > 0 and post:
            x = post.pop(0)
            dm += self.depth1(x)
            mid = [(k, s + [x]) for k, s in mid]
        sel = t.a[0]
        m = mkcase(sel, [(k, self.nested(cat(*s))) for k, s in mid])
        return cat(*pre, m, *post)

    def nested(self, t):
        return t

    @staticmethod
    def depth1(x):
        if isapp(x, "xmlout") and x.a[1].op == "agg":
            return {"%sb": 1, "%ee": -1}.get(x.a[1].a[0], 0)
        return 0

    def depths(self, mid):
        return [sum(self.depth1(x) for x in s) for _, s in mid]

    # ------------------------------------------------------------ loops
    def loop_next(self, m):
        """the iterator driving the loop of mu term m: (collection, site-key) or None"""
        I = self.I
        ctx, h = m.a[0], m.a[1]
        evs = []
        if (ctx, h) in I.loopinfo:
            run, hh = I.loopinfo[(ctx, h)]
            body = run.loops[hh]["body"]
            cfg = I.cfg(run.fn)
            inner = [b for g, b in cfg.loops.items() if g != hh and g in body]
            for bb in body:
                if any(bb in b for b in inner):
                    continue
                for k, e in run.events.get(bb, {}).items():
                    if e.kind == "next":
                        evs.append(e)
        elif isinstance(h, str):
            import re
            mm = re.match(r"f\((\d+)", h)
            run = I.installed.get(ctx)
            if run is not None and mm:
                for k, e in run.events.get(int(mm.group(1)), {}).items():
                    if e.kind == "next":
                        evs.append(e)
        return evs

    def coll_of(self, it):
        if it.op == "agg" and it.a[0] == "%it":
            if it.a[4].op == "agg" and len(it.a[4].a) > 3:
                return None
            return it.a[3]
        return None

    def star(self, m):
        if m in self.stars:
            return self.stars[m]
        self.stars[m] = None
        r = self._star(m)
        self.stars[m] = r
        return r

    def _star(self, m):
        I = self.I
        if m not in I.mus:
            return None
        E, B = I.mus[m]
        evs = self.loop_next(m)
        E, B = self.canon(E), self.canon(B)
        items = cat_items(B)
        if not items or items[0] is not m or any(m in subterms(x) for x in items[1:]):
            return None
        if not evs:
            return self.counted(m, E, items[1:])
        if len(evs) != 1:
            return None
        ev = evs[0]
        coll = self.coll_of(ev.args[0])
        adv = ev.args[1]
        if coll is None:
            return None
        if adv.op == "mu":
            adv = I.mus.get(adv, (None,))[0]
        if adv is not cint(0):
            return None
        coll = self.canon(coll)
        if any(x.op == "mu" and x.a[:2] == m.a[:2] for x in subterms(coll)):
            return None
        site = ev.args[2]
        raw = self.coll_of(ev.args[0])
        elems = {x for it in items[1:] for x in subterms(it) if x.op == "elem" and (x.a[0] is raw or x.a[0] is coll)
                 and x.a[1][:2] == (site.a[0], site.a[1])}
        if len(elems) > 1:
            return None
        el = elems.pop() if elems else None
        body = items[1:]
        if isapp(coll, "range") and el is not None:
            coll, el2, body = self.range_coll(coll, el, body)
            if coll is None:
                return None
            el = el2
        return cat(E, self.mkstar(coll, el, body))

    def mkstar(self, coll, el, body):
        if coll.op == "agg" and coll.a[0] == "array" and el is not None:
            out = []
            for x in coll.a[3:]:
                out += [subst(b, {el: x}) for b in body]
            return self.canon(cat(*out))
        v = mk("elem", coll, "*")
        if el is not None:
            body = [subst(b, {el: v}) for b in body]
        if len(body) == 1 and isapp(body[0], "one") and body[0].a[1] is v:
            return coll
        if len(body) == 1 and body[0] is v:
            return app("concat", coll)
        if len(body) == 1 and isapp(body[0], "fmt") and body[0].a[1].a[1] in ("lower_hex", "upper_hex") and body[0].a[2].a[1] == "u8" \
                and body[0].a[4] is v and TT.hexpad(body[0].a[3].a[1]) == 2:
            return app("hex" if body[0].a[1].a[1] == "lower_hex" else "hexu", coll)
        return app("star", coll, cat(*body))

    def counted(self, m, E, body):
        """a loop that counts through the positions of a collection"""
        I = self.I
        run, h = I.loopinfo.get(m.a[:2], (None, None))
        k = I.counting(run, h) if run is not None else None
        if k is None:
            return None
        i, cond = k
        coll, el, body = self.range_coll(app("range", cint(0), self.canon(cond.a[2])), i, body)
        if coll is None or any(x.op == "mu" and x.a[:2] == m.a[:2] for b in body + [coll] for x in subterms(b)):
            return None
        return cat(E, self.mkstar(coll, el, body))

    def range_coll(self, rng, el, body):
        """for i in 0..len(c) with c[i] only -> for e in c"""
        if rng.a[1] is not cint(0) or not isapp(rng.a[2], "len"):
            return None, None, None
        c = rng.a[2].a[1]
        use = app("index", c, el)
        e2 = mk("elem", c, "*")
        nb = [subst(b, {use: e2}) for b in body]
        if any(el in subterms(b) for b in nb):
            return None, None, None
        return c, e2, nb

    # ------------------------------------------------------------ cipher loops
    def cbc_fold(self, t):
        """chunks collected from a buffered cipher until it reports underflow = the whole result"""
        out = []
        for x in cat_items(t):
            c = self.cbc_of(out[-1], x) if out else None
            if c is not None:
                out[-1] = c
            else:
                out.append(x)
        return cat(*out)

    def cbc_of(self, m, x):
        I = self.I
        if m.op != "mu" or not isapp(x, "chunk") or m not in I.mus:
            return None
        call = x.a[1]
        if call.op != "call" or not call.a[0].endswith(("Encryptor::encrypt", "Decryptor::decrypt")):
            return None
        E, B = I.mus[m]
        if not is_empty(E) or cat(m, x) is not B:
            return None
        ob, rb, eof = call.a[2:5]
        if ob.op != "agg" or ob.a[0] != "%cbc" or rb.op != "agg" or rb.a[0] != "%rbuf":
            return None
        if eof is not TRUE:
            return None
        # the loop must continue exactly while the output buffer overflows
        run, h = I.loopinfo.get((m.a[0], m.a[1]), (None, None))
        if run is None:
            return None
        Bs = run.loops[h]["B"]
        d = [(t, v) for t, v in Bs.facts.items() if t.op == "disc" and call in subterms(t) and "BufferResult" in t.a[0]]
        names = [v["n"] for v in self.I.adts.get(d[0][0].a[0], {"v": []})["v"]] if d else []
        over = names.index("BufferOverflow") if "BufferOverflow" in names else 1
        if not any(v == (True, frozenset([over])) for _, v in d):
            return None

        def fix(v):
            return self.canon(I.mus[v][0]) if v.op == "mu" and v in I.mus and I.mus[v][1] in (v,) else self.canon(v)
        dirn, ks, key, iv, pad = ob.a[3:8]
        kind = "cbcenc" if call.a[0].endswith("encrypt") else "cbcdec"
        if dirn.a[1] != ("enc" if kind == "cbcenc" else "dec"):
            return None
        return self.reduce(app(kind, ks, fix(key), fix(iv), pad, fix(rb.a[3])))

    # ------------------------------------------------------------ inverse pairs
    def reduce(self, t):
        f = t.a[0]
        a = t.a[1:]
        if not a:
            return t
        x = a[-1]
        if isinstance(x, T) and x.op == "case" and f in ("unb64", "unhex", "gunzip", "uuid_of", "text", "parse", "lower", "cbcdec"):
            return mkcase(x.a[0], [(k, self.reduce(app(f, *(a[:-1] + (v,))))) for k, v in case_alts(x)])
        if isinstance(x, T) and x.op == "app":
            if (f, x.a[0]) in INV:
                if f in ("unb64", "b64"):
                    return x.a[2] if x.a[1] is a[0] else t
                return x.a[1]
            if f == "cbcdec" and x.a[0] == "cbcenc" and x.a[1:5] == a[:4]:
                return x.a[5]
            if f == "cbcdec" and x.a[0] == "cbcenc" and all(self.equal(p, q) for p, q in zip(x.a[1:5], a[:4])):
                return x.a[5]
            if f == "parse" and x.a[0] == "fmt":
                ty = a[0].a[1]
                kind, fty, spec = x.a[1].a[1], x.a[2].a[1], x.a[3].a[1]
                if ty == fty and spec == "" and ((kind in ("display", "debug") and ty in INTS) or
                                                 (kind == "debug" and ty.startswith("DateTime"))):
                    return x.a[4]
        if f == "parse" and x.op == "const" and a[0].a[1] == "bool" and x.a[1] in ("true", "false"):
            return cbool(x.a[1] == "true")
        if f == "parse" and x.op == "const" and a[0].a[1] in INTS and x.a[1].isascii() and x.a[1].isdigit():
            return cint(int(x.a[1]))
        if f == "unb64" and is_empty(x):
            return LIST0
        if f == "unhex" and is_empty(x):
            return LIST0
        if f == "text" and is_empty(x):
            return cstr("")
        if f == "num":
            return self.num(t)
        if f in ("lower", "ascii_lower") and x.op == "const" and x.a[1].isascii():
            return cstr(x.a[1].lower())
        if f == "radix":
            return self.radix(t)
        return t

    def num(self, t):
        e, ty, x = t.a[1].a[1], t.a[2].a[1], t.a[3]
        if x.op == "case":
            return mkcase(x.a[0], [(k, self.num(app("num", t.a[1], t.a[2], v))) for k, v in case_alts(x)])
        if isapp(x, "enc") and x.a[1].a[1] == e and NUM_SIZES[x.a[2].a[1]] == NUM_SIZES[ty]:
            if x.a[2].a[1] == ty:
                return x.a[3]
        if x.op == "const" and x.a[0] == "bytes" and len(x.a[1]) == NUM_SIZES[ty]:
            return cint(int.from_bytes(bytes(x.a[1]), "little" if e == "LE" else "big", signed=ty[0] == "i"))
        return t

    def radix(self, t):
        ty, x, base = t.a[1].a[1], t.a[2], t.a[3]
        if ty == "u8" and base is cint(16) and isapp(x, "fmt") and x.a[1].a[1] in ("lower_hex", "upper_hex") and \
                x.a[2].a[1] == "u8" and hexpad(x.a[3].a[1]) is not None:
            return x.a[4]
        return t

    # ------------------------------------------------------------ equality
    def equal(self, a, b):
        a, b = self.canon(a), self.canon(b)
        return a is b or self.eqv(a, b, {})

    def eqv(self, a, b, hyp):
        """equality of terms up to the names of call sites of deterministic code"""
        if a is b or (is_empty(a) and is_empty(b)):
            return True
        k = (a, b)
        if k in hyp:
            return hyp[k]
        hyp[k] = True
        r = self._eqv(a, b, hyp)
        hyp[k] = r
        return r

    def _eqv(self, a, b, hyp):
        I = self.I
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and y.op not in ("agg", "case") and self.is_struct(x):
                return all(self.eqv(v, proj(y, ("f", None, n, None)), hyp) for n, v in zip(x.a[2], x.a[3:]))
        for x, y in ((a, b), (b, a)):
            if x.op == "case" and not (y.op == "case" and y.a[0] is x.a[0]):
                named = [k for k, _ in case_alts(x) if k != "*"]
                for k, v in case_alts(x):
                    f = I.assume(NOFACTS, x.a[0], False, named) if k == "*" else I.restrict(NOFACTS, x.a[0], frozenset([k]))
                    if f is None:
                        continue
                    if not self.eqv(self.canon(I.simp(v, f)), self.canon(I.simp(y, f)), hyp):
                        return False
                return True
        if a.op != b.op:
            return False
        if a.op == "mu":
            if a.a[2][0] != b.a[2][0] or a.a[3] != b.a[3] or a.a[1] != b.a[1] or (a.a[2][0] == "l" and a.a[2][2] != b.a[2][2]):
                return False
            return self.same_frame(a.a[0], b.a[0], hyp)
        if a.op in ("elem", "call", "next", "out", "M"):
            sa, sb = self.site(a), self.site(b)
            if sa is None or sb is None or sa[1:] != sb[1:]:
                return False
            if a.op == "call" and a.a[0] in ("rand", "Uuid::new_v4", "Utc::now", "Read::read_exact", "Read::read_to_end", "Read::read"):
                return False
            if a.op in ("M", "next"):
                return self.same_frame(sa[0], sb[0], hyp)
            if not self.same_fn(sa[0], sb[0]):
                return False
        xs, ys = a.a, b.a
        if len(xs) != len(ys):
            return False
        for x, y in zip(xs, ys):
            if isinstance(x, T) != isinstance(y, T):
                return False
            if isinstance(x, T):
                if not self.eqv(self.canon(x), self.canon(y), hyp):
                    return False
            elif x != y and not (a.op in ("elem", "call") and isinstance(x, tuple)):
                return False
        return True

    def is_struct(self, x):
        """aggregate of a type with a single variant: equal to any value with the same fields"""
        if x.a[0] == "tuple":
            return len(x.a) > 3
        info = self.I.adts.get(x.a[0]) if isinstance(x.a[0], str) else None
        return bool(info) and len(info["v"]) == 1 and len(x.a) > 3 and not x.a[0].startswith("%")

    def site(self, t):
        if t.op == "call":
            return t.a[1]
        if t.op == "elem":
            return t.a[1] if isinstance(t.a[1], tuple) else ("*",)
        if t.op in ("next", "M"):
            return t.a
        if t.op == "out":
            return t.a[1]
        return None

    def same_fn(self, c, d):
        if c == "*" or d == "*":
            return c == d
        return self.I.ctxinfo[c][1] == self.I.ctxinfo[d][1]

    def same_frame(self, c, d, hyp):
        """two activations of the same function on equal arguments behave equally"""
        I = self.I
        if c == d:
            return True
        k = ("frame", c, d)
        if k in hyp:
            return hyp[k]
        hyp[k] = True
        p, f, b = I.ctxinfo[c]
        q, g, e = I.ctxinfo[d]
        r = False
        if f == g:
            x, y = I.pargs.get(c), I.pargs.get(d)
            if x is not None and y is not None and len(x) == len(y):
                r = all(self.eqv(self.canon(u), self.canon(v), hyp) for u, v in zip(x, y))
            if not r and p is not None and q is not None and b == e:
                r = self.same_frame(p, q, hyp)
        hyp[k] = r
        return r
