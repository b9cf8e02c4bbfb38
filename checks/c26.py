"""C26: reading and saving end: every loop makes progress towards a bound."""
from engine.dump import ty_name, deref_ty
from engine.interp import Facts, NOFACTS, Vac
from engine.query import Query, Unknown
from engine.terms import *
from engine.view import isapp, paths

EXPLANATION = (
    "Ranking argument per loop. For each loop executed by opening and saving databases and key files, in each calling context, "
    "every way back to the head of the loop must contain one of: an element taken from an iterator whose type can only yield "
    "finitely many; a successful read of at least one byte; an event taken from the XML parser that is neither an error nor the "
    "end of the document; a counter moved towards a bound that the loop does not change; a full output buffer of a cipher whose "
    "buffer was empty at the start of the round. That the parser's event cannot be the end of the document follows from the "
    "facts on the way, or from the element the loop works in: the chain of elements known to be open is computed from the "
    "parser's state (a start tag opens one, an end tag closes the innermost unless its name differs from it). Recursive calls "
    "must follow a start tag read by the same activation, or descend into a part of the caller's argument.")

FINITE = {"Iter", "IterMut", "IntoIter", "Drain", "Keys", "Values", "ValuesMut", "IntoKeys", "IntoValues", "Range", "RangeInclusive",
          "Chars", "CharIndices", "Bytes", "Split", "SplitN", "RSplit", "RSplitN", "SplitTerminator", "SplitWhitespace",
          "SplitAsciiWhitespace", "SplitInclusive", "Lines", "Once", "OptionIter", "Chunks", "ChunksMut", "ChunksExact",
          "ChunksExactMut", "RChunks", "Windows", "Matches", "MatchIndices", "EscapeDefault", "EscapeUnicode", "ToLowercase",
          "ToUppercase", "Option", "Empty", "Args", "Vec", "array", "slice", "HashMap", "VecDeque", "BTreeMap", "HashSet", "BTreeSet",
          "EncodeUtf16", "Result", "RepeatN"}
ADAPTERS = {"Map", "Filter", "FilterMap", "Enumerate", "Rev", "Skip", "StepBy", "Peekable", "Cloned", "Copied", "TakeWhile",
            "SkipWhile", "Inspect", "Fuse", "MapWhile", "Scan", "FlatMap", "Flatten", "ByRef", "Box"}
LAZY = {"map", "filter", "filter_map", "enumerate", "rev", "skip", "step_by", "peekable", "cloned", "copied", "take_while", "skip_while",
        "inspect", "fuse", "map_while", "scan", "flat_map", "flatten", "by_ref", "zip", "chain", "take", "cycle", "size_hint", "next",
        "into_iter"}


def finite(D, t, env, depth=0):
    """the iterator type yields finitely many elements"""
    if depth > 20:
        return False
    t = deref_ty(t)
    if t[0] == "param" and t in env:
        return finite(D, env[t], env, depth + 1)
    if t[0] == "param" and len(t) > 1 and t[1] in env:
        v = env[t[1]]
        return finite(D, D.ty(v) if isinstance(v, int) else v, env, depth + 1)
    if t[0] in ("array", "slice", "str"):
        return True
    if t[0] != "adt":
        return False
    n = t[1].split("::")[-1]
    args = [a for a in (D.ty(x) if isinstance(x, int) else x for x in t[2:]) if isinstance(a, tuple)]
    if n == "Take":
        return True
    if n == "Zip":
        return any(finite(D, a, env, depth + 1) for a in args[:2])
    if n == "Chain":
        return all(finite(D, a, env, depth + 1) for a in args[:2])
    if n in ADAPTERS:
        return bool(args) and finite(D, args[0], env, depth + 1)
    if t[1].split("::")[0] not in ("std", "core", "alloc"):
        # walks over groups: that their queue only ever holds parts of the tree is what C21 decides
        return D.adts.get(t[1], {}).get("local", False)
    return n in FINITE


class Progress:
    def __init__(self, W, R, e, label):
        self.W, self.R, self.e, self.I, self.label = W, R, e, e.I, label
        self.q = Query(e)
        self.runs = {r.ctx: r for r in e.run.walk()}
        self.mu, self.ways = {}, {}
        self.recs = {}
        for r, ev in e.events("rec"):
            self.recs[ev.res] = (r, ev)
        self.ended = {}
        self.kind = self.I.D.adts["xml::reader::events::XmlEvent"]["v"] if "xml::reader::events::XmlEvent" in self.I.D.adts else []
        self.vn = {v["d"]: v["n"] for v in self.kind}
        self.how = {}

    def outer(self, r, facts):
        """facts together with those at the calls that lead to run r"""
        f = dict(facts)
        c = r.ctx
        while c is not None:
            x = self.runs.get(c)
            if x is not None and getattr(x, "callfacts", None):
                for t, v in x.callfacts.items():
                    f.setdefault(t, v)
            c = self.I.ctxinfo[c][0]
        return Facts(f)

    # ------------------------------------------------------------ elements that are open
    def open(self, s, facts):
        """names of elements, from the root, that are certainly open in parser state s (names that are not known are terms); None if
        the state cannot be reached"""
        if isapp(s, "events"):
            return ()
        if s.op == "case":
            out = None
            for f, x in paths(self.I, s, facts):
                out = common(out, self.open(x, f))
            return out
        if s.op == "mu" and s in self.I.mus:
            run, h = self.I.loopinfo[s.a[:2]] if s.a[:2] in self.I.loopinfo else (None, None)
            if run is None:
                return ()
            L = run.loops[h]
            # what is known of the other variables of the loop in this round; the chain is a property of such rounds
            flags = tuple((t, facts[t]) for t in run.mus
                          if t is not s and t.a[:2] == s.a[:2] and t in facts and not isinstance(facts[t][1], Vac))
            k = (s, frozenset(flags))
            if k in self.mu:
                return self.mu[k]
            E, B = self.I.mus[s]
            e = self.given(self.outer(run, L["E"].facts), [(run.mus[t][0], v) for t, v in flags])
            cur = self.open(E, e) if e is not None else None
            while True:
                self.mu[k] = cur
                inner = set(self.mu)
                n = cur
                for w in self.rounds(run, h):
                    for f, x in paths(self.I, self.I.simp(B, Facts(w)), w):
                        f = self.given(f, [(run.mus[t][1], v) for t, v in flags])
                        if f is not None:
                            n = common(n, self.open(x, f))
                for m in list(self.mu):
                    if m not in inner:
                        del self.mu[m]
                if n == cur:
                    return cur
                cur = n
        if isapp(s, "after"):
            c = s.a[1]
            if c.op == "call" and c.a[0] == "EventReader::next":
                return self.step(c, facts)
            if c in self.recs:
                return self.rec(c)
        return ()

    def rounds(self, r, h):
        """facts at the end of each way round the loop, the merge points passed on the way taken apart"""
        if (r.ctx, h) in self.ways:
            return self.ways[r.ctx, h]
        L = r.loops[h]
        body, cfg, I = L["body"], self.I.cfg(r.fn), self.I
        base = self.outer(r, L["B"].facts)
        out = []

        def to(b, f):
            """f holds at the end of block b"""
            while b != h and b in body:
                M = mk("M", r.ctx, str(b))
                if M in r.guards:
                    for k in r.guards[M]:
                        choose(M, k, f)
                    return
                p = [x for x in cfg.pred[b] if x in body]
                if b in cfg.loops or len(p) != 1:
                    break
                b = p[0]
            out.append(f)
            if len(out) > 500:
                raise Unknown("too many ways through a loop")

        def choose(M, k, f):
            f = I.meet(Facts(f), M, True, frozenset([k]))
            for x, pv in r.guards[M][k].items():
                f = None if f is None else I.meet(f, x, pv[0], pv[1])
            if f is not None:
                p = k[0] if isinstance(k, tuple) else k
                if p in cfg.loops:
                    out.append(f)
                else:
                    to(p, f)

        M = mk("M", r.ctx, str(h) + "b")
        ins = [p for p in cfg.pred[h] if p in body]
        try:
            if M in r.guards:
                for k in r.guards[M]:
                    choose(M, k, base)
            elif len(ins) == 1:
                to(ins[0], base)
            else:
                out.append(base)
        except Unknown:
            out = [base]
        self.ways[r.ctx, h] = out
        return out

    def given(self, f, flags):
        for t, (pos, vals) in flags:
            f = None if f is None else self.I.assume(f, t, pos, vals)
        return f

    def kinds(self, c, facts):
        """kinds of event that call c of the parser may have returned"""
        val = self.I.disc(mk("fld", "Ok", "0", c), "xml::reader::events::XmlEvent")
        return [n for d, n in self.vn.items() if self.I.assume(facts, val, True, [d]) is not None]

    def names(self, c, kind):
        return mk("fld", None, "local_name", mk("fld", kind, "name", mk("fld", "Ok", "0", c)))

    def step(self, c, facts, depth=0):
        base = self.open(c.a[2], facts)
        if base is None:
            return None
        if self.I.assume(facts, mk("disc", RES, c), True, [0]) is None:
            return base
        out = None
        for k in self.kinds(c, facts):
            if k == "StartElement":
                n = base + (self.known(facts, self.names(c, k)),)
            elif k == "EndElement" and base and not self.differs(facts, self.names(c, k), base[-1]):
                x = self.split(c, facts, depth)
                if x is not None:
                    return x
                n = base[:-1]
            else:
                n = base
            out = common(out, n)
        return out if out is not None else base

    def split(self, c, facts, depth):
        """the chain after c, from the alternatives of a choice that tells something about the event"""
        if depth > 6:
            return None
        about = {self.I.disc(mk("fld", "Ok", "0", c), "xml::reader::events::XmlEvent"), self.names(c, "EndElement")}
        for M in self.choices(facts, about):
            pos, vals = facts[M]
            out, n = None, 0
            for m in self.alternatives(M, facts):
                out = common(out, self.step(c, m, depth + 1))
                n += 1
            if n:
                return out
        return None

    def choices(self, facts, about):
        """merge points whose alternatives tell something about the terms"""
        def one(x):
            return x in about or x.op == "app" and any(y in about for y in x.a[1:] if isinstance(y, T))

        implied = {x.a[0] for x in facts if x.op == "imp" and one(x.a[2])}

        def tells(M, seen):
            if M in seen or M not in self.I.guards:
                return False
            seen.add(M)
            if M in implied and len(facts.get(M, (0, ()))[1]) > 1:
                return True
            for g in self.I.guards[M].values():
                for x in g:
                    if one(x) and facts.get(x) != g[x]:
                        return True
                    if x.op == "M" and not isinstance(g[x][1], Vac) and x not in facts and tells(x, seen):
                        return True
            return False
        for M, (pos, vals) in facts.items():
            if M.op == "M" and not isinstance(vals, Vac) and tells(M, set()):
                yield M

    def alternatives(self, M, facts):
        """the facts together with each alternative of M that they leave, without M itself"""
        pos, vals = facts[M]
        for key, g in self.I.guards[M].items():
            if (key in vals) != pos:
                continue
            m = self.I.meet(Facts(facts), M, True, frozenset([key]))
            for x, pv in g.items():
                m = None if m is None else self.I.meet(m, x, pv[0], pv[1])
            if m is not None:
                yield Facts({t: v for t, v in m.items() if t is not M})

    def known(self, facts, t):
        p = facts.get(t)
        if p and p[0] and len(p[1]) == 1:
            return next(iter(p[1]))
        for x, (pos, vals) in facts.items():
            if x.op == "app" and x.a[0] == "eq" and pos and set(vals) == {1} and t in (x.a[1], x.a[2]):
                o = x.a[2] if x.a[1] is t else x.a[1]
                if o.op == "const":
                    return o.a[1]
        return t

    def differs(self, facts, t, name):
        """the facts say that t is not the name"""
        if isinstance(name, T):
            return False
        k = self.known(facts, t)
        if not isinstance(k, T):
            return k != name
        p = facts.get(t)
        if p and not p[0] and name in p[1]:
            return True
        for x, (pos, vals) in facts.items():
            if x.op == "app" and x.a[0] == "eq" and pos and set(vals) == {0} and t in (x.a[1], x.a[2]):
                o = x.a[2] if x.a[1] is t else x.a[1]
                if o.op == "const" and o.a[1] == name:
                    return True
        return False

    def rec(self, c):
        """after a recursive call the element it was made for may be closed, if the activation was made for the same kind of element"""
        r, ev = self.recs[c]
        before = self.reader(ev.args, ev.raw)
        a = self.activation(r, ev.name)
        if before is None or a is None:
            return ()
        start = self.reader(a.args, a.entry)
        if start is None:
            return ()
        now = self.open(before, self.outer(r, ev.facts))
        if now is None:
            return None
        own = self.open(start, self.outer(a, NOFACTS))
        if now and own and now[-1] == own[-1] and not isinstance(now[-1], T):
            return now[:-1]
        return ()

    def activation(self, r, fn):
        c = r.ctx
        while c is not None and self.I.ctxinfo[c][1] != fn:
            c = self.I.ctxinfo[c][0]
        return self.runs.get(c)

    def reader(self, args, mem):
        """state of the parser among the arguments"""
        for a in args:
            for _ in range(4):
                if a.op == "ref" and a.a[0] in mem:
                    v = mem[a.a[0]]
                    for p in a.a[1]:
                        v = proj(v, p)
                    a = v
            if a.op == "agg" and a.a[0] == "%xmlreader":
                return a.a[3]
        return None

    # ------------------------------------------------------------ progress
    def inside(self, c, r, body):
        """the call at site c lies in the loop body of run r, or in a call made there"""
        if not c:
            return False
        x, bb = c[0], c[1]
        while x is not None and x != r.ctx:
            p, fn, b = self.I.ctxinfo[x]
            bb = b[0] if isinstance(b, tuple) else b
            x = p
        return x == r.ctx and bb in body

    def progress(self, r, h, L, f):
        """why the way back to the head with facts f has come nearer to the end of the loop"""
        body = L["body"]
        allf = None
        for t, (pos, vals) in f.items():
            if isinstance(vals, Vac):
                continue    # says nothing about whether the call was made at all
            if t.op == "next" and pos and set(vals) == {1} and self.inside(t.a, r, body) and t in self.q.sites:
                sr, ev = self.q.sites[t]
                if self.itype(sr, ev) and self.carried(t, r, body):
                    return "iterator"
            if t.op == "disc" and t.a[0] == RES and t.a[1].op == "call" and pos and set(vals) == {0}:
                c = t.a[1]
                if not self.inside(c.a[1], r, body):
                    continue
                if c.a[0] == "EventReader::next":
                    if allf is None:
                        allf = self.outer(r, f)
                    if "EndDocument" not in self.kinds(c, allf) or self.open(c.a[2], allf):
                        return "event"
                elif c.a[0].startswith("Read::") and self.positive(f, self.amount(c, r)):
                    return "input"
                elif c.a[0].split("::")[-1] in ("encrypt", "decrypt") and self.buffer(r, L, c, f):
                    return "buffer"
        return self.counter(r, h, L, f)

    def amount(self, c, r):
        """number of bytes that a successful call of read consumes"""
        if c.a[0] != "Read::read":
            return c.a[-1] if c.a[-1].op != "const" or isinstance(c.a[-1].a[1], int) else cint(0)
        x = c.a[1][0]
        while x is not None and x != r.ctx:
            # a whole read made through an implementation of read in this crate
            if x in self.I.whole_reads:
                return self.I.whole_reads[x]
            x = self.I.ctxinfo[x][0]
        return mk("fld", "Ok", "0", c)

    def positive(self, f, n):
        if n.op == "const":
            return isinstance(n.a[1], int) and n.a[1] > 0
        p = f.get(n)
        if p and (p[0] and 0 not in p[1] or not p[0] and 0 in p[1]):
            return True
        for x, (pos, vals) in f.items():
            if x.op != "app" or x.a[0] not in ("lt", "le", "eq") or not pos or len(vals) != 1:
                continue
            v = next(iter(vals))
            a, b = x.a[1], x.a[2]
            if x.a[0] == "eq" and v == 0 and n in (a, b) and cint(0) in (a, b):
                return True
            if x.a[0] == "lt" and v == 1 and b is n and a.op == "const" and a.a[1] >= 0:
                return True
            if x.a[0] == "le" and v == 0 and a is n and b.op == "const" and b.a[1] >= 0:
                return True
        return False

    def carried(self, sel, r, body):
        """the iterator was there before the loop and is not replaced in it"""
        sr, ev = self.q.sites[sel]
        if sr is not r or ev.bb not in body:
            return False
        f = self.W.D.fns[r.fn]
        args = f["blocks"][ev.bb]["t"].get("args")
        x = args[0].get("move") or args[0].get("copy") if args else None
        if not x or x[1]:
            return False
        seen, x = set(), x[0]
        while True:
            # the place that the (re)borrowed reference denotes
            defs = list(self.defs(f, body, x))
            if not defs:
                return True
            if x in seen or len(defs) != 1 or not isinstance(defs[0], list):
                return False
            seen.add(x)
            rv = defs[0]
            y = rv[2] if rv[0] == "ref" else (rv[1].get("move") or rv[1].get("copy")) if rv[0] == "use" and isinstance(rv[1], dict) else None
            if not y or rv[0] == "use" and y[1]:
                return False
            x = y[0]

    def defs(self, f, body, x):
        """what local x is set to, in part or as a whole, in the blocks"""
        for b in body:
            for s in f["blocks"][b]["s"]:
                if s[0] == "=" and s[1][0] == x and not any(p[0] == "*" for p in s[1][1]):
                    yield s[2] if not s[1][1] else None
            t = f["blocks"][b]["t"]
            if t["k"] == "call" and t.get("dest") and t["dest"][0] == x:
                yield None

    def itype(self, r, ev):
        """the iterator at the event has a finite type"""
        fn = self.W.D.fns[r.fn]["blocks"][ev.bb]["t"].get("f", {}).get("const", {}).get("fn")
        return bool(fn and fn.get("args")) and finite(self.W.D, self.W.D.ty(fn["args"][0]), r.env or {})

    def buffer(self, r, L, c, f):
        """the cipher filled its output buffer, which was empty before"""
        full = mk("disc", "buffer::BufferResult", mk("fld", "Ok", "0", c))
        seen = any(t.op == "disc" and t.a[1] is full.a[1] and p == (True, frozenset([1])) for t, p in f.items())
        evs = [ev for rr in self.runs.values() for d in rr.events.values() for ev in d.values() if ev.kind == "cipher" and ev.args[0] is c]
        return seen and len(evs) == 1 and evs[0].args[1] is LIST0

    def counter(self, r, h, L, f):
        """a loop variable comes nearer to a bound, or holds less, and the way shows that the end was not reached yet"""
        I = self.I
        for m, (E, B) in r.mus.items():
            if m.a[:2] != (r.ctx, L.get("hn", h)):
                continue
            if any(p[0] and p[1] == frozenset([1]) and t.op == "disc" and self.q.queues[t][1:] == (r, h) for t, p in f.items() if t in self.q.queues):
                return "queue"
            B = I.simp(B, Facts(f))
            if B.op != "app":
                continue
            if B.a[0] == "slice_from" and B.a[1] is m and (self.positive(f, B.a[2]) or self.put(f, B.a[2])):
                return "slice"
            if B.a[0] in ("but_front", "but_back", "but_last") and B.a[1] is m and any(
                    t.op == "disc" and p == (True, frozenset([1])) and t.a[1].op == "app" and t.a[1].a[0].startswith("opt_") and t.a[1].a[1] is m
                    for t, p in f.items()):
                return "shrinking list"
            if B.a[0] not in ("add", "sub") or B.a[1] is not m or B.a[2].op != "const" or not isinstance(B.a[2].a[1], int) or B.a[2].a[1] < 1:
                continue
            up, c = B.a[0] == "add", B.a[2].a[1]
            for x, (pos, vals) in f.items():
                if x.op != "app" or x.a[0] not in ("lt", "eq") or m not in (x.a[1], x.a[2]) or not pos or len(vals) != 1:
                    continue
                v = next(iter(vals))
                o = x.a[2] if x.a[1] is m else x.a[1]
                if not self.constant(o, r, h, L):
                    continue
                less = x.a[0] == "lt" and (v == 1 and x.a[1] is m or v == 0 and x.a[2] is m)
                more = x.a[0] == "lt" and (v == 1 and x.a[2] is m or v == 0 and x.a[1] is m)
                if up and less or not up and more:
                    return "counter"
                if x.a[0] == "eq" and v == 0 and c == 1 and (up and E is cint(0) or not up and o is cint(0)):
                    return "counter"
            if not up and c == 1 and f.get(m) and self.positive(f, m):
                return "counter"
        return None

    def put(self, f, n):
        """n is the number of bytes that a call of write took, not none"""
        return n.op == "fld" and n.a[0] == "Ok" and n.a[2].op == "call" and n.a[2].a[0] == "Write::write" and self.positive(f, n)

    def constant(self, o, r, h, L):
        """the value does not change in the loop"""
        hn = L.get("hn", h)
        for x in subterms(o):
            if x.op == "mu" and (x.a[:2] == (r.ctx, hn) or x.a[0] == r.ctx and x.a[1] in L["body"] or x.a[0] != r.ctx and self.inside((x.a[0], 0), r, L["body"])):
                return False
            if x.op in ("call", "next") and isinstance(x.a[1 if x.op == "call" else 0], (tuple, int)):
                c = x.a[1] if x.op == "call" else x.a
                if self.inside(c, r, L["body"]):
                    return False
            if x.op == "elem" and self.inside(x.a[1], r, L["body"]):
                return False
        return True

    # ------------------------------------------------------------ the loops of an entry
    def run(self):
        n = 0
        for r in self.e.run.walk():
            for h, L in sorted(r.loops.items()):
                n += 1
                sub = "%s: loop in %s" % (self.label, r.fn)
                if L["B"] is None:
                    self.R.bad("loop", sub, "the loop at bb%d does not stabilise" % h)
                    continue
                why = set()
                try:
                    bad = [f for f in self.backs(r, h) if not self.covered(r, h, L, f, why, [0])]
                except Unknown as x:
                    self.R.bad("loop", sub, "the ways through the loop cannot be enumerated: %s" % x)
                    continue
                self.R.check(not bad, "loop", sub, "a round of the loop at bb%d may consume nothing and count towards nothing (%s)" % (
                    h, self.W.D.fns[r.fn]["span"]))
                for k in why:
                    self.how[k] = self.how.get(k, 0) + 1
        return n

    def covered(self, r, h, L, f, why, n):
        """progress on every alternative of the facts"""
        n[0] += 1
        if n[0] > 5000:
            raise Unknown("too many alternatives")
        k = self.progress(r, h, L, f)
        if k:
            why.add(k)
            return True
        for M, (pos, vals) in f.items():
            if M.op != "M" or isinstance(vals, Vac) or M not in self.I.guards or not self.inside(M.a, r, L["body"]) and M.a[0] != r.ctx:
                continue
            return all(self.covered(r, h, L, m, why, n) for m in self.alternatives(M, f))
        return False

    def backs(self, r, h):
        L = r.loops[h]
        body, B = L["body"], L["B"]
        base = dict(B.facts if B else NOFACTS)
        cfg = self.I.cfg(r.fn)
        out = []
        g = [v for M, v in r.guards.items() if M.a[0] == r.ctx and M.a[1] == str(h) + "b"]
        ins = list(g[0].items()) if g else [(p, base) for p in cfg.pred[h] if p in body]
        for k, f in ins:
            self.q.ways(r, cfg, k[0] if isinstance(k, tuple) else k, h, body, dict(f), out)
        return out


    # ------------------------------------------------------------ recursion
    def recursion(self):
        for r, ev in self.e.events("rec"):
            a = self.activation(r, ev.name)
            sub = "%s: recursive call of %s" % (self.label, ev.name)
            if a is None:
                self.R.bad("recursion", sub, "the enclosing activation is not known")
                continue
            self.R.check(self.descends(a, ev) or self.consumed(a, r, ev), "recursion", sub,
                         "a recursive call may be made without having consumed input and for no smaller part of the data")

    def consumed(self, a, r, ev):
        """an element begun in the same activation leads to the call"""
        f = self.outer(r, ev.facts)
        L = self.W.D.fns[a.fn]["blocks"]
        for t, p in f.items():
            if t.op == "disc" and t.a[0] == RES and t.a[1].op == "call" and t.a[1].a[0] == "EventReader::next" and p == (True, frozenset([0])):
                c = t.a[1]
                if self.inside(c.a[1], a, range(len(L))) and self.kinds(c, f) == ["StartElement"]:
                    return True
        return False

    def descends(self, a, ev):
        from engine.interp import State
        st = State(dict(ev.raw), NOFACTS)
        for i, x in enumerate(ev.args):
            y = self.I.pargs.get(a.ctx, [])[i:i + 1]
            x = self.I.pure(st, x)
            part = lambda t: t.op in ("elem", "fld") or t.op == "app" and t.a[0] == "index"
            if not y or not part(x):
                continue
            while part(x):
                x = x.a[0] if x.op == "elem" else x.a[2] if x.op == "fld" else x.a[1]
                if x is y[0]:
                    return True
        return False

    # ------------------------------------------------------------ loops inside library functions
    def library(self):
        """what consumes a whole iterator consumes a finite one"""
        n = 0
        for fn, env in sorted({(r.fn, tuple(sorted((r.env or {}).items(), key=str))) for r in self.e.run.walk()}, key=str):
            for b in self.W.D.fns[fn]["blocks"]:
                t = b["t"]
                f = t.get("f", {}).get("const", {}).get("fn") if t["k"] == "call" and isinstance(t.get("f"), dict) else None
                if b.get("cleanup") or not f:
                    continue
                tr = f.get("trait", "").split("::")[-1]
                if tr == "Iterator" and f["name"] not in LAZY:
                    ty = f["args"][0]
                elif tr in ("Extend", "FromIterator") and len(t.get("at", ())) > 0:
                    ty = t["at"][-1]
                else:
                    continue
                n += 1
                self.R.check(finite(self.W.D, self.W.D.ty(ty) if isinstance(ty, int) else ty, dict(env)), "library",
                             "%s: %s in %s" % (self.label, f["name"], fn), lambda: "the iterator may be endless: %s" % (self.W.D.ty(ty),))
        return n


def common(a, b):
    if a is None or b is None:
        return b if a is None else a
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n]


def check(W, R):
    tot = {}
    for ty, name in (("Database", "open"), ("Database", "save"), ("KeyFile", "open"), ("KeyFile", "save")):
        e = W.entry(W.method(ty, name))
        P = Progress(W, R, e, ty + "::" + name)
        n = P.run()
        P.recursion()
        tot["loops"] = tot.get("loops", 0) + n
        tot["library"] = tot.get("library", 0) + P.library()
        for k, v in P.how.items():
            R.count("%s::%s: loops that end by %s" % (ty, name, k), v)
    R.floor("loops", tot["loops"], 20)
    R.floor("loops inside library functions", tot["library"], 3)
