"""Context-sensitive abstract interpretation of the crate's MIR.

One abstract state per basic block: memory (roots -> value terms) and facts
about selectors.  Control-flow joins keep alternatives gated by a merge
selector, loops are widened to `mu` terms until the state is stable, callees
are analysed in the context of the call.  Nothing is executed and no path is
enumerated."""
from . import terms as TT
from .terms import *
from .dump import norm, subst_ty, deref_ty, ty_name, unify

MAXDEPTH = 40


class AnalysisError(Exception):
    pass


class Facts(dict):
    __slots__ = ("memo",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.memo = {}


NOFACTS = Facts()


class Vac(frozenset):
    """values a selector can have if it was evaluated at all"""
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Vac) and frozenset.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return frozenset.__hash__(self) ^ 0x5bd1e995


class State:
    __slots__ = ("mem", "facts")

    def __init__(self, mem, facts):
        self.mem, self.facts = mem, facts

    def copy(self):
        return State(dict(self.mem), self.facts)


class Event:
    __slots__ = ("kind", "name", "fn", "args", "facts", "res", "ctx", "bb", "span", "mem", "ty", "raw")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return f"<{self.name} {self.args} @{self.span}>"


class Run:
    """result of analysing one function in one context"""
    __slots__ = ("fn", "ctx", "events", "calls", "guards", "mus", "exit", "ret", "loops", "parent", "callfacts",
                 "callbb", "env", "args", "edges", "entry")

    def __init__(self, fn, ctx):
        self.fn, self.ctx = fn, ctx
        self.events, self.calls = {}, {}
        self.guards, self.mus, self.loops = {}, {}, {}
        self.edges = {}
        self.exit = None

    def walk(self):
        yield self
        for bb in sorted(self.calls, key=str):
            for r in self.calls[bb]:
                yield from r.walk()


class Frame:
    __slots__ = ("fn", "f", "ctx", "env", "run", "stack", "cfg", "it")


class CFG:
    """blocks, natural loops"""
    def __init__(self, f):
        B = f["blocks"]
        self.succ = {}
        for i, b in enumerate(B):
            if b.get("cleanup"):
                continue
            self.succ[i] = [s for s in self.succs(b["t"]) if not B[s].get("cleanup")]
        # reverse post order
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                st.pop()
        self.rpo = order[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        self.idx = idx
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(self.pred[x])
        self.irreducible = [(b, s) for b in self.rpo for s in self.succ[b]
                            if idx[s] <= idx[b] and not self.dominates(s, b)]

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    @staticmethod
    def succs(t):
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "switch":
            return [x[1] for x in t["ts"]] + [t["o"]]
        if k == "call":
            return [t["t"]] if t.get("t") is not None else []
        if k == "other" and t.get("t") is not None:
            return [t["t"]]
        return []


class Call:
    __slots__ = ("key", "name", "fn", "args", "at", "dt", "site", "env", "span", "fr", "bb", "self_ty", "tyargs", "exp")


class Interp:
    def __init__(self, dump, models):
        self.D = dump
        TT.ADTS.clear()
        TT.ADTS.update(dump.adts)
        self.adts = dump.adts
        self.models = models
        self.ctxs = {}
        self.ctxinfo = []
        self.guards = {}
        self.mus = {}
        self.loopinfo = {}
        self.symty = {}     # parameter -> type
        self.room = {}      # call of Read::read or Write::write -> size of the buffer
        self.whole_reads = {}     # contexts of read implementations that a whole read goes through -> amount
        self.installed = {}
        self.cache = {}
        self.cfgs = {}
        self.unknown = {}
        self.variants = {}
        self.stats = {"blocks": 0, "runs": 0, "hits": 0}
        self.callees = {}
        self.fnconsts = {}
        self.mblock = {}
        self.pargs = {}
        self.reachcache = {}
        self.impidx = {}
        self.general, self.differs = {}, set()

    # ---------------------------------------------------------------- contexts
    def ctx(self, parent, fn, bb):
        k = (parent, fn, bb)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxinfo)
            self.ctxs[k] = c
            self.ctxinfo.append(k)
        return c

    def chain(self, c):
        r = []
        while c is not None:
            p, fn, bb = self.ctxinfo[c]
            r.append((fn, bb, c))
            c = p
        return r[::-1]

    # ---------------------------------------------------------------- facts
    def domain(self, t):
        if t.op == "disc":
            info = self.adts.get(t.a[0])
            if info:
                return [v.get("d") if v.get("d") is not None else i for i, v in enumerate(info["v"])]
            if t.a[0] in (OPT, RES, CF):
                return [0, 1]
        if t.op == "app" and t.a[0] in BOOLS or t.op == "next":
            return [0, 1]
        return None

    def meet(self, facts, t, pos, vals):
        """facts + (t in vals) without looking through t; None if impossible"""
        old = facts.get(t)
        if not pos:
            dom = self.domain(t)
            if dom is not None:
                pos, vals = True, frozenset(x for x in dom if x not in vals)
        if old:
            op, ov = old
            if op and pos:
                vals = Vac(ov & vals) if isinstance(ov, Vac) and isinstance(vals, Vac) else ov & vals
            elif op:
                pos, vals = True, ov - vals
            elif pos:
                vals = vals - ov
            else:
                vals = ov | vals
            if (pos, vals) == old:
                return facts
        if pos and not vals:
            return None
        n = Facts(facts)
        n[t] = (pos, vals)
        if t.op == "imp":
            sel, k, u, p, vs = t.a
            c = n.get(sel)
            if c and self.triggers(c, k):
                return self.meet(n, u, p, vs)
            return n
        if t.op == "app" and t.a[0] == "eq" and pos and len(vals) == 1:
            a, b = t.a[1], t.a[2]
            if b.op == "const":
                v = next(iter(vals))
                n = self.meet(n, a, bool(v), frozenset([b.a[1]]))
        if n is not None and pos and len(vals) == 1 and not isinstance(vals, Vac):
            for x in self.impidx.get((t, next(iter(vals))), ()):
                if x in n:
                    _, _, u, p, vs = x.a
                    n = self.meet(n, u, p, vs)
                    if n is None:
                        return None
        if n is not None and not isinstance(vals, Vac):
            for x in self.impidx.get((t, "!"), ()):
                if x in n and self.triggers((pos, vals), x.a[1]):
                    _, _, u, p, vs = x.a
                    n = self.meet(n, u, p, vs)
                    if n is None:
                        return None
        return n

    @staticmethod
    def triggers(c, k):
        """the fact c about a selector says that alternative k is taken; k: value, or set of the values that are not taken"""
        if isinstance(k, frozenset):
            return not (c[1] & k) if c[0] else k <= c[1]
        return c[0] and c[1] == frozenset([k])

    def imply(self, n, sel, alts, facts, named=None):
        """record what each remaining alternative of a selector implies"""
        for k, _, f in alts:
            if f is facts:
                continue
            if k == "*":
                if sel.op == "M":
                    continue
                k = named
            for u, (p, vs) in f.items():
                if facts.get(u) == (p, vs) or n.get(u) == (p, vs):
                    continue
                x = mk("imp", sel, k, u, p, vs)
                self.impidx.setdefault((sel, "!" if k is named else k), {})[x] = 1
                n = Facts(n) if n is facts else n
                n[x] = (True, frozenset([1]))
        return n

    def assume(self, facts, t, pos, vals):
        vals = frozenset(vals)
        t = self.simp(t, facts)
        if t is BOT:
            return None
        if t.op == "const":
            return facts if (t.a[1] in vals) == pos else None
        if t.op == "app" and t.a[0] == "not":
            return self.assume(facts, t.a[1], pos, [1 - v for v in vals])
        if t.op == "app" and t.a[0] == "cast":
            return self.assume(facts, t.a[3], pos, vals)
        if t.op == "case":
            keep = []
            for k, v in case_alts(t):
                if v.op == "const":
                    if (v.a[1] in vals) == pos:
                        keep.append((k, v, facts))
                elif v is not BOT:
                    f2 = self.assume(facts, v, pos, vals)
                    if f2 is not None:
                        keep.append((k, v, f2))
            if not keep:
                return None
            ks = frozenset(k for k, _, _ in keep)
            if "*" in ks:
                ex = frozenset(k for k, _ in case_alts(t)) - ks
                n = self.assume(facts, t.a[0], False, ex) if ex else facts
            else:
                n = self.restrict(facts, t.a[0], ks)
            if n is None:
                return None
            if len(keep) == 1:
                return n if keep[0][1].op == "const" else self.assume(n, keep[0][1], pos, vals)
            if t.a[0].op == "M":
                extra = self.vacjoin([f for _, _, f in keep], t.a[0], [k for k, _, _ in keep])
                for m, (p, v) in extra.items():
                    if n.get(m) != (p, v):
                        n = self.meet(n, m, p, v)
                        if n is None:
                            return None
            if any(f is not facts for _, _, f in keep):
                n = self.imply(Facts(n), t.a[0], keep, facts, frozenset(k for k, _ in case_alts(t) if k != "*"))
            return n
        return self.meet(facts, t, pos, vals)

    def restrict(self, facts, sel, keys):
        """sel in keys"""
        if sel.op != "M":
            return self.assume(facts, sel, True, keys)
        old = facts.get(sel)
        if old:
            keys = keys & old[1]
            if keys == old[1]:
                return facts
        if not keys:
            return None
        g = self.guards.get(sel)
        n = self.meet(facts, sel, True, keys)
        if n is None:
            return None
        if g:
            if len(keys) == 1:
                imp = g.get(next(iter(keys)))
            else:
                imp = self.join_facts([g[k] for k in keys if k in g])
            for t, (p, v) in (imp or {}).items():
                if t is sel:
                    continue
                if t.op == "M" and not isinstance(v, Vac):
                    n = self.restrict(n, t, v) if p else n
                else:
                    n = self.meet(n, t, p, v)
                if n is None:
                    return None
        return n

    def where(self, t):
        """(context, block) at which a merge selector is evaluated"""
        b = t.a[1]
        w = self.mblock.get(t)
        if w is None:
            import re
            m = re.match(r"[mf]?\(?(\d+)", b)
            w = self.mblock[t] = (t.a[0], int(m.group(1)) if m else None)
        return w

    def vacuous(self, m, ctx, pred):
        """the selector m is not evaluated on paths of frame ctx through block pred"""
        c, b = self.where(m)
        while c is not None and c != ctx:
            p, fn, cb = self.ctxinfo[c]
            c, b = p, (cb[0] if isinstance(cb, tuple) else cb)
        if c is None or b is None:
            return False
        fn = self.ctxinfo[ctx][1]
        return pred not in self.reachable(fn, b)

    def reachable(self, fn, b):
        k = (fn, b)
        r = self.reachcache.get(k)
        if r is None:
            cfg = self.cfg(fn)
            r, w = {b}, [b]
            while w:
                x = w.pop()
                for y in cfg.succ.get(x, ()):
                    if y not in r and not cfg.dominates(y, x):
                        r.add(y)
                        w.append(y)
            self.reachcache[k] = r
        return r

    def vacjoin(self, fs, sel, keys):
        """facts about selectors that hold on every alternative on which the selector is evaluated"""
        ctx = sel.a[0]
        preds = []
        for k in keys:
            p = k[0] if isinstance(k, tuple) else k
            if not isinstance(p, int) or p < 0 or not sel.a[1][:1].isdigit():
                return {}
            preds.append(p)
        ms = set()
        for f in fs:
            for t in f:
                if t.op == "M":
                    ms.add(t)
        out = {}
        for t in ms:
            v, vac = None, False
            for f, p in zip(fs, preds):
                x = f.get(t)
                if x is None or not x[0]:
                    if not self.vacuous(t, ctx, p):
                        v = None
                        break
                    vac = True
                    continue
                vac = vac or isinstance(x[1], Vac)
                v = x[1] if v is None else v | x[1]
            if v:
                out[t] = (True, Vac(v) if vac else frozenset(v))
        return out

    @staticmethod
    def join_facts(fs):
        if not fs:
            return NOFACTS
        if len(fs) == 1:
            return fs[0]
        f0 = min(fs, key=len)
        n = Facts()
        for t, (p, v) in f0.items():
            okk = True
            for f in fs:
                if f is f0:
                    continue
                x = f.get(t)
                if x is None or x[0] != p:
                    okk = False
                    break
                v = Vac(v | x[1]) if p and (isinstance(v, Vac) or isinstance(x[1], Vac)) else (v | x[1]) if p else (v & x[1])
            if okk and (p or v):
                n[t] = (p, v)
        return n

    # ---------------------------------------------------------------- simplification
    def simp(self, t, facts):
        if not t.sels or not facts:
            return t
        if len(facts) < len(t.sels):
            if not any(s in t.sels for s in facts):
                return t
        elif not any(s in facts for s in t.sels):
            return t
        m = facts.memo
        r = m.get(t)
        if r is not None:
            return r
        r = self._simp(t, facts)
        m[t] = r
        return r

    def _simp(self, t, facts):
        op = t.op
        f = facts.get(t)
        if f and f[0] and len(f[1]) == 1 and (op == "disc" or op == "app"):
            v = next(iter(f[1]))
            return cbool(v) if op == "app" and t.a[0] in BOOLS else (cint(v) if not isinstance(v, str) else cstr(v))
        if op == "case":
            sel = t.a[0]
            s2 = self.simp(sel, facts)
            alts = case_alts(t)
            fs = facts.get(s2)
            if fs:
                p, vs = fs
                named = {k for k, _ in alts}
                alts = [(k, v) for k, v in alts if ((k in vs) == p if k != "*" else not p or bool(vs - named))]
            if s2.op == "case" or s2.op == "const":
                return mkcase(s2, [(k, self.simp(v, facts)) for k, v in alts])
            return mkcase(s2, [(k, self.simp(v, facts)) for k, v in alts])
        if op == "app" and t.a[0] == "eq" and t.a[2].op == "const":
            x = self.simp(t.a[1], facts)
            fx = facts.get(x)
            if fx:
                c = t.a[2].a[1]
                if fx[0] and c not in fx[1]:
                    return FALSE
                if fx[0] and len(fx[1]) == 1:
                    return TRUE
                if not fx[0] and c in fx[1]:
                    return FALSE
            return eq(x, t.a[2]) if x is not t.a[1] else t
        n = tuple(self.simp(x, facts) if isinstance(x, T) else x for x in t.a)
        r = t if n == t.a else rebuild(op, n)
        if r is not t and r.sels:
            f = facts.get(r)
            if f and f[0] and len(f[1]) == 1 and (r.op == "disc" or r.op == "app"):
                v = next(iter(f[1]))
                return cbool(v) if r.op == "app" and r.a[0] in BOOLS else cint(v)
        return r

    # ---------------------------------------------------------------- memory
    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = root[1] if root[0] == "o" else BOT
        for p in path:
            v = proj(v, p)
        return v

    def deref(self, st, v):
        def one(x):
            if x.op == "ref":
                return self.load(st, x.a[0], x.a[1])
            r = st.mem.get(("o", x))
            return r if r is not None else x
        if not v.refs and v.op != "case":
            return one(v)
        v = self.simp(v, st.facts)
        return fmap(v, one)

    def pure(self, st, v, depth=0):
        """value with references to memory replaced by what they refer to"""
        if not v.refs or depth > 8:
            return v
        memo = {}

        def go(x):
            if not x.refs:
                return x
            r = memo.get(x)
            if r is None:
                if x.op == "ref":
                    r = self.pure(st, self.load(st, x.a[0], x.a[1]), depth + 1)
                else:
                    n = tuple(go(y) if isinstance(y, T) else y for y in x.a)
                    r = rebuild(x.op, n)
                memo[x] = r
            return r
        return go(v)

    def store(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        base = st.mem.get(root)
        if base is None:
            base = root[1] if root[0] == "o" else BOT
        if base is BOT:
            # first write to a field of an uninitialised aggregate
            base = mk("sym", "uninit")
        st.mem[root] = update(base, tuple(path), val)

    def write_through(self, st, ptr, path, val):
        ptr = self.simp(ptr, st.facts)
        if ptr.op == "ref":
            self.store(st, ptr.a[0], ptr.a[1] + tuple(path), val)
        elif ptr.op == "case":
            olds = {}
            alts = {}
            for k, p in case_alts(ptr):
                s2 = State(dict(st.mem), st.facts)
                self.write_through(s2, p, path, val)
                alts[k] = s2.mem
            for r in set().union(*[set(m) for m in alts.values()]):
                vs = [(k, m.get(r, st.mem.get(r, r[1] if r[0] == "o" else BOT))) for k, m in alts.items()]
                st.mem[r] = self.mergeval(ptr.a[0], vs)
        elif ptr is not BOT:
            self.store(st, ("o", ptr), path, val)

    # ---------------------------------------------------------------- places
    def split(self, fr, place, st):
        """-> (pointer or None, local root, path)"""
        l, projs = place
        root = ("l", fr.ctx, l)
        ptr = None
        path = []
        var = None
        for p in projs:
            k = p[0]
            if k == "*":
                v = self.load(st, root, path) if ptr is None else self.load_through(st, ptr, path)
                v = self.simp(v, st.facts)
                if v.op == "agg" and v.a[0] == "box":
                    path.append(("f", None, "0", None))
                    continue
                ptr, path = v, []
            elif k == "f":
                path.append(("f", var[0] if var else None, p[2], var[1] if var else None))
                var = None
            elif k == "v":
                var = (p[2], p[1])
            elif k == "i":
                path.append(("i", self.simp(self.load(st, ("l", fr.ctx, p[1])), st.facts)))
            elif k == "c":
                path.append(("i", cint(p[1])) if not p[3] else ("i", app("fromend", cint(p[1]))))
            elif k == "s":
                path.append(("s", p[1], p[2] if not p[3] else -p[2]))
        return ptr, root, tuple(path)

    def load_through(self, st, ptr, path):
        v = self.deref(st, ptr)
        for p in path:
            v = proj(v, p)
        return v

    def read(self, fr, st, place):
        ptr, root, path = self.split(fr, place, st)
        return self.load(st, root, path) if ptr is None else self.load_through(st, ptr, path)

    def write(self, fr, st, place, val):
        ptr, root, path = self.split(fr, place, st)
        if ptr is None:
            self.store(st, root, path, val)
        else:
            self.write_through(st, ptr, path, val)

    def addr(self, fr, st, place):
        ptr, root, path = self.split(fr, place, st)
        if ptr is None:
            return mk("ref", root, path)

        def one(x):
            if x.op == "ref":
                return mk("ref", x.a[0], x.a[1] + path)
            if x is BOT:
                return x
            if not path:
                return x
            return mk("ref", ("o", x), path)
        return fmap(ptr, one)

    # ---------------------------------------------------------------- operands
    def const_val(self, v, t, env):
        c = v["c"]
        if c == "int":
            return cint(v["v"])
        if c == "bool":
            return cbool(v["v"])
        if c in ("str", "char"):
            return const(c, v["v"])
        if c == "bytes":
            return const("bytes", tuple(v["v"]))
        if c == "ref":
            ty = self.D.ty(t)
            return self.const_val(v["v"], None, env) if ty[0] != "ref" else self.const_val2(v["v"], ty[2], env)
        return self.const_val2(v, self.D.ty(t, env) if t is not None else ("other",), env)

    def const_val2(self, v, ty, env):
        c = v["c"]
        if c == "agg":
            if ty[0] == "tuple":
                return agg("tuple", 0, [str(i) for i in range(len(v["v"]))],
                           *[self.const_val2(x, ty[1 + i], env) for i, x in enumerate(v["v"])])
            if ty[0] == "adt":
                info = self.adts.get(ty[1])
                vi = v.get("var") or 0
                if info:
                    names = [f["n"] for f in info["v"][vi]["f"]]
                    tys = [self.D.ty(f["t"]) for f in info["v"][vi]["f"]]
                else:
                    names = [str(i) for i in range(len(v["v"]))]
                    tys = [("other",)] * len(names)
                return agg(ty[1], vi, names, *[self.const_val2(x, tys[i], env) for i, x in enumerate(v["v"])])
            return mk("sym", "const", repr(v))
        if c == "array":
            el = ty[2] if ty[0] == "array" else (ty[1] if ty[0] == "slice" else ("other",))
            xs = [self.const_val2(x, el, env) for x in v["v"]]
            if xs and all(x.op == "const" and x.a[0] == "int" for x in xs) and el == ("prim", "u8"):
                return const("bytes", tuple(x.a[1] for x in xs))
            return agg("array", 0, (), *xs)
        if c == "ref":
            return self.const_val2(v["v"], ty[2] if ty[0] == "ref" else ("other",), env)
        if c in ("static", "fn", "opaque"):
            return mk("sym", c, repr(v.get("v")))
        return self.const_val(v, None, env)

    def fnval(self, fn, env):
        key = repr(fn) + repr(sorted(env.items())) if env else repr(fn)
        self.fnconsts[key] = (fn, env)
        return const("fn", key)

    def operand(self, fr, st, o):
        if "const" in o:
            c = o["const"]
            if "fn" in c:
                return self.fnval(c["fn"], fr.env)
            if "v" in c:
                return self.const_val(c["v"], c["t"], fr.env)
            ty = self.D.ty(c["t"], fr.env)
            if ty[0] == "fndef":
                return self.fnval(self.D.types[ty[2]]["f"], fr.env)
            if ty[0] == "tuple" and len(ty) == 1:
                return UNIT
            return mk("sym", "const", c.get("item") or str(c.get("t")))
        pl = o.get("copy") or o.get("move")
        return self.read(fr, st, pl)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, bb, i, sp):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            if r[1] in ("mut", "raw"):
                return self.addr(fr, st, r[2])
            return self.read(fr, st, r[2])
        if k == "discr":
            v = self.simp(self.read(fr, st, r[1]), st.facts)
            return self.disc(v, ty_name(self.place_ty(fr, r[1])))
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            a, b = self.simp(a, st.facts), self.simp(b, st.facts)
            return self.binop(fr, st, r[1], a, b, bb, i, sp, r)
        if k == "un":
            a = self.simp(self.operand(fr, st, r[2]), st.facts)
            if r[1] == "Not":
                if a.op == "const" and a.a[0] == "int":
                    return app("bitnot", a)
                return not_(a)
            if r[1] == "PtrMetadata":
                return length(a)
            return app("un", r[1], a)
        if k == "cast":
            a = self.operand(fr, st, r[2])
            if r[1].startswith("PointerCoercion") or r[1] in ("PtrToPtr", "Transmute"):
                if r[1].startswith("PointerCoercion(ReifyFn") or r[1].startswith("PointerCoercion(Closure"):
                    return a
                return a
            a = self.simp(a, st.facts)
            ft, tt = ty_name(self.D.ty(r[3], fr.env)), ty_name(self.D.ty(r[4], fr.env))
            self.event(fr, st, "cast", bb, (i,), r[1], [a], None, sp, raw=(ft, tt))
            return self.cast(ft, tt, a, st.facts)
        if k == "agg":
            ops = [self.operand(fr, st, x) for x in r[2]]
            h = r[1]
            if h[0] == "tuple":
                return tup(*ops)
            if h[0] == "array":
                if len(ops) > 0 and all(x.op == "const" and x.a[0] == "int" for x in ops) and \
                        self.D.ty(h[1]) == ("prim", "u8"):
                    return const("bytes", tuple(x.a[1] for x in ops))
                return agg("array", 0, (), *ops)
            if h[0] == "adt":
                return agg(h[1], h[2], h[4], *ops)
            if h[0] == "closure":
                env = tuple(sorted(fr.env.items()))
                return agg(("clo", h[1], env), 0, [str(i) for i in range(len(ops))], *ops)
            return app("agg_" + str(h[0]), *ops)
        if k == "repeat":
            return app("repeat", self.operand(fr, st, r[1]), cint(r[2]) if isinstance(r[2], int) else mk("sym", str(r[2])))
        return mk("sym", "rv:" + k, fr.ctx, bb, i)

    def place_ty(self, fr, place):
        """type of a place"""
        t = self.D.ty(fr.f["locals"][place[0]]["t"], fr.env)
        for p in place[1]:
            k = p[0]
            if k == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[2]
                elif t[0] == "adt" and len(t) > 2:
                    t = t[2]
            elif k == "f":
                t = self.D.ty(p[3], fr.env)
            elif k in ("i", "c"):
                t = t[2] if t[0] == "array" else (t[1] if t[0] == "slice" else ("other",))
        return t

    def operand_ty(self, fr, o):
        if "const" in o:
            return self.D.ty(o["const"]["t"], fr.env)
        return self.place_ty(fr, o.get("copy") or o.get("move"))

    def disc(self, v, adt):
        def one(x):
            if x is BOT:
                return BOT
            if x.op == "agg":
                a = x.a[0] if isinstance(x.a[0], str) else adt
                return cint(disc_value(self.adts, a, x.a[1]))
            return mk("disc", adt, x)
        return fmap(v, one)

    INTW = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "i8": (1, 8), "i16": (1, 16),
            "i32": (1, 32), "i64": (1, 64), "isize": (1, 64), "bool": (0, 1), "char": (0, 21), "u128": (0, 128), "i128": (1, 128)}

    def cast(self, ft, tt, a, facts=None):
        def fits(x, w):
            """the path is taken only if the number fits"""
            for y, (p, vs) in (facts or {}).items():
                if y.op == "app" and y.a[0] == "lt" and p and len(vs) == 1:
                    v, l, h = next(iter(vs)), y.a[1], y.a[2]
                    if v and l is x and h.op == "const" and h.a[1] <= 1 << w or not v and h is x and l.op == "const" and l.a[1] < 1 << w:
                        return True
            return False

        def one(x):
            if x is BOT:
                return x
            if x.op == "const":
                v = int(x.a[1]) if not isinstance(x.a[1], str) else ord(x.a[1])
                w = self.INTW.get(tt)
                if tt == "char":
                    return const("char", chr(v))
                if w:
                    v &= (1 << w[1]) - 1
                    if w[0] and v >> (w[1] - 1):
                        v -= 1 << w[1]
                return cint(v)
            f, t = self.INTW.get(ft), self.INTW.get(tt)
            if f and t and ((f[0] == t[0] and f[1] <= t[1]) or (not f[0] and t[0] and f[1] < t[1])):
                return x
            if x.op == "disc":
                return x
            if f and t and not f[0] and not t[0] and fits(x, t[1]):
                return app("exact", tt, x)
            return app("cast", ft, tt, x)
        return fmap(a, one)

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, fr, st, op, a, b, bb, i, sp, r):
        if a is BOT or b is BOT:
            return BOT
        if op in self.CMP:
            if a.op == "const" and b.op == "const" and op not in ("Eq", "Ne"):
                x, y = a.a[1], b.a[1]
                return cbool({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            if op == "Eq":
                return eq(a, b)
            if op == "Ne":
                return not_(eq(a, b))
            if op == "Lt":
                return app("lt", a, b)
            if op == "Gt":
                return app("lt", b, a)
            if op == "Ge":
                return not_(app("lt", a, b))
            return not_(app("lt", b, a))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("BitAnd", "BitOr") and (self.isbool(a) or self.isbool(b)):
            if op == "BitOr":
                return mkcase(a, [(1, TRUE), (0, b)])
            return mkcase(a, [(1, b), (0, FALSE)])
        if a.op == "const" and b.op == "const" and isinstance(a.a[1], int) and isinstance(b.a[1], int):
            x, y = a.a[1], b.a[1]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                 "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y,
                 "Div": lambda: x // y if y else 0, "Rem": lambda: x % y if y else 0}.get(base)
            if f:
                v = cint(f())
                return tup(v, FALSE) if op.endswith("WithOverflow") else v
        v = app(base.lower(), a, b)
        if op.endswith("WithOverflow"):
            return tup(v, app("ovf", base, a, b))
        if base in ("Add", "Sub", "Mul", "Shl", "Shr", "Div", "Rem"):
            self.event(fr, st, "arith", bb, (i,), base, [a, b], v, sp)
        return v

    @staticmethod
    def isbool(t):
        return (t.op == "const" and t.a[0] == "bool") or (t.op == "app" and (t.a[0] in BOOLS or t.a[0] == "not"))

    # ---------------------------------------------------------------- events
    def event(self, fr, st, kind, bb, sub, name, args, res, span, raw=None, fn=None, ty=None):
        e = Event(kind=kind, name=name, args=args, facts=st.facts, res=res, ctx=fr.ctx, bb=bb, span=span, raw=raw, fn=fn, ty=ty)
        fr.run.events.setdefault(bb, {})[(kind, name) + tuple(sub) + fr.it] = e
        return e

    # ---------------------------------------------------------------- merging
    def mergeval(self, sel, alts):
        v0 = alts[0][1]
        if all(v is v0 for _, v in alts):
            return v0
        live = [v for _, v in alts if v is not BOT]
        if not live:
            return BOT
        a0 = live[0]
        if all(v is a0 for v in live):
            return a0
        if all(v.op == "agg" and v.a[:3] == a0.a[:3] and len(v.a) == len(a0.a) for v in live) and len(a0.a) > 3:
            al = [(k, v) for k, v in alts if v is not BOT]
            return mk("agg", *(a0.a[:3] + tuple(
                self.mergeval(sel, [(k, v.a[i]) for k, v in al]) for i in range(3, len(a0.a)))))
        if all(v.op == "ref" for v in live) and False:
            return a0
        return mkcase(sel, alts)

    def merge(self, sel, ins):
        """ins: [(key, State)]"""
        if len(ins) == 1:
            return ins[0][1].copy()
        roots = {}
        for _, s in ins:
            for r in s.mem:
                roots[r] = None
        mem = {}
        m0 = ins[0][1].mem
        for r in roots:
            v0 = m0.get(r)
            same = v0 is not None
            for _, s in ins[1:]:
                if s.mem.get(r) is not v0:
                    same = False
                    break
            if same:
                mem[r] = v0
                continue
            dflt = r[1] if r[0] == "o" else (cint(0) if r[0] == "g" else BOT)
            mem[r] = self.mergeval(sel, [(k, self.simp(s.mem.get(r, dflt), s.facts)) for k, s in ins])
        g = {k: s.facts for k, s in ins}
        self.guards[sel] = g
        jf = self.join_facts([s.facts for _, s in ins])
        ex = self.vacjoin([s.facts for _, s in ins], sel, [k for k, _ in ins])
        if ex:
            jf = Facts(jf)
            for t, v in ex.items():
                jf[t] = v
        return State(mem, jf), g

    # ---------------------------------------------------------------- widening
    def widen(self, h, b, mkmu, path=()):
        if h is b:
            return h
        if b is BOT:
            return h
        if h.op == "mu" and h is mkmu(path):
            return h
        if h.op == "agg" and b.op == "agg" and h.a[:3] == b.a[:3] and len(h.a) == len(b.a) and len(h.a) > 3:
            return mk("agg", *(h.a[:3] + tuple(
                self.widen(x, y, mkmu, path + (n,)) for n, x, y in
                zip(h.a[2] or [str(i) for i in range(len(h.a) - 3)], h.a[3:], b.a[3:]))))
        if h.op == "upd" or b.op == "upd":
            # some fields of the same struct
            (ho, hb), (bo, bb) = chain(h), chain(b)
            if hb is bb and (ho or bo):
                new = h
                for p in [q for q, _ in ho] + [q for q, _ in bo if q not in dict(ho)]:
                    x, y = proj(h, p), proj(b, p)
                    if x is not y:
                        new = update(new, (p,), self.widen(x, y, mkmu, path + (p[2],)))
                return new
        return mkmu(path)

    def record_mus(self, h, e, b, mus, mkmu, path=()):
        if h.op == "mu" and h is mkmu(path):
            mus[h] = (e, b)
        elif h.op == "agg" and h is not b:
            ns = h.a[2] or [str(i) for i in range(len(h.a) - 3)]
            for i, n in enumerate(ns):
                x = h.a[3 + i]
                pe = e.a[3 + i] if e.op == "agg" and e.a[:3] == h.a[:3] else mk("fld", None, n, e)
                pb = b.a[3 + i] if b.op == "agg" and b.a[:3] == h.a[:3] else mk("fld", None, n, b)
                self.record_mus(x, pe, pb, mus, mkmu, path + (n,))
        elif h.op == "upd" and h is not b:
            for p, x in chain(h)[0]:
                self.record_mus(x, proj(e, p), proj(b, p), mus, mkmu, path + (p[2],))

    # ---------------------------------------------------------------- functions
    def cfg(self, fn):
        c = self.cfgs.get(fn)
        if c is None:
            c = self.cfgs[fn] = CFG(self.D.fns[fn])
        return c

    sticky = ()
    fallible = {}        # operations that can fail
    errty = {}           # the type of their errors

    def analyse(self, fn, args=None, env=None, pre=None):
        """entry point; args default to symbols named after the parameters"""
        f = self.D.fns[fn]
        self.fallible = {}
        self.errty = {}
        ctx = self.ctx(None, fn, 0)
        st = State({("g", "err"): cint(0), ("g", "early"): cint(0), ("g", "doc"): cint(0)}, NOFACTS)
        if args is None:
            args = [self.param(st, f, i) for i in range(1, f["argc"] + 1)]
        if pre:
            pre(st)
        e = {n: ("param", n) for _, n in f["generics"]}
        if env:
            e.update(env)
        run, out = self.run(fn, ctx, args, e, st, ())
        run.parent = None
        run.args = args
        return run

    def param(self, st, f, i):
        l = f["locals"][i]
        ty = self.D.ty(l["t"])
        name = l.get("n") or f"arg{i}"
        s = mk("sym", name)
        self.symty[s] = ty
        if ty[0] == "ref" and ty[1]:
            st.mem[("p", name)] = s
            return mk("ref", ("p", name), ())
        return s

    def reach(self, mem, vals):
        """roots reachable from values"""
        seen = set()
        work = list(vals)
        vis = set()
        while work:
            v = work.pop()
            for r in v.refs:
                if r not in seen:
                    seen.add(r)
                    x = mem.get(r)
                    if x is not None:
                        work.append(x)
        return seen

    def call_local(self, fr, st, bb, fn, args, env, sub=()):
        """analyse a local function in the context of this call"""
        f = self.D.fns[fn]
        if not f["blocks"]:
            raise AnalysisError("no body: " + fn)
        ctx = self.ctx(fr.ctx, fn, (bb,) + tuple(sub) + fr.it if sub or fr.it else bb)
        args = [self.simp(a, st.facts) for a in args]
        if self.general and not any(s[0] == fn for s in fr.stack):
            args = self.generalise(st, fn, args)
        self.pargs[ctx] = [self.pure(st, a) for a in args]
        sig = (fn, tuple((i, a) for i, a in enumerate(args) if a.op == "const" or (a.op == "agg" and len(a.a) == 3)))
        if sum(1 for s in fr.stack if s == sig) >= 1 or len(fr.stack) > MAXDEPTH:
            if len(fr.stack) > MAXDEPTH:
                raise AnalysisError("call depth exceeded at " + fn)
            res, _ = self.rec_call(fr, st, bb, fn, args, sub)
            self.note_err(st.mem, fn, res, res, None)
            return res, None
        if self.cfg(fn).irreducible:
            raise AnalysisError("irreducible control flow in " + fn)
        roots = self.reach(st.mem, args)
        for r in st.mem:
            if r[0] in ("g", "o", "s"):
                roots.add(r)
        roots = [r for r in st.mem if r in roots]
        sub_mem = {}
        for r in roots:
            sub_mem[r] = self.simp(st.mem[r], st.facts)
        rel = set()
        for v in list(sub_mem.values()) + args:
            rel |= v.sels
        fkeep = Facts((t, v) for t, v in st.facts.items() if t in rel or t in self.sticky or any(
            isinstance(y, T) and y in rel for y in t.a))
        key = (ctx, tuple(args), tuple(sorted(env.items())), tuple(sub_mem.items()), frozenset(fkeep.items()))
        c = self.cache.get(key)
        if c is None:
            self.stats["runs"] += 1
            s2 = State(dict(sub_mem), fkeep)
            run, out = self.run(fn, ctx, args, env, s2, fr.stack + (sig,))
            if out is not None:
                self.note_err(out.mem, fn, run.ret, mk("call", "local:" + fn, ctx), run)
            c = (run, out)
            self.cache[key] = c
            self.installed[ctx] = run
        else:
            self.stats["hits"] += 1
            self.install(c[0])
        run, out = c
        fr.run.calls.setdefault(bb, [])
        fr.run.calls[bb] = [r for r in fr.run.calls[bb] if r.ctx != ctx] + [run]
        run.callfacts = st.facts
        run.callbb = bb
        run.parent = fr.run
        if out is None:
            return None, run
        for r, v in out.mem.items():
            if r[0] == "l" and r[1] == ctx:
                continue
            st.mem[r] = v
        if out.facts:
            n = Facts(st.facts)
            for t, v in out.facts.items():
                if t in n and n[t] != v:
                    x = self.meet(n, t, v[0], v[1])
                    n = x if x is not None else n
                else:
                    n[t] = v
            st.facts = n
        return run.ret, run

    def install(self, run):
        if self.installed.get(run.ctx) is run:
            # nested runs may have been replaced meanwhile
            pass
        self.installed[run.ctx] = run
        for r in run.walk():
            self.installed[r.ctx] = r
            self.guards.update(r.guards)
            self.mus.update(r.mus)
            for h, L in r.loops.items():
                if "hn" in L:
                    self.loopinfo[(r.ctx, L["hn"])] = (r, h)

    def generalise(self, st, fn, args):
        """arguments that differ between the outermost and a recursive call stand for any value"""
        out = []
        for i, a in enumerate(args):
            ty = self.general.get((fn, i))
            if ty is not None:
                x = mk("sym", "rec%d" % i)
                if a.op == "ref":
                    self.store(st, a.a[0], a.a[1], x)
                else:
                    a = x
            out.append(a)
        return out

    def rec_differs(self, st, fn, ctx, args):
        """parameters whose value in a recursive call is neither the same as in the enclosing activation
        nor a part of it"""
        c = ctx
        while c is not None and self.ctxinfo[c][1] != fn:
            c = self.ctxinfo[c][0]
        if c is None or c not in self.pargs:
            return
        for i, a in enumerate(args):
            if (fn, i) in self.general or i >= len(self.pargs[c]):
                continue
            x, y = self.pure(st, a), self.pargs[c][i]
            if x.op == "agg" and isinstance(x.a[0], str) and x.a[0].startswith("%"):
                continue
            if x is y or self.same_value(x, y):
                continue
            if y in subterms(x) and y.op != "const":
                continue
            self.differs.add((fn, i))

    def same_value(self, x, y):
        return False

    def rec_call(self, fr, st, bb, fn, args, sub):
        self.rec_differs(st, fn, fr.ctx, args)
        site = (fr.ctx, bb) + tuple(sub) + fr.it
        pargs = [self.pure(st, a) if a.op != "ref" else BOT for a in args]
        res = mk("call", "rec:" + fn, site, *pargs)
        self.event(fr, st, "rec", bb, sub, fn, args, res, None, raw=dict(st.mem))
        for a in args:
            if not self.models.on_rec(self, st, a, res):
                self.havoc(st, a, site, res)
        return res, None

    def note_err(self, mem, fn, ret, who, run):
        """ghost: a function of the crate has failed (functions that only make errors are no operations)"""
        t = self.D.ty(self.D.fns[fn]["locals"][0]["t"])
        if t[0] != "adt" or t[1] != "core::result::Result":
            return
        e = mk("sym", "err", who)
        self.fallible[who] = True

        def failed(x):
            if x.op == "sym" and x.a[0] == "err" or x.op == "app" and x.a[0] == "errs":
                return x
            return e if x is cint(0) else app("errs", x, e)
        seen = [0, 0]

        def go(r, old):
            if r.op == "case":
                ks = [k for k, _ in case_alts(r) if k != "*"]
                alts = []
                for k, v in case_alts(r):
                    f = self.assume(NOFACTS, r.a[0], False, ks) if k == "*" else self.assume(NOFACTS, r.a[0], True, [k])
                    alts.append((k, BOT if v is BOT or f is None else go(v, self.simp(old, f))))
                return mkcase(r.a[0], alts)
            if r is BOT:
                return BOT
            if r.op == "agg":
                seen[r.a[1]] += 1
                return old if r.a[1] == 0 else fmap(old, failed)
            seen[0] += 1
            return mkcase(mk("disc", "core::result::Result", r), [(0, old), (1, fmap(old, failed))])
        new = go(ret, mem.get(("g", "err"), cint(0)))
        if seen[0] or run is None:
            mem[("g", "err")] = new

    def havoc(self, st, a, site, res):
        """an unknown callee may change what a &mut argument refers to; objects
        with modelled identity keep it"""
        def one(x):
            if x.op == "ref":
                v = self.load(st, x.a[0], x.a[1])
                if v.op == "agg" and isinstance(v.a[0], str) and v.a[0].startswith("%"):
                    return
                if v.op in ("call", "sym"):
                    return
                if v.refs:
                    return
                self.store(st, x.a[0], x.a[1], mk("out", "rec", site, v))
        for y in ([v for _, v in case_alts(a)] if a.op == "case" else [a]):
            one(y)

    def run(self, fn, ctx, args, env, st, stack):
        f = self.D.fns[fn]
        fr = Frame()
        fr.fn, fr.f, fr.ctx, fr.env, fr.stack, fr.it = fn, f, ctx, env, stack, ()
        if not stack:
            fr.stack = ((fn, ()),)
        fr.cfg = self.cfg(fn)
        fr.run = Run(fn, ctx)
        fr.run.env = env
        fr.run.args = args
        fr.run.entry = dict(st.mem)
        for i, a in enumerate(args):
            st.mem[("l", ctx, i + 1)] = a
        edges = fr.run.edges
        edges[(-1, 0)] = st
        order = fr.cfg.rpo
        self.region(fr, order, None, edges)
        rets = [b for b in order if f["blocks"][b]["t"]["k"] == "return" and (b, "ret") in edges]
        run = fr.run
        if not rets:
            run.ret, run.exit = BOT, None
            run.edges = {k: None for k in edges}
            return run, None
        if len(rets) == 1:
            out = edges[(rets[0], "ret")]
        else:
            sel = mk("M", ctx, "ret")
            out, g = self.merge(sel, [(b, edges[(b, "ret")]) for b in rets])
            run.guards[sel] = g
        run.ret = self.simp(out.mem.get(("l", ctx, 0), UNIT), out.facts)
        mem = {}
        for r, v in out.mem.items():
            if r[0] == "l" and r[1] == ctx:
                continue
            mem[r] = self.simp(v, out.facts)
        # roots of our own locals that escaped through the result stay
        for r in self.reach(out.mem, [run.ret] + list(mem.values())):
            if r[0] == "l" and r[1] == ctx and r not in mem:
                mem[("l", ctx, r[2])] = out.mem.get(r, BOT)
        run.exit = State(mem, out.facts)
        run.edges = {k: None for k in edges}
        return run, run.exit

    def region(self, fr, order, head, edges):
        loops = fr.cfg.loops
        done = set()
        for b in order:
            if b in done:
                continue
            if b in loops and b != head:
                body = loops[b]
                sub = [x for x in order if x in body]
                self.loop(fr, b, sub, body, edges)
                done |= body
            else:
                self.block(fr, b, edges, b == head)

    def incoming(self, fr, b, edges, only=None):
        ins = []
        for p in ([-1] if b == 0 else []) + fr.cfg.pred[b]:
            if only is not None and p not in only:
                continue
            s = edges.get((p, b))
            if s is not None:
                if isinstance(s, list):
                    ins.extend(((p, i), x) for i, x in s)
                else:
                    ins.append((p, s))
        return ins

    def join(self, fr, b, ins, tag=""):
        if not ins:
            return None
        if len(ins) == 1:
            return ins[0][1].copy()
        sel = mk("M", fr.ctx, str(b) + tag + ("#" + str(fr.it) if fr.it else ""))
        s, g = self.merge(sel, ins)
        fr.run.guards[sel] = g
        return s

    def loop(self, fr, h, sub, body, edges):
        outside = [p for p in ([-1] if h == 0 else []) + fr.cfg.pred[h] if p not in body]
        E = self.join(fr, h, self.incoming(fr, h, edges, outside), "e")
        if E is None:
            return

        for r, v in E.mem.items():
            E.mem[r] = self.simp(v, E.facts)

        hn = (h,) + fr.it if fr.it else h

        def mkmu_for(root):
            return lambda path: mk("mu", fr.ctx, hn, root, path)
        H = E.copy()
        live = set(E.mem)
        for it in range(40):
            for (p, s) in [k for k in edges if k[0] in body]:
                del edges[(p, s)]
            for b in body:
                fr.run.events.pop(b, None)
                fr.run.calls.pop(b, None)
            edges[("H", h)] = H.copy()
            self.region(fr, sub, h, edges)
            ins = self.incoming(fr, h, edges, [p for p in fr.cfg.pred[h] if p in body])
            if not ins:
                break
            B = self.join(fr, h, ins, "b")
            changed = False
            N = {}
            fin = {}
            for r in list(H.mem) + [x for x in B.mem if x not in H.mem]:
                if r not in live and r[0] != "o":
                    continue
                dflt = r[1] if r[0] == "o" else BOT
                hv = H.mem.get(r, dflt)
                bv = self.simp(B.mem.get(r, dflt), B.facts)
                fin[r] = bv
                if hv is BOT and bv is not BOT:
                    continue
                w = self.widen(hv, bv, mkmu_for(r))
                N[r] = w
                if w is not H.mem.get(r, dflt if r[0] == "o" else None):
                    changed = True
            if not changed:
                mus = {}
                for r, hv in H.mem.items():
                    if r in fin:
                        self.record_mus(hv, E.mem.get(r, r[1] if r[0] == "o" else BOT), fin[r], mus, mkmu_for(r))
                fr.run.mus.update(mus)
                self.mus.update(mus)
                X = [x.facts for (p, t), st in edges.items() if p in body and t not in body and st is not None
                     for x in ([y for _, y in st] if isinstance(st, list) else [st])]
                fr.run.loops[h] = {"E": E, "H": H, "B": B, "X": X, "body": body, "hn": hn}
                self.loopinfo[(fr.ctx, hn)] = (fr.run, h)
                self.partial(fr, h, body, edges, mus)
                return
            # keep the entry for roots the body no longer mentions
            for r in H.mem:
                if r not in N and r in E.mem:
                    N[r] = H.mem[r]
            H = State(N, E.facts)
        else:
            raise AnalysisError(f"loop at {fr.fn} bb{h} does not stabilise")
        fr.run.loops[h] = {"E": E, "H": H, "B": None, "body": body}

    def partial(self, fr, h, body, edges, mus):
        """a loop over a collection that is left before the collection is exhausted: mark what it has computed so far"""
        inner = [x for g, x in fr.cfg.loops.items() if g != h and g in body]
        nx = [e for b in body if not any(b in x for x in inner) for e in fr.run.events.get(b, {}).values() if e.kind == "next"]
        if not nx and mus:
            k = self.counting(fr.run, h)
            if k is not None:
                self.mark_exits(body, edges, mus, k[1], {})
        if len(nx) != 1 or not mus:
            return
        site = nx[0].args[2]
        # a list to which the loop appends every element as it is has got the whole collection when the loop is done
        it = nx[0].args[0]
        whole = {}
        if it.op == "agg" and it.a[0] == "%it" and len(it.a) == 6 and it.a[4].op == "agg" and len(it.a[4].a) == 3 and self.whole(it.a[5], mus):
            for x, (e, b) in mus.items():
                if b.op == "app" and b.a[0] == "cat" and len(b.a) == 3 and b.a[1] is x and b.a[2].op == "app" and b.a[2].a[0] == "one":
                    y = b.a[2].a[1]
                    if y.op == "elem" and y.a[0] is it.a[3] and not any(z in mus for z in subterms(it.a[3])) and (fr.ctx,) + tuple(y.a[1][1:]) == y.a[1] \
                            and mk("next", *y.a[1]) is site:
                        whole[x] = cat(e, it.a[3])
        self.mark_exits(body, edges, mus, site, whole)

    def counting(self, run, h):
        """(counter, condition) of a loop that counts from 0 up to a bound which it does not change: `i < n`"""
        L = run.loops.get(h)
        if not L or L.get("B") is None:
            return None
        hn = L["hn"]
        for m, (E, B) in run.mus.items():
            if m.a[:2] != (run.ctx, hn) or E is not cint(0) or B.op != "app" or B.a[0] != "add" or B.a[1] is not m or B.a[2] is not cint(1):
                continue
            for t, p in L["B"].facts.items():
                if t.op == "app" and t.a[0] == "lt" and t.a[1] is m and p == (True, frozenset([1])) and not isinstance(p[1], Vac) \
                        and not any(x.op == "mu" and x.a[:2] == m.a[:2] for x in subterms(t.a[2])):
                    return m, t
        return None

    def mark_exits(self, body, edges, mus, site, whole):
        """what has been computed on the ways out of a loop other than by its end is a part only"""
        m = {x: app("part", x) for x in mus if x.op == "mu"}
        memo, memo2 = {}, {}

        def mark(x):
            if x.facts.get(site) == (True, frozenset([0])):
                if not whole:
                    return x
                y = x.copy()
                for r, v in x.mem.items():
                    y.mem[r] = subst(v, whole, memo2)
                return y
            y = x.copy()
            for r, v in x.mem.items():
                y.mem[r] = subst(v, m, memo)
            return y
        for (p, s), st in list(edges.items()):
            if p not in body or s in body or st is None:
                continue
            edges[(p, s)] = [(i, mark(x)) for i, x in st] if isinstance(st, list) else mark(st)

    def whole(self, adv, mus):
        """the position of the iterator before a round of the loop: nothing was taken before the loop"""
        return adv is cint(0) or adv in mus and mus[adv][0] is cint(0)

    def block(self, fr, b, edges, is_head):
        if is_head:
            st = edges[("H", b)].copy()
        else:
            st = self.join(fr, b, self.incoming(fr, b, edges))
        if st is None:
            return
        self.stats["blocks"] += 1
        B = fr.f["blocks"][b]
        for i, s in enumerate(B["s"]):
            op = s[0]
            if op == "=":
                v = self.rvalue(fr, st, s[2], b, i, s[3])
                self.write(fr, st, s[1], v)
            elif op == "dead":
                st.mem.pop(("l", fr.ctx, s[1]), None)
            elif op == "setd":
                raise AnalysisError("set-discriminant in " + fr.fn)
        self.term(fr, st, b, B["t"], edges)

    def edge(self, fr, edges, b, t, st):
        fr_b = edges.get((b, t))
        if fr_b is None:
            edges[(b, t)] = st
        elif isinstance(fr_b, list):
            fr_b.append((len(fr_b), st))
        else:
            edges[(b, t)] = [(0, fr_b), (1, st)]

    def leave(self, fr, st, b, t):
        """ghost: leaving an iteration before the iterator is exhausted"""
        for h, body in fr.cfg.loops.items():
            if b in body and t not in body:
                for k, v in st.facts.items():
                    if k.op == "next" and k.a[0] == fr.ctx and k.a[1] in body and v == (True, frozenset([1])) \
                            and self.innermost(fr, k.a[1]) == h:
                        st.mem[("g", "early")] = mk("sym", "early", k)
        return st

    def innermost(self, fr, b):
        best = None
        for h, body in fr.cfg.loops.items():
            if b in body and (best is None or len(body) < len(fr.cfg.loops[best])):
                best = h
        return best

    def term(self, fr, st, b, t, edges):
        k = t["k"]
        B = fr.f["blocks"]
        if k in ("goto", "drop"):
            if k == "drop":
                self.models.on_drop(self, fr, st, b, t)
            self.edge(fr, edges, b, t["t"], self.leave(fr, st, b, t["t"]))
        elif k == "switch":
            d = self.simp(self.operand(fr, st, t["d"]), st.facts)
            seen = []
            targets = {}
            for v, tb in t["ts"]:
                seen.append(v)
                f2 = self.assume(st.facts, d, True, [v])
                if f2 is not None and not self.dead_end(B, tb):
                    targets.setdefault(tb, []).append((v, f2))
            f2 = self.assume(st.facts, d, False, seen)
            if f2 is not None and not self.dead_end(B, t["o"]):
                targets.setdefault(t["o"], []).append(("*", f2))
            for tb, fs in targets.items():
                for v, f2 in fs:
                    s2 = State(dict(st.mem), f2)
                    self.edge(fr, edges, b, tb, self.leave(fr, s2, b, tb))
        elif k == "return":
            edges[(b, "ret")] = st
        elif k == "assert":
            c = self.simp(self.operand(fr, st, t["c"]), st.facts)
            ops = [self.simp(self.operand(fr, st, x), st.facts) for x in t.get("mo", []) or []]
            tys = [self.operand_ty(fr, x) for x in t.get("mo", []) or []]
            self.event(fr, st, "assert", b, (), t.get("m"), [c] + ops, None, t.get("sp"), raw=t.get("e"),
                       ty=tys[0][1] if tys and tys[0][0] == "prim" else None)
            f2 = self.assume(st.facts, c, True, [1 if t.get("e") else 0])
            if f2 is not None:
                self.edge(fr, edges, b, t["t"], self.leave(fr, State(st.mem, f2), b, t["t"]))
        elif k == "call":
            v = self.do_call(fr, st, b, t)
            if v is not None and t.get("t") is not None:
                self.write(fr, st, t["dest"], v)
                self.edge(fr, edges, b, t["t"], self.leave(fr, st, b, t["t"]))
        elif k in ("unreachable", "resume"):
            pass
        else:
            raise AnalysisError(f"terminator {k} in {fr.fn}")

    def dead_end(self, B, b):
        return B[b]["t"]["k"] == "unreachable" and not B[b]["s"]

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, st, b, t):
        args = [self.operand(fr, st, a) for a in t["args"]]
        f = t["f"]
        c = Call()
        c.fr, c.bb, c.site, c.span, c.exp = fr, b, (fr.ctx, b) + fr.it, t.get("fsp"), t.get("exp")
        c.at = [self.D.ty(x, fr.env) for x in t["at"]]
        c.dt = self.D.ty(t["dt"], fr.env)
        if "const" in f and "fn" in f["const"]:
            return self.call_fn(st, c, f["const"]["fn"], args, fr.env)
        fv = self.simp(self.operand(fr, st, f), st.facts)
        return self.call_value(st, c, fv, args)

    def tyargs(self, fn, env):
        return [self.D.ty(x, env) if isinstance(x, int) else ("other", str(x)) for x in fn["args"]]

    def resolve(self, fn, env):
        """-> ('local', path, env2) | ('ext', None, None)"""
        ta = self.tyargs(fn, env)
        res = fn.get("res")
        if "trait" in fn and ta:
            hit = self.D.find_impl(fn["trait"], ta[0], fn["name"])
            if hit and hit[0] in self.D.fns:
                path, b = hit
                e = dict(b)
                g = self.D.fns[path]["generics"]
                own = [n for _, n in g if n not in b]
                extra = ta[-len(own):] if own else []
                for n, x in zip(own, extra):
                    e[n] = x
                return "local", path, e
        if res and res.get("local") and res["def"] in self.D.fns:
            ra = [self.D.ty(x, env) if isinstance(x, int) else ("other", str(x)) for x in res["args"]]
            g = self.D.fns[res["def"]]["generics"]
            return "local", res["def"], dict(zip([n for _, n in g], ra))
        if fn["local"] and fn["def"] in self.D.fns:
            g = self.D.fns[fn["def"]]["generics"]
            return "local", fn["def"], dict(zip([n for _, n in g], ta))
        return "ext", None, None

    def call_fn(self, st, c, fn, args, env, sub=()):
        c.fn = fn
        c.tyargs = self.tyargs(fn, env)
        c.args = args
        c.env = env
        if "ctor" in fn:
            ct = fn["ctor"]
            info = self.adts.get(ct["d"])
            names = [x["n"] for x in info["v"][ct["v"]]["f"]] if info else [str(i) for i in range(len(args))]
            return agg(ct["d"], ct["v"], names, *args)
        c.name = norm(fn["def"]) if "trait" not in fn else fn["def"]
        c.key = "::".join(c.name.split("::")[-2:])
        kind, path, e = self.resolve(fn, env)
        m = self.models.pre(self, st, c, kind, path)
        if m is not None:
            return m[0]
        if kind == "local":
            self.callees.setdefault(path, set()).add(c.fr.fn)
            r, run = self.call_local(c.fr, st, c.bb, path, args, e, sub)
            return r
        return self.models.external(self, st, c)

    def call_value(self, st, c, fv, args, sub=()):
        """call a closure or function value"""
        if fv.op == "case":
            outs = []
            for k, v in case_alts(fv):
                f2 = self.restrict(st.facts, fv.a[0], frozenset([k]))
                if f2 is None:
                    continue
                s2 = State(dict(st.mem), f2)
                r = self.call_value(s2, c, v, args, sub + (str(k),))
                if r is not None:
                    outs.append((k, s2, r))
            return self.rejoin(st, c, outs, sub)
        if fv.op == "ref":
            fv2 = self.load(st, fv.a[0], fv.a[1])
            if fv2.op == "agg" and isinstance(fv2.a[0], tuple):
                return self.closure(st, c, fv2, args, sub, selfref=fv)
            return self.call_value(st, c, fv2, args, sub)
        if fv.op == "const" and fv.a[0] == "fn":
            fn, env = self.fnconsts[fv.a[1]]
            c2 = Call()
            c2.fr, c2.bb, c2.site, c2.span, c2.exp = c.fr, c.bb, c.site + tuple(sub), c.span, c.exp
            c2.at, c2.dt = [], ("other", "?")
            return self.call_fn(st, c2, fn, args, env, sub)
        if fv.op == "agg" and isinstance(fv.a[0], tuple) and fv.a[0][0] == "clo":
            return self.closure(st, c, fv, args, sub)
        # unknown function value
        self.event(c.fr, st, "call", c.bb, sub, "indirect", args, None, c.span)
        return mk("call", "indirect", c.site + tuple(sub), fv, *[self.pure(st, a) for a in args])

    def closure(self, st, c, fv, args, sub, selfref=None):
        path, env = fv.a[0][1], dict(fv.a[0][2])
        f = self.D.fns.get(path)
        if f is None:
            raise AnalysisError("closure without body " + path)
        self_ty = self.D.ty(f["locals"][1]["t"])
        selfarg = fv
        tmp = None
        if self_ty[0] == "ref" and self_ty[1]:
            if selfref is not None:
                selfarg = selfref
            else:
                tmp = ("l", c.fr.ctx, ("clo", c.bb) + tuple(sub))
                st.mem[tmp] = fv
                selfarg = mk("ref", tmp, ())
        r, run = self.call_local(c.fr, st, c.bb, path, [selfarg] + list(args), env, ("c",) + tuple(sub))
        return r

    def rejoin(self, st, c, outs, sub=()):
        """merge alternative states of a modelled branch; outs: [(key, state, value)]"""
        if not outs:
            return None
        if len(outs) == 1:
            st.mem, st.facts = outs[0][1].mem, outs[0][1].facts
            return outs[0][2]
        sel = mk("M", c.fr.ctx, "m" + str((c.bb,) + tuple(sub) + c.fr.it))
        TMP = ("l", c.fr.ctx, "tmp")
        ins = []
        for k, s, v in outs:
            s.mem[TMP] = v
            ins.append((k, s))
        s, g = self.merge(sel, ins)
        c.fr.run.guards[sel] = g
        v = s.mem.pop(TMP)
        st.mem, st.facts = s.mem, s.facts
        return v

    def branch(self, st, c, d, alts, sub=()):
        """alts: [(disc value, fn(state) -> value)]"""
        d = self.simp(d, st.facts)
        outs = []
        for k, fn in alts:
            f2 = self.assume(st.facts, d, True, [k])
            if f2 is None:
                continue
            s2 = State(dict(st.mem), f2)
            v = fn(s2)
            if v is not None:
                outs.append((k, s2, v))
        return self.rejoin(st, c, outs, sub)

    def fix(self, st, c, body, sub=()):
        """loop of a modelled iteration: body(state) -> [('next'|key, state, value)];
        states tagged 'next' go back, others leave; returns outs"""
        fr = c.fr
        h = "f" + str((c.bb,) + tuple(sub) + fr.it)

        def mkmu_for(root):
            return lambda path: mk("mu", fr.ctx, h, root, path)
        E = st.copy()
        for r, v in E.mem.items():
            E.mem[r] = self.simp(v, E.facts)
        H = E.copy()
        for it in range(40):
            outs = body(H.copy())
            back = [(i, s) for i, (k, s, v) in enumerate(outs) if k == "next"]
            if not back:
                break
            B = self.join(fr, h, back, "b")
            N, fin, changed = {}, {}, False
            for r in H.mem:
                hv = H.mem[r]
                bv = self.simp(B.mem.get(r, hv), B.facts)
                fin[r] = bv
                N[r] = self.widen(hv, bv, mkmu_for(r))
                if N[r] is not hv:
                    changed = True
            for r in B.mem:
                if r[0] == "o" and r not in H.mem:
                    N[r] = self.widen(r[1], B.mem[r], mkmu_for(r))
                    changed = True
            if not changed:
                mus = {}
                for r, hv in H.mem.items():
                    self.record_mus(hv, E.mem.get(r, r[1] if r[0] == "o" else BOT), fin[r], mus, mkmu_for(r))
                fr.run.mus.update(mus)
                self.mus.update(mus)
                break
            H = State(N, E.facts)
        else:
            raise AnalysisError("modelled loop does not stabilise")
        return [(k, s, v) for k, s, v in outs if k != "next"]
