"""Meaning of external functions, in terms of the abstract domain.

Functions are matched on the last two segments of their path; anything not
listed is an uninterpreted function of its arguments that may change whatever
it can reach through `&mut`."""
from .terms import *
from .dump import deref_ty, ty_name, norm, unify
from . import terms as TT

TT.BOOLS |= {"is_xml10_char", "is_empty", "supports_aesni", "char_pred"}

IDENT = set("""Clone::clone String::as_str String::into_bytes String::as_bytes str::as_bytes ToOwned::to_owned
Deref::deref AsRef::as_ref Borrow::borrow Vec::as_slice String::into_boxed_str slice::to_vec slice::into_vec
hint::must_use IntoIterator::into_iter_ convert::identity String::from Box::new Cow::into_owned Option::cloned
Option::copied Option::as_ref Option::as_deref str::to_string String::clone str::to_owned Vec::into_boxed_slice
str::into_string array::as_slice Iterator::by_ref Iterator::fuse String::into_string Cursor::into_inner_ str::as_str
Result::as_ref Wrapping::0 BorrowMut::borrow vec::into_vec Rc::new Arc::new str::from_utf8_unchecked""".split())

MUTIDENT = set("""DerefMut::deref_mut AsMut::as_mut BorrowMut::borrow_mut Vec::as_mut_slice Read::by_ref Write::by_ref
Vec::as_mut array::as_mut_slice""".split())

LOOPCAST = 0


# foreign functions without documentation that may panic
PANICKY = {"vec::from_elem", "Salsa20::new", "Salsa20::new_xsalsa20", "aes::cbc_encryptor", "aes::cbc_decryptor", "AesNiEncryptor::new",
           "AesSafe256Encryptor::new", "AesSafe128Encryptor::new", "BlockEncryptor::encrypt_block", "BlockDecryptor::decrypt_block", "Digest::result",
           "SynchronousStreamCipher::process", "GenericArray::from_slice", "stdio::_print", "stdio::_eprint", "Index::index",
           "IndexMut::index_mut", "ptr::read", "intrinsics::unreachable", "PaddingProcessor::strip_output"} | {
    "%s::%s" % (t, n) for t, n in [(x, x.lower()) for x in ("Add", "Sub", "Mul", "Div", "Rem", "Neg", "Shl", "Shr")] + [
        (x + "Assign", x.lower() + "_assign") for x in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr")]}


def panicky(fn, key):
    return bool(fn.get("pd") or fn.get("never") or key in PANICKY)


class Models:
    def __init__(self):
        self.used = {}
        self.unmodelled = {}
        self.opaque_fresh = True

    # ---------------------------------------------------------------- helpers
    def place(self, I, st, v):
        """innermost object a (possibly doubly indirect) &mut value designates"""
        v = I.simp(v, st.facts)
        n = 0
        while v.op == "ref" and n < 10:
            x = I.simp(I.load(st, v.a[0], v.a[1]), st.facts)
            if x.op != "ref":
                return v, x
            v = x
            n += 1
        if v.op == "case":
            return None, I.deref(st, v)
        return None, v

    def val(self, I, st, v):
        v = I.simp(v, st.facts)
        n = 0
        while v.op == "ref" and n < 10:
            v = I.simp(I.load(st, v.a[0], v.a[1]), st.facts)
            n += 1
        if v.op == "case" and v.refs:
            v = I.simp(I.deref(st, v), st.facts)
        return v

    def pv(self, I, st, v):
        return I.simp(I.pure(st, self.val(I, st, v)), st.facts)

    def setp(self, I, st, ref, val):
        I.write_through(st, ref, (), val)

    def fail(self, I, st, c, call, exempt=False):
        """ghost: remember that this operation failed"""
        if not exempt:
            I.fallible[call] = True
            if c.dt[0] == "adt" and c.dt[1] == RES and len(c.dt) > 3:
                I.errty[call] = c.dt[3]
            old = st.mem.get(("g", "err"), cint(0))
            st.mem[("g", "err")] = mkcase(mk("disc", RES, call), [(0, old), (1, mk("sym", "err", call))])

    def result(self, I, st, c, call, okval, exempt=False):
        self.fail(I, st, c, call, exempt)
        return mkcase(mk("disc", RES, call), [(0, ok(okval)), (1, err(mk("fld", "Err", "0", call)))])

    def ev(self, I, st, c, kind, name, args, res=None, raw=None, mem=False, sub=()):
        e = I.event(c.fr, st, kind, c.bb, tuple(c.site[2:]) + tuple(sub), name, args, res, c.span, raw=raw, ty=getattr(c, "tyargs", None))
        if mem:
            e.mem = dict(st.mem)
        return e

    # ---------------------------------------------------------------- before dispatch
    def pre(self, I, st, c, kind, path):
        key = c.key
        if kind == "local":
            f = I.D.fns[path]
            tr = f.get("impl_trait")
            if f.get("derived"):
                m = c.name.split("::")[-1]
                if m == "clone":
                    return (self.pv(I, st, c.args[0]) if c.args[0].op == "ref" else c.args[0],)
                if m == "eq":
                    return (self.eq(I, st, c),)
                if m == "ne":
                    return (not_(self.eq(I, st, c)),)
                if m in ("fmt", "hash", "partial_cmp", "cmp", "assert_receiver_is_total_eq", "assert_fields_are_eq"):
                    return (app("derived", m, *[self.pv(I, st, a) for a in c.args[:2]]),)
            if tr and (tr.endswith("::Read") and path.endswith("::read") or tr.endswith("::Write") and path.endswith("::write")) and "fmt" not in tr:
                self.ev(I, st, c, "partial", path.split("::")[-1], [UNIT, mk("call", "partial", c.site)])
            if tr and tr.endswith("iterator::Iterator") and path.endswith("::next"):
                return (self.local_next(I, st, c),)
            return None
        return None

    def eq(self, I, st, c):
        a, b = self.pv(I, st, c.args[0]), self.pv(I, st, c.args[1])
        return I.simp(eq(a, b), st.facts)

    # ---------------------------------------------------------------- dispatch
    def external(self, I, st, c):
        key = c.key
        self.used[key] = self.used.get(key, 0) + 1
        e = self.ev(I, st, c, "call", key, [self.quick(I, st, a) for a in c.args], raw=c.name)
        e.fn = c.fn
        if panicky(c.fn, key):
            e.mem, e.ty = dict(st.mem), c.at
        tr = c.fn.get("trait") or ""
        if key.split("::")[0] in ("DebugTuple", "DebugStruct", "DebugList", "DebugSet", "DebugMap"):
            self.ev(I, st, c, "fmtout", key, [self.pv(I, st, a) for a in c.args[1:]], sub=("fo",))
        elif tr.startswith("core::fmt::") and key.split("::")[-1] == "fmt":
            self.ev(I, st, c, "fmtout", key, [self.pv(I, st, c.args[0])], sub=("fo",))
        elif key in ("stdio::_print", "stdio::_eprint"):
            self.ev(I, st, c, "diag", "stdio", [self.pv(I, st, a) for a in c.args], sub=("fo",))
        r = self.external2(I, st, c, key)
        if r is not None:
            e.res = r
        return r

    def quick(self, I, st, a):
        return a

    def external2(self, I, st, c, key):
        if key in IDENT:
            a = c.args[0]
            if a.op == "ref" and key not in ("Box::new", "hint::must_use"):
                return self.val(I, st, a)
            return a
        if key in MUTIDENT:
            return c.args[0]
        h = HANDLERS.get(key)
        if h is None and c.fn.get("trait"):
            h = HANDLERS.get(c.fn["trait"].split("::")[-1] + "::" + c.fn["name"])
        if h is None:
            h = HANDLERS.get("*::" + key.split("::")[-1])
        if h is not None:
            r = h(self, I, st, c)
            if r is not NotImplemented:
                return r
        return self.default(I, st, c)

    def is_closure(self, v):
        return v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "clo"

    def default(self, I, st, c):
        key = c.key
        self.unmodelled[key] = self.unmodelled.get(key, 0) + 1
        pargs = []
        muts = []
        for i, a in enumerate(c.args):
            t = c.at[i] if i < len(c.at) else ("other",)
            if self.is_closure(a):
                # may be called any number of times with anything
                f = I.D.fns[a.a[0][1]]
                xs = [mk("sym", "closure-arg", c.site, j) for j in range(f["argc"] - 1)]
                s2 = State_copy(st)
                r = I.call_value(s2, c, a, xs, ("d", i))
                if r is not None:
                    I.rejoin(st, c, [("skip", State_copy(st), UNIT), ("run", s2, UNIT)], ("d", i))
            if t[0] == "ref" and t[1] or a.op == "ref":
                muts.append((i, a))
            pargs.append(I.simp(I.pure(st, a), st.facts))
        never = c.fn.get("never") or (c.dt[0] in ("never",) or c.dt == ("prim", "!"))
        if never:
            return None
        core = c.name.split("::")[0] in ("core", "alloc", "std")
        if muts or not core:
            res = mk("call", c.name, c.site, *pargs)
        else:
            res = app("x:" + key, *pargs)
        for i, a in muts:
            ref, v = self.place(I, st, a)
            if ref is None:
                continue
            if v.op == "agg" and isinstance(v.a[0], str) and v.a[0].startswith("%"):
                continue
            self.setp(I, st, ref, mk("out", c.key, c.site, i, res, v))
        if c.dt[0] == "adt" and c.dt[1] == RES:
            self.fail(I, st, c, res)
        return res

    # ---------------------------------------------------------------- iteration
    def mkit(self, coll, stages=(), adv=None):
        return agg("%it", 0, ("coll", "stages", "adv"), coll, tup(*stages), adv or cint(0))

    def to_iter(self, I, st, v, ty):
        """value of IntoIterator::into_iter"""
        mut = ty[0] == "ref" and ty[1]
        if v.op == "agg" and v.a[0] in ("%it", "%zip"):
            return v
        if v.op == "ref" and not mut:
            x = self.val(I, st, v)
            return self.to_iter(I, st, x, ty)
        if mut:
            ref, x = self.place(I, st, v)
            if x.op == "agg" and x.a[0] in ("%it", "%zip"):
                return v
            return self.mkit(v if ref is None else ref)
        t = deref_ty(ty)
        if v.op == "agg" and v.a[0] in ("core::ops::range::Range",):
            return self.mkit(app("range", v.a[3], v.a[4]))
        if v.op == "agg" and v.a[0] in ("core::ops::range::RangeInclusive",):
            return self.mkit(app("rangei", v.a[3], v.a[4]))
        if v.op == "agg" and isinstance(v.a[0], str) and I.D.is_local_adt(v.a[0]):
            return v
        return self.mkit(v)

    def item(self, I, st, c, it, site, facts_out=None):
        """the element an iterator yields at this site, before its stages"""
        if it.op == "agg" and it.a[0] == "%zip":
            return tup(self.item(I, st, c, it.a[3], site), self.item(I, st, c, it.a[4], site))
        coll = it.a[3] if it.op == "agg" and it.a[0] == "%it" else it
        if coll.op == "ref":
            return mk("ref", coll.a[0], coll.a[1] + (("e", site),))
        if coll.op == "app" and coll.a[0] == "enumerate":
            return tup(mk("idx", coll.a[1], site), self.item(I, st, c, coll.a[1], site))
        if coll.op == "agg" and coll.a[0] == "%flat":
            return self.item(I, st, c, coll.a[5], site)
        if coll.op == "agg" and coll.a[0] == "%enum":
            return tup(mk("idx", I.pure(st, coll.a[3]), site), self.item(I, st, c, coll.a[3], site))
        return mk("elem", coll, site)

    def stages(self, it):
        if it.op == "agg" and it.a[0] == "%it":
            return list(it.a[4].a[3:])
        return []

    def run_stages(self, I, st, c, it, x, sub):
        """apply map/filter stages to item x; -> value or None (filtered)"""
        for n, s in enumerate(self.stages(it)):
            kind, f = s.a[3].a[1], s.a[4]
            if kind == "map":
                x = I.call_value(st, c, f, [x], sub + ("st", n))
                if x is None:
                    return None
            elif kind in ("filter", "find"):
                p = I.call_value(st, c, f, [x], sub + ("st", n))
                if p is None:
                    return None
                p = I.simp(p, st.facts)
                self.ev(I, st, c, "filter", kind, [self.pv(I, st, x) if x.op == "ref" else x, I.simp(I.pure(st, p), st.facts), it.a[3]],
                        sub=sub + ("st", n))
                f2 = I.assume(st.facts, p, True, [1])
                if f2 is None:
                    return None
                st.facts = f2
            elif kind == "filter_map":
                r = I.call_value(st, c, f, [x], sub + ("st", n))
                if r is None:
                    return None
                d = I.simp(I.disc(r, OPT), st.facts)
                f2 = I.assume(st.facts, d, True, [1])
                if f2 is None:
                    return None
                st.facts = f2
                x = I.simp(proj(r, ("f", "Some", "0", 1)), st.facts)
            elif kind == "inspect":
                I.call_value(st, c, f, [x], sub + ("st", n))
        return x

    def next(self, I, st, c, ref, it, sub=()):
        """one step of an iterator: case(next, 1 -> Some(item), 0 -> None)"""
        site = tuple(c.site) + tuple(sub)
        sel = mk("next", c.fr.ctx, c.bb) if not sub and len(c.site) == 2 else mk("next", c.fr.ctx, c.bb, tuple(c.site[2:]) + tuple(sub))
        adv = it.a[5] if it.op == "agg" and it.a[0] == "%it" else None
        self.ev(I, st, c, "next", "next", [I.pure(st, it) if not it.op == "agg" else it, adv or cint(0), sel], sub=sub)
        if ref is not None and it.op == "agg" and it.a[0] == "%it":
            self.setp(I, st, ref, agg("%it", 0, ("coll", "stages", "adv"), it.a[3], it.a[4], cint(1)))
        st.facts = drop_fact(st.facts, sel)
        x0 = self.item(I, st, c, it, site)

        def one(s2):
            x = self.run_stages(I, s2, c, it, x0, sub)
            return None if x is None else some(x)
        if not self.stages(it):
            return mkcase(sel, [(1, some(x0)), (0, NONE)])
        return I.branch(st, c, sel, [(1, one), (0, lambda s2: NONE)], ("nx",) + tuple(sub))

    def local_next(self, I, st, c):
        """`next` of an iterator type of this crate: an opaque sequence"""
        ref, v = self.place(I, st, c.args[0])
        return self.opaque_next(I, st, c, v)

    def opaque_next(self, I, st, c, v, sub=()):
        t = deref_ty(c.at[0]) if c.at else ("other",)
        coll = app("iter_local", v.a[0] if v.op == "agg" and isinstance(v.a[0], str) else ty_name(t), I.simp(I.pure(st, v), st.facts))
        sel = mk("next", c.fr.ctx, c.bb) if len(c.site) == 2 else mk("next", c.fr.ctx, c.bb, tuple(c.site[2:]))
        st.facts = drop_fact(st.facts, sel)
        self.ev(I, st, c, "next", "next", [coll, cint(0), sel])
        x = mk("elem", coll, tuple(c.site) + tuple(sub))
        dt = c.dt
        if dt[0] == "adt" and dt[1] == OPT and dt[2][0] == "ref" and dt[2][1]:
            st.mem.setdefault(("o", x), x)
            x = mk("ref", ("o", x), ())
        return mkcase(sel, [(1, some(x)), (0, NONE)])

    def as_it(self, I, st, c, v):
        """iterator value for adapter methods -> %it/%zip"""
        ref = None
        if v.op == "ref":
            ref, v = self.place(I, st, v)
        if v.op == "agg" and v.a[0] in ("%it", "%zip"):
            return ref, v
        if v.op == "agg" and isinstance(v.a[0], str) and v.a[0].startswith("core::ops::range::Range"):
            return ref, self.to_iter(I, st, v, ("other",))
        if v.op == "agg" and isinstance(v.a[0], str) and I.D.is_local_adt(v.a[0]):
            return ref, self.mkit(app("iter_local", v.a[0], I.simp(I.pure(st, v), st.facts)))
        return ref, self.mkit(v)

    def add_stage(self, it, kind, f):
        if it.a[0] == "%zip":
            it = self.mkit(it)
        return agg("%it", 0, ("coll", "stages", "adv"), it.a[3], tup(*(self.stages(it) + [tup(cstr(kind), f)])), it.a[5])

    def local_mut_item(self, I, st, c, it):
        """items of a crate-local mutable iterator are references"""
        return it

    def collect(self, I, st, c, it, sub=()):
        """list of everything the iterator yields"""
        if it.op == "agg" and it.a[0] == "%it" and not self.stages(it):
            coll = it.a[3]
            return self.val(I, st, coll) if coll.op == "ref" and False else coll
        site = tuple(c.site) + ("col",) + tuple(sub)
        x0 = self.item(I, st, c, it, site)
        s2 = State_copy(st)
        out = {}
        x = self.run_stages(I, s2, c, it, x0, ("col",) + tuple(sub))
        coll = it.a[3] if it.a[0] == "%it" else it
        if coll.op == "ref":
            coll = I.pure(st, coll)
        preds = self.preds(I, c, ("col",) + tuple(sub))
        if x is None:
            return LIST0
        if x is x0 and not preds:
            return coll
        return app("seq", coll, x, *preds)

    def preds(self, I, c, sub):
        r = []
        for k, e in c.fr.run.events.get(c.bb, {}).items():
            if k[0] == "filter" and k[2:2 + len(tuple(c.site[2:]) + tuple(sub))] == tuple(c.site[2:]) + tuple(sub):
                r.append(e.args[1])
        return r

    def on_drop(self, I, fr, st, b, t):
        return

    def on_rec(self, I, st, a, res):
        """effect of an unresolved recursive call on stream objects"""
        if a.op != "ref":
            return False
        ref, v = self.place(I, st, a)
        if ref is None or v.op != "agg" or not isinstance(v.a[0], str):
            return False
        if v.a[0] == "%xmlwriter":
            sr, sv = self.place(I, st, v.a[3])
            if sr is not None:
                self.setp(I, st, sr, cat(sv, app("xmlrec", res)))
            return True
        if v.a[0] == "%xmlreader":
            self.setp(I, st, ref, agg("%xmlreader", 0, ("state",), app("after", res)))
            return True
        if v.a[0] == "%salsa":
            self.setp(I, st, ref, agg("%salsa", 0, v.a[2], v.a[3], v.a[4], mk("app", "after_salsa", v.a[5], res)))
            return True
        return False

    # ---------------------------------------------------------------- readers and writers
    def local_rw(self, I, c, what):
        """local `read`/`write` implementation for the receiver"""
        if not c.tyargs:
            return None
        t = deref_ty(c.tyargs[0])
        if t[0] == "adt" and I.D.is_local_adt(t[1]):
            tr = "alloc::io::read::Read" if what == "read" else "core::io::write::Write"
            for trait in I.D.by_trait:
                if trait.split("::")[-1] == ("Read" if what == "read" else "Write"):
                    h = I.D.find_impl(trait, t, what)
                    if h:
                        return h
        return None

    def sink_write(self, I, st, c, w, data, sub=()):
        """external write_all: append data to the sink"""
        ref, v = self.place(I, st, w)
        call = mk("call", "Write::write_all", tuple(c.site) + tuple(sub), I.simp(I.pure(st, v), st.facts) if not v.refs else mk("sym", "w"), data)
        if v.op == "agg" and v.a[0] == "%gzenc":
            self.setp(I, st, ref, agg("%gzenc", 0, v.a[2], cat(v.a[3], data), v.a[4]))
        elif ref is not None:
            self.setp(I, st, ref, cat(v, data))
        return call

    def write_all(self, I, st, c, w, data, sub=()):
        """-> result value"""
        data = self.pv(I, st, data)
        h = self.local_rw(I, c, "write")
        if h is None:
            ref, v = self.place(I, st, w)
            if v.op == "agg" and isinstance(v.a[0], str) and I.D.is_local_adt(v.a[0]):
                for trait in I.D.by_trait:
                    if trait.split("::")[-1] == "Write":
                        for im in I.D.by_trait[trait]:
                            s = I.D.ty(im["self"])
                            if s[1:2] == (v.a[0],) and "write" in im["items"]:
                                h = (im["items"]["write"], {n: ("param", n) for _, n in I.D.fns[im["items"]["write"]]["generics"]})
        if h is None:
            isvec = self.is_vec(I, st, c, w)
            call = self.sink_write(I, st, c, w, data, sub)
            self.ev(I, st, c, "write", "write_all", [w, data], sub=sub)
            return self.result(I, st, c, call, UNIT, exempt=isvec)
        path, b = h
        ref, v = self.place(I, st, w)
        before = dict(st.mem)
        g = st.mem.get(("g", "err"))
        r, run = I.call_local(c.fr, st, c.bb, path, [ref or w, data], b, ("wa",) + tuple(sub))
        if r is None:
            return None
        n = self.rw_sizes(run)
        return self.fold(I, st, c, before, r, run, data, sub, g, "write", None)

    def is_vec(self, I, st, c, w):
        ref, v = self.place(I, st, w)
        t = deref_ty(c.tyargs[0]) if c.tyargs else ("other",)
        return t[0] == "adt" and t[1] == "alloc::vec::Vec"

    def rw_sizes(self, run):
        r = []
        for x in run.walk():
            for bb, es in x.events.items():
                for e in es.values():
                    if e.kind == "xfer":
                        r.append(e)
        return r

    def fold(self, I, st, c, before, r, run, data, sub, g, what, length_):
        """complete transfer through a local read/write: every partial step may
        only append exactly the transferred bytes"""
        evs = self.rw_sizes(run)
        site = tuple(c.site) + tuple(sub)
        if len(evs) != 1:
            part = None
            call = mk("call", "xfer:" + what, site, mk("sym", "multi"))
        else:
            part, call = evs[0].args[0], evs[0].args[1]
        # the step must report the count of the inner transfer
        rr = I.simp(r, I.assume(st.facts, I.disc(r, RES), True, [0]) or st.facts)
        cnt = proj(rr, ("f", "Ok", "0", 0)) if rr is not BOT else BOT
        honest = part is not None and cnt is mk("fld", "Ok", "0", call)
        whole = data if what == "write" else app("in", call, length_)
        repl = {}
        okfacts = I.assume(st.facts, I.disc(r, RES), True, [0])
        okfacts = okfacts if okfacts is not None else st.facts
        for root, v in list(st.mem.items()):
            b = before.get(root)
            if b is v or root[0] == "g" or b is None:
                continue
            v = I.simp(v, okfacts)
            st.mem[root] = self.complete(I, b, v, part, whole, honest, site)
        res = self.result_g(I, st, c, call, g)
        return res

    def result_g(self, I, st, c, call, g):
        st.mem[("g", "err")] = g if g is not None else cint(0)
        self.fail(I, st, c, call)
        return mkcase(mk("disc", RES, call), [(0, ok(UNIT)), (1, err(mk("fld", "Err", "0", call)))])

    def complete(self, I, b, v, part, whole, honest, site):
        if b is v:
            return v
        if v.op == "agg" and b.op == "agg" and v.a[:3] == b.a[:3] and len(v.a) > 3:
            return mk("agg", *(v.a[:3] + tuple(self.complete(I, x, y, part, whole, honest, site) for x, y in zip(b.a[3:], v.a[3:]))))
        if v.op == "case":
            return mkcase(v.a[0], [(k, self.complete(I, b, x, part, whole, honest, site)) for k, x in case_alts(v)])
        if v.op == "app" and v.a[0] == "part" and honest:
            return whole
        if v.op == "app" and v.a[0] == "after":
            return v
        # append of exactly the transferred bytes
        parts = list(v.a[1:]) if v.op == "app" and v.a[0] == "cat" else [v]
        bp = list(b.a[1:]) if b.op == "app" and b.a[0] == "cat" else ([] if b is LIST0 else [b])
        if parts[:len(bp)] == bp and len(parts) == len(bp) + 1 and part is not None and parts[-1] is part and honest:
            return cat(b, whole)
        return cat(b, app("inexact", v, mk("sym", "site", site)))

    def read_into(self, I, st, c, rd, buf, length_, sub=(), name="read_exact"):
        """fill the whole buffer -> (result value, contents)"""
        h = self.local_rw(I, c, "read")
        ref, v = self.place(I, st, rd)
        g = st.mem.get(("g", "err"))
        if h is not None:
            path, b = h
            tmp = ("l", c.fr.ctx, ("rbuf", c.bb) + tuple(sub))
            st.mem[tmp] = mk("sym", "oldbuf")
            before = dict(st.mem)
            r, run = I.call_local(c.fr, st, c.bb, path, [ref or rd, mk("ref", tmp, ())], b, ("rd",) + tuple(sub))
            if r is None:
                return None, None
            if run is not None:
                I.whole_reads[run.ctx] = length_
            res = self.fold(I, st, c, before, r, run, None, sub, g, "read", length_)
            content = st.mem.pop(tmp)
            return res, content
        call = mk("call", "Read::" + name, tuple(c.site) + tuple(sub), I.simp(I.pure(st, v), st.facts), length_)
        if v.op == "agg" and v.a[0] == "%gzdec":
            content = app("gunzip", v.a[3])
            if name != "read_to_end":
                content = app("in", call, length_)
        else:
            content = app("in", call, length_)
            if ref is not None:
                self.setp(I, st, ref, app("after", call))
        self.ev(I, st, c, "read", name, [v, length_], sub=sub)
        res = self.result(I, st, c, call, UNIT)
        return res, content


def drop_fact(facts, sel):
    if sel in facts:
        from .interp import Facts
        n = Facts(facts)
        del n[sel]
        return n
    return facts


def State_copy(st):
    from .interp import State
    return State(dict(st.mem), st.facts)


HANDLERS = {}


def h(*names):
    def deco(f):
        for n in names:
            for x in n.split():
                HANDLERS[x] = f
        return f
    return deco


# ------------------------------------------------------------------ Try, Option, Result
def rtype(c, i=0):
    if i == 0 and c.key.split("::")[0] in ("Option", "Result"):
        return OPT if c.key.startswith("Option") else RES
    t = c.at[i] if i < len(c.at) else ("other",)
    t = deref_ty(t)
    if t[0] == "adt":
        return t[1]
    if getattr(c, "tyargs", None):
        t = deref_ty(c.tyargs[0])
        if t[0] == "adt":
            return t[1]
    return None


def alts(I, st, x, adt):
    """split a Result/Option value: case on its discriminant"""
    return I.simp(I.disc(x, adt), st.facts)


def payload(I, st, x, adt, v):
    vn = {(OPT, 1): "Some", (RES, 0): "Ok", (RES, 1): "Err"}[(adt, v)]
    return I.simp(proj(x, ("f", vn, "0", v)), st.facts)


def split2(I, st, x, adt, f):
    """map alternatives of a Result/Option without control flow"""
    def one(y):
        if y.op == "agg":
            return f(y.a[1], y.a[3] if len(y.a) > 3 else None)
        vn = ("None", "Some") if adt == OPT else ("Ok", "Err")
        return mkcase(mk("disc", adt, y), [(0, f(0, mk("fld", vn[0], "0", y) if adt == RES else None)),
                                           (1, f(1, mk("fld", vn[1], "0", y)))])
    return fmap(I.simp(x, st.facts), one)


@h("Try::branch")
def _(m, I, st, c):
    x = c.args[0]
    adt = rtype(c)
    cf = lambda i, v: agg(CF, i, ("0",), v)
    if adt == OPT:
        return split2(I, st, x, OPT, lambda i, v: cf(0, v) if i == 1 else cf(1, NONE))
    return split2(I, st, x, RES, lambda i, v: cf(0, v) if i == 0 else cf(1, err(v)))


@h("FromResidual::from_residual")
def _(m, I, st, c):
    x = I.simp(c.args[0], st.facts)
    if len(c.tyargs) < 2 or c.tyargs[0][1] == OPT:
        return NONE
    F = c.tyargs[0]
    E = c.tyargs[1]
    f, e = F[3] if len(F) > 3 else None, E[3] if len(E) > 3 else None
    if E[1] == OPT:
        return x
    p = payload(I, st, x, RES, 1)
    return wrap_err(m, I, st, c, p, e, f)


def wrap_err(m, I, st, c, p, e, f):
    v = convert(m, I, st, c, p, e, f)
    return None if v is None else err(v)


def convert(m, I, st, c, p, e, f, sub=("cv",)):
    """From<e> for f"""
    if e == f or e is None or f is None:
        return p
    for im in I.D.by_trait.get("core::convert::From", ()):
        b = {}
        if unify(I.D.ty(im["self"]), f, b) and im.get("targs"):
            if unify(I.D.ty(im["targs"][-1]), e, b):
                r, run = I.call_local(c.fr, st, c.bb, im["items"]["from"], [p], b, sub)
                return r
    s = {ty_name(deref_ty(e)), ty_name(deref_ty(f))}
    if s <= {"str", "alloc::string::String", "alloc::vec::Vec", "slice", "param", "alloc::borrow::Cow", "u8"} | {x for x in s if len(x) <= 2}:
        return m.val(I, st, p)
    if f[0] == "adt" and f[1] == "alloc::collections::vec_deque::VecDeque" and s <= {f[1], "alloc::vec::Vec", "array"}:
        return m.val(I, st, p)
    if f[0] == "adt" and f[1] == "alloc::vec::Vec" and s <= {f[1], "alloc::collections::vec_deque::VecDeque", "array", "alloc::boxed::Box"}:
        return m.val(I, st, p)
    if f[0] == "adt" and f[1] == "secstr::SecVec":
        return app("sec", m.pv(I, st, p))
    if f[0] == "adt" and f[1] == OPT and len(f) > 2 and f[2] == e:
        return some(p)
    fi, ei = I.INTW.get(ty_name(f)), I.INTW.get(ty_name(e))
    if fi and ei:
        return I.cast(ty_name(e), ty_name(f), p)
    return app("into", ty_name(f), m.pv(I, st, p))


@h("Into::into From::from")
def _(m, I, st, c):
    if c.fn["name"] == "into":
        e, f = c.tyargs[0], c.tyargs[1]
    else:
        f, e = c.tyargs[0], c.tyargs[1]
    return convert(m, I, st, c, c.args[0], e, f)


@h("TryFrom::try_from TryInto::try_into")
def _(m, I, st, c):
    f, e = (c.tyargs[0], c.tyargs[1]) if c.fn["name"] == "try_from" else (c.tyargs[1], c.tyargs[0])
    x = m.pv(I, st, c.args[0])
    fn, en = ty_name(f), ty_name(e)
    if fn in I.INTW and en in I.INTW:
        t = app("fits", en, fn, x)
        r = mk("call", "try_from", c.site, t)
        I.event(c.fr, st, "checkedcast", c.bb, tuple(c.site[2:]), fn, [x], r, c.span, raw=(en, fn))
        return m.result(I, st, c, r, I.cast(en, fn, x) if False else app("exact", fn, x))
    r = mk("call", "try_from", c.site, x)
    return m.result(I, st, c, r, x)


def closure_alt(adt, variant, fcall, keep=True):
    pass


@h("Option::map Result::map")
def _(m, I, st, c):
    x = c.args[0]
    adt = rtype(c) or (OPT if c.key.startswith("Option") else RES)
    okv = 1 if adt == OPT else 0

    def yes(s):
        r = I.call_value(s, c, c.args[1], [payload(I, s, x, adt, okv)], ("y",))
        return None if r is None else (some(r) if adt == OPT else ok(r))

    def no(s):
        return NONE if adt == OPT else err(payload(I, s, x, RES, 1))
    return I.branch(st, c, I.disc(x, adt), [(okv, yes), (1 - okv, no)])


@h("Option::and_then Result::and_then Option::is_some_and Result::is_ok_and")
def _(m, I, st, c):
    x = c.args[0]
    adt = rtype(c) or (OPT if c.key.startswith("Option") else RES)
    okv = 1 if adt == OPT else 0
    b = c.key.endswith("_and")

    def yes(s):
        return I.call_value(s, c, c.args[1], [payload(I, s, x, adt, okv)], ("y",))

    def no(s):
        if b:
            return FALSE
        return NONE if adt == OPT else err(payload(I, s, x, RES, 1))
    return I.branch(st, c, I.disc(x, adt), [(okv, yes), (1 - okv, no)])


@h("Result::map_err Result::or_else Option::or_else Option::ok_or_else Result::unwrap_or_else Option::unwrap_or_else")
def _(m, I, st, c):
    x = c.args[0]
    adt = rtype(c) or (OPT if c.key.startswith("Option") else RES)
    okv = 1 if adt == OPT else 0
    n = c.key.split("::")[1]

    def yes(s):
        p = payload(I, s, x, adt, okv)
        if n in ("map_err", "ok_or_else"):
            return ok(p)
        if n == "or_else":
            return ok(p) if adt == RES else some(p)
        return p

    def no(s):
        a = [payload(I, s, x, RES, 1)] if adt == RES else []
        r = I.call_value(s, c, c.args[1], a, ("n",))
        if r is None:
            return None
        return err(r) if n in ("map_err", "ok_or_else") else r
    return I.branch(st, c, I.disc(x, adt), [(okv, yes), (1 - okv, no)])


@h("Option::map_or Result::map_or Option::map_or_else Result::map_or_else")
def _(m, I, st, c):
    x = c.args[0]
    adt = rtype(c) or (OPT if c.key.startswith("Option") else RES)
    okv = 1 if adt == OPT else 0

    def yes(s):
        return I.call_value(s, c, c.args[2], [payload(I, s, x, adt, okv)], ("y",))

    def no(s):
        if c.key.endswith("else"):
            return I.call_value(s, c, c.args[1], [payload(I, s, x, RES, 1)] if adt == RES else [], ("n",))
        return c.args[1]
    return I.branch(st, c, I.disc(x, adt), [(okv, yes), (1 - okv, no)])


@h("Option::filter")
def _(m, I, st, c):
    x = c.args[0]

    def yes(s):
        v = payload(I, s, x, OPT, 1)
        p = I.call_value(s, c, c.args[1], [v], ("y",))
        if p is None:
            return None
        return mkcase(p, [(1, some(v)), (0, NONE)])
    return I.branch(st, c, I.disc(x, OPT), [(1, yes), (0, lambda s: NONE)])


@h("Option::ok_or")
def _(m, I, st, c):
    return split2(I, st, c.args[0], OPT, lambda i, v: ok(v) if i else err(c.args[1]))


@h("Option::unwrap_or Result::unwrap_or")
def _(m, I, st, c):
    adt = rtype(c)
    return split2(I, st, c.args[0], adt, lambda i, v: v if (i == 1) == (adt == OPT) else c.args[1])


@h("Option::or Option::xor")
def _(m, I, st, c):
    return split2(I, st, c.args[0], OPT, lambda i, v: some(v) if i else c.args[1])


@h("Option::and Result::and")
def _(m, I, st, c):
    adt = rtype(c)
    return split2(I, st, c.args[0], adt, lambda i, v: (c.args[1] if i else NONE) if adt == OPT else (c.args[1] if i == 0 else err(v)))


@h("Option::unwrap_or_default Result::unwrap_or_default")
def _(m, I, st, c):
    adt = rtype(c)
    d = default_of(I, c.tyargs[0] if c.tyargs else c.dt)
    return split2(I, st, c.args[0], adt, lambda i, v: v if (i == 1) == (adt == OPT) else d)


@h("Option::is_some Option::is_none Result::is_ok Result::is_err")
def _(m, I, st, c):
    adt = rtype(c)
    want = 1 if c.key in ("Option::is_some", "Result::is_err") else 0
    return fmap(I.simp(I.disc(c.args[0] if c.args[0].op != "ref" else m.val(I, st, c.args[0]), adt), st.facts),
                lambda d: cbool(d.a[1] == want) if d.op == "const" else mkcase(d, [(want, TRUE), (1 - want, FALSE)]))


@h("Result::ok")
def _(m, I, st, c):
    return split2(I, st, c.args[0], RES, lambda i, v: some(v) if i == 0 else NONE)


@h("Result::err")
def _(m, I, st, c):
    return split2(I, st, c.args[0], RES, lambda i, v: some(v) if i == 1 else NONE)


@h("Option::transpose")
def _(m, I, st, c):
    return split2(I, st, c.args[0], OPT, lambda i, v: split2(I, st, v, RES, lambda j, w: ok(some(w)) if j == 0 else err(w)) if i else ok(NONE))


@h("Result::transpose")
def _(m, I, st, c):
    return split2(I, st, c.args[0], RES, lambda i, v: err(v) if i else split2(I, st, v, OPT, lambda j, w: some(ok(w)) if j else NONE))


@h("Option::flatten")
def _(m, I, st, c):
    return split2(I, st, c.args[0], OPT, lambda i, v: v if i else NONE)


@h("Option::take mem::take")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    t = ty_name(deref_ty(c.at[0])) if c.at else "?"
    if ref is not None:
        d = NONE if t == OPT or c.key == "Option::take" else {"alloc::string::String": cstr(""), "alloc::vec::Vec": LIST0, "bool": FALSE}.get(t, app("default", t))
        m.setp(I, st, ref, d)
    return v


@h("mem::replace Option::replace")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is not None:
        m.setp(I, st, ref, c.args[1] if c.key == "mem::replace" else some(c.args[1]))
    return v


@h("mem::swap")
def _(m, I, st, c):
    r1, v1 = m.place(I, st, c.args[0])
    r2, v2 = m.place(I, st, c.args[1])
    if r1 is None or r2 is None:
        return NotImplemented
    m.setp(I, st, r1, v2)
    m.setp(I, st, r2, v1)
    return UNIT


@h("Option::insert Option::get_or_insert_with Option::get_or_insert")
def _(m, I, st, c):
    return NotImplemented


@h("Option::as_mut Option::as_deref_mut")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    return split2(I, st, v, OPT, lambda i, x: some(mk("ref", ref.a[0], ref.a[1] + (("f", "Some", "0", 1),))) if i else NONE)


@h("Option::unwrap Option::expect Result::unwrap Result::expect Option::unwrap_unchecked Result::unwrap_unchecked Result::unwrap_err Result::expect_err")
def _(m, I, st, c):
    adt = rtype(c)
    okv = 1 if adt == OPT or c.key.endswith("_err") else 0
    x = I.simp(c.args[0], st.facts)
    d = I.simp(I.disc(x, adt), st.facts)
    f2 = I.assume(st.facts, d, True, [okv])
    if f2 is None:
        return None
    st.facts = f2
    return payload(I, st, x, adt, okv)


# ------------------------------------------------------------------ comparison
@h("PartialEq::eq")
def _(m, I, st, c):
    return m.eq(I, st, c)


@h("PartialEq::ne")
def _(m, I, st, c):
    return not_(m.eq(I, st, c))


@h("PartialOrd::lt PartialOrd::gt PartialOrd::le PartialOrd::ge")
def _(m, I, st, c):
    a, b = m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1])
    n = c.fn["name"]
    if n == "lt":
        return app("lt", a, b)
    if n == "gt":
        return app("lt", b, a)
    if n == "ge":
        return not_(app("lt", a, b))
    return not_(app("lt", b, a))


@h("Ord::min Ord::max cmp::min cmp::max")
def _(m, I, st, c):
    return app(c.key.split("::")[1], *[m.pv(I, st, a) for a in c.args])


# ------------------------------------------------------------------ strings, vectors
@h("String::new")
def _(m, I, st, c):
    return cstr("")


@h("Vec::new Vec::with_capacity VecDeque::new HashMap::new HashMap::with_capacity HashMap::default VecDeque::with_capacity BTreeMap::new HashSet::new")
def _(m, I, st, c):
    return LIST0


@h("String::with_capacity")
def _(m, I, st, c):
    return cstr("")


@h("Default::default")
def _(m, I, st, c):
    return default_of(I, c.tyargs[0] if c.tyargs else c.dt)


def default_of(I, t):
    n = ty_name(t)
    d = {"alloc::string::String": cstr(""), "str": cstr(""), "alloc::vec::Vec": LIST0, "bool": FALSE,
         "std::collections::hash::map::HashMap": LIST0, OPT: NONE, "tuple": UNIT}.get(n)
    if d is not None:
        return d
    if n in I.INTW:
        return cint(0)
    if t[0] == "array" and len(t) > 2 and t[2] == ("prim", "u8"):
        return app("repeat", cint(0), cint(t[1]))
    return app("default", n)


@h("vec::from_elem")
def _(m, I, st, c):
    return app("repeat", c.args[0], m.pv(I, st, c.args[1]))


@h("Vec::len String::len slice::len str::len HashMap::len VecDeque::len array::len ExactSizeIterator::len")
def _(m, I, st, c):
    v = m.pv(I, st, c.args[0])
    if v.op == "agg" and v.a[0] == "%it":
        v = v.a[3]
    t = deref_ty(c.at[0]) if c.at else ("other",)
    if t[0] == "array" and isinstance(t[1], int):
        return cint(t[1])
    return length(v)


@h("Iterator::count")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    return length(m.collect(I, st, c, it))


@h("Vec::is_empty String::is_empty slice::is_empty str::is_empty HashMap::is_empty VecDeque::is_empty")
def _(m, I, st, c):
    return I.simp(eq(length(m.pv(I, st, c.args[0])), cint(0)), st.facts)


def appender(f):
    def g(m, I, st, c):
        ref, v = m.place(I, st, c.args[0])
        if ref is None:
            return NotImplemented
        m.setp(I, st, ref, f(m, I, st, c, v))
        return UNIT
    return g


HANDLERS["Vec::push"] = HANDLERS["VecDeque::push_back"] = appender(
    lambda m, I, st, c, v: cat(v, app("one", c.args[1])))
HANDLERS["VecDeque::push_front"] = appender(lambda m, I, st, c, v: cat(app("one", c.args[1]), v))
HANDLERS["String::push"] = HANDLERS["String::push_str"] = HANDLERS["Vec::extend_from_slice"] = appender(
    lambda m, I, st, c, v: cat(v, m.pv(I, st, c.args[1])))


@h("Vec::append VecDeque::append")
def _(m, I, st, c):
    r1, a = m.place(I, st, c.args[0])
    r2, b = m.place(I, st, c.args[1])
    if r1 is None:
        return NotImplemented
    m.setp(I, st, r1, cat(a, b))
    if r2 is not None:
        m.setp(I, st, r2, LIST0)
    return UNIT


@h("Extend::extend Vec::extend")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    x = c.args[1]
    it = m.to_iter(I, st, x, c.at[1] if len(c.at) > 1 else ("other",))
    r, it = m.as_it(I, st, c, it)
    x = m.collect(I, st, c, it)
    if x.refs:
        x = I.simp(I.pure(st, x), st.facts)
    m.setp(I, st, ref, cat(v, x))
    return UNIT


@h("Vec::clear String::clear HashMap::clear")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    m.setp(I, st, ref, LIST0 if not c.key.startswith("String") else cstr(""))
    return UNIT


@h("Vec::remove Vec::swap_remove VecDeque::remove")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    i = m.pv(I, st, c.args[1])
    m.setp(I, st, ref, app("without" if c.key.endswith("::remove") else "swapout", v, i))
    x = mk("app", "index", v, i)
    return x


@h("Vec::insert")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    m.setp(I, st, ref, app("insat", v, c.args[1], c.args[2]))
    return UNIT


@h("Vec::truncate String::truncate")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    m.setp(I, st, ref, app("take", v, c.args[1]))
    return UNIT


@h("Vec::drain Vec::split_off Vec::retain Vec::dedup Vec::sort Vec::sort_by Vec::reverse Vec::pop Vec::resize Vec::reserve Vec::shrink_to_fit String::reserve slice::sort slice::reverse")
def _(m, I, st, c):
    n = c.key.split("::")[1]
    if n in ("reserve", "shrink_to_fit"):
        return UNIT
    ref, v = m.place(I, st, c.args[0])
    if ref is None or any(m.is_closure(a) for a in c.args):
        return NotImplemented
    if n == "drain":
        m.setp(I, st, ref, app("drained", v, I.pure(st, c.args[1])))
        return m.mkit(sliceof(I, st, v, c.args[1]))
    if n == "pop":
        m.setp(I, st, ref, app("init", v))
        return app("last_opt", v)
    m.setp(I, st, ref, app(n, v, *[I.pure(st, a) for a in c.args[1:]]))
    return UNIT if n != "split_off" else app("tail_from", v, c.args[1])


@h("slice::get Vec::get slice::first slice::last str::get")
def _(m, I, st, c):
    v = m.pv(I, st, c.args[0])
    if len(c.args) > 1:
        i = c.args[1]
        r = sliceof(I, st, v, i)
        cond = app("contains", app("bounds", v), I.pure(st, i))
        return mkcase(cond, [(1, some(r)), (0, NONE)])
    last = c.key.split("::")[1]
    if v.op == "agg" and v.a[0] == "array" and last in ("first", "last"):
        return some(v.a[3 if last == "first" else -1]) if len(v.a) > 3 else NONE
    return app("opt_" + last, v)


def const_range(i):
    """constant bounds of a range value"""
    n = i.a[0].split("::")[-1] if i.op == "agg" and isinstance(i.a[0], str) else ""
    if n == "Range" and i.a[3].op == i.a[4].op == "const":
        return i.a[3].a[1], i.a[4].a[1]
    if n == "RangeFrom" and i.a[3].op == "const":
        return i.a[3].a[1], None
    if n == "RangeTo" and i.a[3].op == "const":
        return 0, i.a[3].a[1]
    return None


def sliceof(I, st, v, i):
    i = I.simp(i, st.facts)
    n = i.a[0] if i.op == "agg" and isinstance(i.a[0], str) else ""
    last = n.split("::")[-1]
    if last == "Range":
        if v.op == "app" and v.a[0] == "part" and i.a[3] is cint(0):
            return take(v, i.a[4])
        return app("slice", v, i.a[3], i.a[4])
    if last == "RangeFrom":
        return app("slice_from", v, i.a[3])
    if last == "RangeTo":
        return take(v, i.a[3])
    if last == "RangeFull":
        return v
    if last == "RangeInclusive":
        return app("slicei", v, i.a[3], i.a[4])
    return proj(v, ("i", i))


@h("Index::index")
def _(m, I, st, c):
    v = m.val(I, st, c.args[0])
    t = deref_ty(c.at[0]) if c.at else ("other",)
    if ty_name(t).endswith("HashMap"):
        return app("get", I.pure(st, v), m.pv(I, st, c.args[1]))
    return sliceof(I, st, I.pure(st, v), m.pv(I, st, c.args[1]))


@h("IndexMut::index_mut slice::get_mut Vec::get_mut")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    i = I.simp(c.args[1], st.facts)
    n = (i.a[0] if i.op == "agg" and isinstance(i.a[0], str) else "").split("::")[-1]
    p = None
    if n == "Range" and i.a[3].op == "const" and i.a[4].op == "const":
        p = ("s", i.a[3].a[1], i.a[4].a[1])
    elif n == "RangeFrom" and i.a[3].op == "const":
        t = deref_ty(c.at[0])
        if t[0] == "array" and isinstance(t[1], int):
            p = ("s", i.a[3].a[1], t[1])
    elif n == "RangeTo" and i.a[3].op == "const":
        p = ("s", 0, i.a[3].a[1])
    elif n == "RangeFull":
        return ref
    elif n == "":
        p = ("i", i)
    else:
        p = ("i", I.pure(st, i))
    r = mk("ref", ref.a[0], ref.a[1] + (p,))
    if c.key.endswith("get_mut"):
        cond = app("contains", app("bounds", I.pure(st, v)), I.pure(st, i))
        return mkcase(cond, [(1, some(r)), (0, NONE)])
    return r


@h("slice::first_mut slice::last_mut")
def _(m, I, st, c):
    return NotImplemented


@h("slice::strip_prefix str::strip_prefix")
def _(m, I, st, c):
    v, p = m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1])
    if m.is_closure(c.args[1]) or p.op == "const" and p.a[0] not in ("str", "bytes"):
        return NotImplemented
    return mkcase(I.simp(app("starts_with", v, p), st.facts), [(1, some(app("slice_from", v, length(p)))), (0, NONE)])


@h("repeat::repeat repeat_n::repeat_n")
def _(m, I, st, c):
    x = m.pv(I, st, c.args[0])
    return m.mkit(app("forever", x) if len(c.args) == 1 else app("repeat", x, m.pv(I, st, c.args[1])))


@h("slice::split_at str::split_at")
def _(m, I, st, c):
    v, n = m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1])
    l = length(v)
    return tup(take(v, n), app("slice_from", v, n))


@h("slice::copy_from_slice slice::clone_from_slice Clone::clone_from")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    m.setp(I, st, ref, m.pv(I, st, c.args[1]))
    return UNIT


@h("slice::concat Concat::concat Join::join slice::join")
def _(m, I, st, c):
    v = m.pv(I, st, c.args[0])
    if "concat" in c.key:
        if v.op == "agg" and v.a[0] == "array":
            return cat(*v.a[3:])
        return app("concat", v)
    return app("joined", v, m.pv(I, st, c.args[1]))


@h("str::to_lowercase str::to_ascii_lowercase")
def _(m, I, st, c):
    v = m.pv(I, st, c.args[0])

    def one(x):
        if x.op == "const" and x.a[0] == "str" and x.a[1].isascii():
            return cstr(x.a[1].lower())
        return app("lower" if not c.key.endswith("ascii_lowercase") else "ascii_lower", x)
    if v.op == "case" and all(x.op == "const" for x in leaves_of(v)):
        return fmap(v, one)
    return one(v)


def leaves_of(t):
    if t.op == "case":
        return [y for _, v in case_alts(t) for y in leaves_of(v)]
    return [t]


@h("str::contains str::starts_with str::ends_with slice::contains slice::starts_with slice::ends_with Range::contains RangeInclusive::contains")
def _(m, I, st, c):
    if m.is_closure(c.args[1]) or (c.args[1].op == "const" and c.args[1].a[0] == "fn"):
        if c.key != "str::contains":
            return NotImplemented
        r = find(m, I, st, c, m.mkit(app("chars", m.pv(I, st, c.args[0]))), c.args[1])
        if r is None:
            return FALSE
        return fmap(I.disc(r, OPT), lambda d: cbool(d.a[1] == 1) if d.op == "const" else d)
    n = c.key.split("::")[1]
    return I.simp(app(n, m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1])), st.facts)


@h("str::eq_ignore_ascii_case")
def _(m, I, st, c):
    return I.simp(eq(app("ascii_lower", m.pv(I, st, c.args[0])), app("ascii_lower", m.pv(I, st, c.args[1]))), st.facts)


@h("str::chars")
def _(m, I, st, c):
    return m.mkit(app("chars", m.pv(I, st, c.args[0])))


@h("str::bytes")
def _(m, I, st, c):
    return m.mkit(m.pv(I, st, c.args[0]))


@h("str::trim str::trim_start str::trim_end")
def _(m, I, st, c):
    return app(c.key.split("::")[1], m.pv(I, st, c.args[0]))


@h("str::parse FromStr::from_str")
def _(m, I, st, c):
    x = m.pv(I, st, c.args[0])
    t = c.dt[2] if c.dt[0] == "adt" and len(c.dt) > 2 else (c.tyargs[0] if c.tyargs else ("other",))
    t = ty_str(t)
    call = mk("call", "parse", c.site, cstr(t), x)
    return m.result(I, st, c, call, app("parse", cstr(t), x))


def ty_str(t):
    if t[0] == "adt":
        return t[1].split("::")[-1] + ("<" + ",".join(ty_str(x) for x in t[2:]) + ">" if len(t) > 2 else "")
    if t[0] == "ref":
        return ty_str(t[2])
    return str(t[1]) if len(t) > 1 and isinstance(t[1], str) else t[0]


@h("String::from_utf8 converts::from_utf8 str::from_utf8")
def _(m, I, st, c):
    x = m.pv(I, st, c.args[0])
    call = mk("call", "from_utf8", c.site, x)
    return m.result(I, st, c, call, app("text", x))


@h("String::from_utf8_lossy")
def _(m, I, st, c):
    return app("lossy", m.pv(I, st, c.args[0]))


@h("num::from_str_radix i32::from_str_radix u8::from_str_radix")
def _(m, I, st, c):
    x = m.pv(I, st, c.args[0])
    t = c.name.split("::")[-2]
    if c.dt[0] == "adt" and len(c.dt) > 2:
        t = ty_str(c.dt[2])
    call = mk("call", "radix", c.site, cstr(t), x, c.args[1])
    return m.result(I, st, c, call, app("radix", cstr(t), x, c.args[1]))


@h("num::max_value num::min_value")
def _(m, I, st, c):
    import re
    mm = re.search(r"<impl (\w+)>", c.fn["def"])
    t = mm.group(1) if mm else ty_name(c.dt)
    w = I.INTW.get(t)
    if not w:
        return NotImplemented
    lo, hi = (-(1 << (w[1] - 1)), (1 << (w[1] - 1)) - 1) if w[0] else (0, (1 << w[1]) - 1)
    return cint(hi if c.key.endswith("max_value") else lo)


HANDLERS["u32::max_value"] = HANDLERS["u64::max_value"] = HANDLERS["num::max_value"]


@h("num::to_le_bytes num::to_be_bytes u8::to_le_bytes u16::to_le_bytes u32::to_le_bytes u64::to_le_bytes u16::to_be_bytes u32::to_be_bytes u64::to_be_bytes i32::to_le_bytes")
def _(m, I, st, c):
    t = ty_name(c.at[0]) if c.at else "?"
    return app("enc", cstr("LE" if "_le_" in c.key else "BE"), cstr(t), c.args[0])


@h("num::from_le_bytes num::from_be_bytes u16::from_le_bytes u32::from_le_bytes u64::from_le_bytes u16::from_be_bytes u32::from_be_bytes u64::from_be_bytes i32::from_le_bytes")
def _(m, I, st, c):
    return app("num", cstr("LE" if "_le_" in c.key else "BE"), cstr(ty_name(c.dt)), m.pv(I, st, c.args[0]))


@h("num::wrapping_add num::wrapping_sub num::wrapping_mul num::saturating_add num::saturating_sub num::saturating_mul")
def _(m, I, st, c):
    op = c.key.split("_")[1][:3]
    a, b = m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1])
    if c.key.split("::")[1].startswith("wrapping") or c.key.split("::")[1].startswith("saturating"):
        I.event(c.fr, st, "satarith", c.bb, tuple(c.site[2:]), c.key, [a, b], None, c.span)
    return app(c.key.split("::")[1], a, b)


@h("num::checked_add num::checked_sub num::checked_mul")
def _(m, I, st, c):
    op = {"checked_add": "add", "checked_sub": "sub", "checked_mul": "mul"}[c.key.split("::")[1]]
    a, b = m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1])
    return mkcase(app("ovf", op, a, b), [(0, some(app(op, a, b))), (1, NONE)])


# ------------------------------------------------------------------ maps
@h("HashMap::insert BTreeMap::insert")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    k, x = m.pv(I, st, c.args[1]), c.args[2]
    m.ev(I, st, c, "mapins", "insert", [v, k, x])
    m.setp(I, st, ref, app("ins", v, k, x))
    return mkcase(app("contains_key", I.pure(st, v), k), [(1, some(app("get", I.pure(st, v), k))), (0, NONE)])


@h("HashMap::remove")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    k = m.pv(I, st, c.args[1])
    m.setp(I, st, ref, app("del", v, k))
    return mkcase(app("contains_key", I.pure(st, v), k), [(1, some(app("get", I.pure(st, v), k))), (0, NONE)])


@h("HashMap::get BTreeMap::get")
def _(m, I, st, c):
    v, k = m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1])
    return mkcase(app("contains_key", v, k), [(1, some(app("get", v, k))), (0, NONE)])


@h("HashMap::contains_key")
def _(m, I, st, c):
    return app("contains_key", m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1]))


@h("HashMap::values HashMap::keys HashMap::into_values HashMap::into_keys BTreeMap::values BTreeMap::keys")
def _(m, I, st, c):
    n = c.key.split("::")[1].replace("into_", "")
    return m.mkit(app(n, m.pv(I, st, c.args[0])))


@h("VecDeque::pop_front VecDeque::pop_back")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    n = "front" if "front" in c.key else "back"
    q = I.pure(st, v) if not v.refs else v
    m.setp(I, st, ref, app("but_" + n, v))
    return app("opt_" + n, v)


# ------------------------------------------------------------------ iterators
@h("IntoIterator::into_iter")
def _(m, I, st, c):
    return m.to_iter(I, st, c.args[0], c.at[0] if c.at else ("other",))


@h("slice::iter Vec::iter HashMap::iter VecDeque::iter BTreeMap::iter array::iter")
def _(m, I, st, c):
    return m.mkit(m.val(I, st, c.args[0]))


@h("Option::iter")
def _(m, I, st, c):
    return NotImplemented


@h("slice::iter_mut Vec::iter_mut VecDeque::iter_mut HashMap::iter_mut HashMap::values_mut")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        r = c.args[0]
        if r.op == "ref":
            return m.mkit(r)
        return m.mkit(mk("ref", ("o", r), ()))
    return m.mkit(ref)


@h("Iterator::next")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if v.op == "agg" and v.a[0] in ("%it", "%zip"):
        return m.next(I, st, c, ref, v)
    if v.op == "agg" and isinstance(v.a[0], str) and v.a[0].endswith("range::Range"):
        it = m.mkit(app("range", v.a[3], v.a[4]))
        return m.next(I, st, c, None, it)
    return m.opaque_next(I, st, c, v)


@h("Iterator::zip")
def _(m, I, st, c):
    a = m.to_iter(I, st, c.args[0], ("other",))
    b = m.to_iter(I, st, c.args[1], c.at[1] if len(c.at) > 1 else ("other",))
    return agg("%zip", 0, ("a", "b"), a, b)


@h("iter::zip zip::zip")
def _(m, I, st, c):
    a = m.to_iter(I, st, c.args[0], c.at[0])
    b = m.to_iter(I, st, c.args[1], c.at[1])
    return agg("%zip", 0, ("a", "b"), a, b)


@h("Iterator::take Iterator::skip Iterator::step_by Iterator::rev Iterator::chain Iterator::take_while Iterator::skip_while Iterator::peekable Iterator::cycle")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    if it.a[0] == "%zip" or m.stages(it):
        it = m.mkit(it)
    n = c.key.split("::")[1]
    coll = it.a[3]
    if coll.op == "ref":
        coll = I.pure(st, coll)
    if n == "peekable":
        return it
    if n == "chain":
        o = m.to_iter(I, st, c.args[1], c.at[1] if len(c.at) > 1 else ("other",))
        oc = o.a[3] if o.op == "agg" and o.a[0] == "%it" and not m.stages(o) else o
        return m.mkit(app("chain", coll, oc))
    if n == "take":
        return m.mkit(take(coll, m.pv(I, st, c.args[1])))
    return m.mkit(app(n, coll, *[a if not a.refs else I.pure(st, a) for a in c.args[1:]]))


def take(x, n):
    if n is length(x):
        return x
    if x.op == "app" and x.a[0] == "part" and x.a[2] is n:
        return app("got", x.a[3])
    if x.op == "app" and x.a[0] == "forever":
        return app("repeat", x.a[1], n)
    return app("take", x, n)


@h("Iterator::enumerate")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    if it.a[0] == "%it" and not m.stages(it) and it.a[3].op != "ref":
        return m.mkit(app("enumerate", it.a[3]), (), it.a[5])
    if it.a[0] == "%it" and not m.stages(it) and it.a[3].op == "ref":
        return m.mkit(agg("%enum", 0, ("of",), it.a[3]), (), it.a[5])
    return NotImplemented


@h("Iterator::map Iterator::filter Iterator::filter_map Iterator::inspect")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    return m.add_stage(it, c.key.split("::")[1], c.args[1])


@h("Iterator::flat_map Iterator::flatten")
def _(m, I, st, c):
    """the elements, one after the other, of the collections the iterator yields"""
    ref, it = m.as_it(I, st, c, c.args[0])
    if it.a[0] != "%it" or any(s.a[3].a[1] != "map" for s in m.stages(it)):
        return NotImplemented
    site = tuple(c.site) + ("fl",)
    s2 = State_copy(st)
    x0 = m.item(I, s2, c, it, site)
    x = m.run_stages(I, s2, c, it, x0, ("fl",))
    ty = None
    if c.key.endswith("flat_map") and x is not None:
        x = I.call_value(s2, c, c.args[1], [x], ("fl", "f"))
    if x is None or any(s2.mem.get(k) is not v for k, v in st.mem.items()):
        return NotImplemented
    if x.op == "agg" and x.a[0] == "%it":
        inner = x
    elif x.op == "agg" and x.a[0] == OPT or x.op == "case":
        return NotImplemented
    else:
        inner = m.mkit(x)
    if inner.a[5] is not cint(0):
        return NotImplemented
    return agg("%it", 0, ("coll", "stages", "adv"), agg("%flat", 0, ("of", "el", "in"), it.a[3], x0, inner.a[3]), inner.a[4], cint(0))


@h("once::once")
def _(m, I, st, c):
    return m.mkit(app("one", c.args[0]))


@h("Box::new_uninit")
def _(m, I, st, c):
    return mk("ref", ("l", c.fr.ctx, ("box",) + tuple(c.site[1:])), ())


@h("boxed::box_assume_init_into_vec_unsafe")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if ref is None:
        return NotImplemented
    return proj(proj(v, ("f", None, "value", None)), ("f", None, "value", None))


@h("Iterator::cloned Iterator::copied")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    return it


def local_ref_item(m, I, st, c, it):
    """opaque items of a crate-local mutable iterator become references"""
    return it


@h("Iterator::find")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    return find(m, I, st, c, it, c.args[1])


def find(m, I, st, c, it, f, sub=()):
    it2 = m.add_stage(it, "find", f)
    return m.next(I, st, c, None, it2, ("fi",) + tuple(sub))


@h("Iterator::find_map")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    return m.next(I, st, c, None, m.add_stage(it, "filter_map", c.args[1]), ("fi",))


@h("Iterator::any")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    r = find(m, I, st, c, it, c.args[1])
    if r is None:
        return FALSE
    return fmap(I.disc(r, OPT), lambda d: cbool(d.a[1] == 1) if d.op == "const" else d)


@h("Iterator::all")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    sel = mk("next", c.fr.ctx, c.bb, tuple(c.site[2:]) + ("all",))
    st.facts = drop_fact(st.facts, sel)
    x = m.item(I, st, c, it, tuple(c.site) + ("all",))

    def bad(s):
        y = m.run_stages(I, s, c, it, x, ("all",))
        p = I.call_value(s, c, c.args[1], [y], ("all", "p"))
        if p is None:
            return None
        m.ev(I, s, c, "filter", "all", [y, not_(I.simp(I.pure(s, p), s.facts)), it.a[3], sel], sub=("all",))
        f2 = I.assume(s.facts, p, True, [0])
        if f2 is None:
            return None
        s.facts = f2
        return FALSE
    return I.branch(st, c, sel, [(1, bad), (0, lambda s: TRUE)], ("all",))


@h("Iterator::position")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    coll = it.a[3]
    site = tuple(c.site) + ("fi",)
    # the predicate receives the item by value
    r = find(m, I, st, c, it, c.args[1])
    if r is None:
        return NONE
    return split2(I, st, r, OPT, lambda i, v: some(app("posof", I.pure(st, coll), I.pure(st, v))) if i else NONE)


@h("Iterator::collect Vec::from_iter FromIterator::from_iter")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    x = m.collect(I, st, c, it)
    dt = ty_name(c.dt)
    if dt in (RES, OPT):
        return mk("call", "collect", c.site, I.pure(st, x))
    return x


@h("Iterator::for_each Iterator::try_for_each")
def _(m, I, st, c):
    ref, it = m.as_it(I, st, c, c.args[0])
    tryq = c.key.endswith("try_for_each")
    adt = ty_name(c.dt)

    def body(s):
        outs = []
        sel = mk("next", c.fr.ctx, c.bb, tuple(c.site[2:]) + ("fe",))
        s.facts = drop_fact(s.facts, sel)
        m.ev(I, s, c, "next", "next", [it, cint(0), sel], sub=("fe",))
        f1 = I.assume(s.facts, sel, True, [1])
        s1 = State_copy(s)
        s1.facts = f1
        x = m.item(I, s1, c, it, tuple(c.site) + ("fe",))
        x = m.run_stages(I, s1, c, it, x, ("fe",))
        if x is not None:
            r = I.call_value(s1, c, c.args[1], [x], ("fe",))
            if r is not None:
                if tryq:
                    okv = 1 if adt == OPT else 0
                    d = I.disc(r, adt)
                    fo = I.assume(s1.facts, d, True, [okv])
                    if fo is not None:
                        s2 = State_copy(s1)
                        s2.facts = fo
                        outs.append(("next", s2, UNIT))
                    fe = I.assume(s1.facts, d, True, [1 - okv])
                    if fe is not None:
                        s3 = State_copy(s1)
                        s3.facts = fe
                        outs.append(("err", s3, I.simp(r, fe)))
                else:
                    outs.append(("next", s1, UNIT))
        f0 = I.assume(s.facts, sel, True, [0])
        s0 = State_copy(s)
        s0.facts = f0
        outs.append(("done", s0, (ok(UNIT) if adt != OPT else some(UNIT)) if tryq else UNIT))
        return outs
    outs = I.fix(st, c, body)
    return I.rejoin(st, c, outs, ("fe",))


@h("Iterator::fold Iterator::try_fold Iterator::sum Iterator::last Iterator::max Iterator::min Iterator::nth")
def _(m, I, st, c):
    if not any(m.is_closure(a) for a in c.args):
        return NotImplemented
    ref, it = m.as_it(I, st, c, c.args[0])
    tryq = c.key.endswith("try_fold")
    adt = ty_name(c.dt)
    ACC = ("l", c.fr.ctx, ("acc", c.bb))
    st.mem[ACC] = c.args[1]

    def body(s):
        outs = []
        sel = mk("next", c.fr.ctx, c.bb, tuple(c.site[2:]) + ("fo",))
        s.facts = drop_fact(s.facts, sel)
        m.ev(I, s, c, "next", "next", [it, cint(0), sel], sub=("fo",))
        s1 = State_copy(s)
        s1.facts = I.assume(s.facts, sel, True, [1])
        x = m.item(I, s1, c, it, tuple(c.site) + ("fo",))
        x = m.run_stages(I, s1, c, it, x, ("fo",))
        if x is not None:
            r = I.call_value(s1, c, c.args[2], [s1.mem[ACC], x], ("fo",))
            if r is not None:
                if tryq:
                    okv = 1 if adt == OPT else 0
                    d = I.disc(r, adt)
                    fo = I.assume(s1.facts, d, True, [okv])
                    if fo is not None:
                        s2 = State_copy(s1)
                        s2.facts = fo
                        s2.mem[ACC] = I.simp(proj(r, ("f", "Ok" if adt == RES else "Some", "0", okv)), fo)
                        outs.append(("next", s2, UNIT))
                    fe = I.assume(s1.facts, d, True, [1 - okv])
                    if fe is not None:
                        s3 = State_copy(s1)
                        s3.facts = fe
                        outs.append(("err", s3, I.simp(r, fe)))
                else:
                    s1.mem[ACC] = r
                    outs.append(("next", s1, UNIT))
        s0 = State_copy(s)
        s0.facts = I.assume(s.facts, sel, True, [0])
        v = s0.mem[ACC]
        outs.append(("done", s0, (ok(v) if adt != OPT else some(v)) if tryq else v))
        return outs
    outs = I.fix(st, c, body)
    r = I.rejoin(st, c, outs, ("fo",))
    st.mem.pop(ACC, None)
    return r


# ------------------------------------------------------------------ formatting
@h("Argument::new_display Argument::new_debug Argument::new_lower_hex Argument::new_upper_hex Argument::new_octal")
def _(m, I, st, c):
    t = deref_ty(c.tyargs[0]) if c.tyargs else (deref_ty(c.at[0]) if c.at else ("other",))
    return app("arg", cstr(c.key.split("new_")[1]), cstr(ty_str(t)), m.pv(I, st, c.args[0]))


@h("Arguments::from_str Arguments::new_const")
def _(m, I, st, c):
    return m.pv(I, st, c.args[0])


@h("Arguments::new Arguments::new_v1 Arguments::new_v1_formatted")
def _(m, I, st, c):
    t = m.pv(I, st, c.args[0])
    a = m.pv(I, st, c.args[1])
    if t.op != "const" or a.op != "agg":
        return app("format?", t, a)
    b = bytes(t.a[1]) if t.a[0] == "bytes" else t.a[1].encode("latin1")
    parts = []
    i = n = 0
    args = list(a.a[3:])
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(cstr(b[i:i + x].decode("utf8")))
            i += x
        elif x == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(cstr(b[i:i + ln].decode("utf8")))
            i += ln
        else:
            spec = b""
            flags = x & 0x3f
            if flags & 1:
                spec += b[i:i + 4]
                i += 4
            if flags & 2:
                spec += b[i:i + 2]
                i += 2
            if flags & 4:
                spec += b[i:i + 2]
                i += 2
            if flags & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            if n >= len(args):
                return app("format?", t, a)
            parts.append(fmtpiece(args[n], spec))
            n += 1
    return cat(*parts) if parts else cstr("")


def fmtpiece(arg, spec):
    if arg.op != "app" or arg.a[0] != "arg":
        return app("fmt?", arg)
    kind, ty, v = arg.a[1].a[1], arg.a[2].a[1], arg.a[3]
    if kind == "display" and not spec and ty in ("String", "str"):
        return v
    return app("fmt", cstr(kind), cstr(ty), cstr(spec.hex()), v)


@h("fmt::format")
def _(m, I, st, c):
    v = m.pv(I, st, c.args[0])
    return v if v is not LIST0 else cstr("")


@h("ToString::to_string")
def _(m, I, st, c):
    t = ty_str(deref_ty(c.tyargs[0])) if c.tyargs else "?"
    v = m.pv(I, st, c.args[0])
    if t in ("String", "str"):
        return v
    return fmtpiece(app("arg", cstr("display"), cstr(t), v), b"")


@h("Formatter::write_fmt Formatter::write_str Formatter::pad Formatter::debug_struct_field1_finish Formatter::debug_struct Formatter::debug_tuple")
def _(m, I, st, c):
    v = m.pv(I, st, c.args[1])
    m.ev(I, st, c, "fmtout", c.key, [v])
    return mk("call", c.key, c.site, v)


@h("Write::write_fmt")
def _(m, I, st, c):
    t = ty_name(deref_ty(c.tyargs[0])) if c.tyargs else "?"
    v = m.pv(I, st, c.args[1])
    if t.split("::")[-1] in ("Stderr", "StderrLock"):
        m.ev(I, st, c, "diag", "stderr", [v])
        call = mk("call", "Stderr::write_fmt", c.site, v)
        return mkcase(mk("disc", RES, call), [(0, ok(UNIT)), (1, err(mk("fld", "Err", "0", call)))])
    return m.write_all(I, st, c, c.args[0], v)


@h("stdio::stderr stdio::stdout")
def _(m, I, st, c):
    return agg("%" + c.key.split("::")[1], 0, ())


@h("Stderr::lock")
def _(m, I, st, c):
    return agg("%stderr", 0, ())


# ------------------------------------------------------------------ readers and writers
@h("Write::write_all")
def _(m, I, st, c):
    return m.write_all(I, st, c, c.args[0], c.args[1])


@h("Write::flush")
def _(m, I, st, c):
    call = mk("call", "Write::flush", c.site)
    return m.result(I, st, c, call, UNIT)


@h("Write::write")
def _(m, I, st, c):
    hh = m.local_rw(I, c, "write")
    if hh:
        return NotImplemented
    data = m.pv(I, st, c.args[1])
    ref, v = m.place(I, st, c.args[0])
    call = mk("call", "Write::write", c.site, data)
    n = mk("fld", "Ok", "0", call)
    part = app("take", data, n)
    m.ev(I, st, c, "xfer", "write", [part, call])
    m.ev(I, st, c, "partial", "write", [data, call])
    if ref is not None:
        new = cat(v, part)
        m.setp(I, st, ref, mkcase(mk("disc", RES, call), [(0, new), (1, v)]))
    return m.result(I, st, c, call, n)


@h("Read::read")
def _(m, I, st, c):
    if m.local_rw(I, c, "read"):
        return NotImplemented
    ref, v = m.place(I, st, c.args[0])
    bref, old = m.place(I, st, c.args[1])
    call = mk("call", "Read::read", c.site, I.simp(I.pure(st, v), st.facts))
    t = deref_ty(c.at[1]) if len(c.at) > 1 else ("other",)
    I.room[call] = cint(t[1]) if t[0] == "array" and isinstance(t[1], int) else length(I.simp(I.pure(st, old), st.facts))
    n = mk("fld", "Ok", "0", call)
    m.ev(I, st, c, "xfer", "read", [app("got", call), call])
    m.ev(I, st, c, "partial", "read", [old, call])
    if bref is not None:
        m.setp(I, st, bref, app("part", old, n, call))
    if ref is not None:
        m.setp(I, st, ref, app("after", call))
    return m.result(I, st, c, call, n)


@h("Read::read_exact")
def _(m, I, st, c):
    bref, old = m.place(I, st, c.args[1])
    old = I.simp(I.pure(st, old), st.facts)
    t = deref_ty(c.at[1]) if len(c.at) > 1 else ("other",)
    ln = cint(t[1]) if t[0] == "array" and isinstance(t[1], int) else length(old)
    res, content = m.read_into(I, st, c, c.args[0], None, ln)
    if res is None:
        return None
    if bref is not None:
        m.setp(I, st, bref, content)
    return res


@h("Read::read_to_end Read::read_to_string")
def _(m, I, st, c):
    bref, old = m.place(I, st, c.args[1])
    res, content = m.read_into(I, st, c, c.args[0], None, cstr("rest"), name="read_to_end")
    if res is None:
        return None
    if bref is not None:
        m.setp(I, st, bref, cat(old, content if c.key.endswith("end") else app("text", content)))
    return res


SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}


def endian(c):
    for t in c.tyargs[1:]:
        n = ty_name(t)
        if n.endswith("LittleEndian"):
            return "LE"
        if n.endswith("BigEndian"):
            return "BE"
    return "LE"


def rd_num(m, I, st, c):
    t = c.fn["name"].split("_")[1]
    e = "LE" if t in ("u8", "i8") else endian(c)
    res, content = m.read_into(I, st, c, c.args[0], None, cint(SIZES[t]))
    if res is None:
        return None
    v = app("num", cstr(e), cstr(t), content)
    return split2(I, st, res, RES, lambda i, p: ok(v) if i == 0 else err(p))


def wr_num(m, I, st, c):
    t = c.fn["name"].split("_")[1]
    e = "LE" if t in ("u8", "i8") else endian(c)
    return m.write_all(I, st, c, c.args[0], app("enc", cstr(e), cstr(t), m.pv(I, st, c.args[1])))


for _t in SIZES:
    HANDLERS["ReadBytesExt::read_" + _t] = rd_num
    HANDLERS["WriteBytesExt::write_" + _t] = wr_num


@h("Cursor::new")
def _(m, I, st, c):
    return app("cursor", m.pv(I, st, c.args[0]))


# ------------------------------------------------------------------ crypto, compression, encodings
@h("Sha256::new")
def _(m, I, st, c):
    return agg("%sha", 0, ("data",), LIST0)


@h("Digest::input Digest::update")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if not (v.op == "agg" and v.a[0] == "%sha"):
        return NotImplemented
    m.setp(I, st, ref, agg("%sha", 0, ("data",), cat(v.a[3], m.pv(I, st, c.args[1]))))
    return UNIT


@h("Digest::input_str")
def _(m, I, st, c):
    return HANDLERS["Digest::input"](m, I, st, c)


@h("Digest::result")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if not (v.op == "agg" and v.a[0] == "%sha"):
        return NotImplemented
    m.setp(I, st, c.args[1], app("sha256", v.a[3]))
    return UNIT


@h("Digest::reset")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    m.setp(I, st, ref, agg("%sha", 0, ("data",), LIST0))
    return UNIT


@h("ReadBuffer::peek_remaining")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    if v.op == "agg" and v.a[0] == "%rbuf":
        return v.a[3]
    return app("peek", v)


@h("ReadBuffer::remaining")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    return length(v.a[3] if v.op == "agg" and v.a[0] == "%rbuf" else app("peek", v))


@h("aes::cbc_encryptor aes::cbc_decryptor")
def _(m, I, st, c):
    ks = m.pv(I, st, c.args[0])
    pad = deref_ty(c.at[3]) if len(c.at) > 3 else ("other",)
    name = ty_name(pad).split("::")[-1]
    if I.D.adts.get(ty_name(pad), {}).get("local"):
        from .padding import pkcs, PKCS
        memo = I.D.__dict__.setdefault("_pads", {})
        if pad not in memo:
            memo[pad] = pkcs(I.D, pad)
        name = PKCS if memo[pad] else name
    return agg("%cbc", 0, ("dir", "ks", "key", "iv", "pad"), cstr(c.key[9:12]), ks, m.pv(I, st, c.args[1]), m.pv(I, st, c.args[2]), cstr(name))


@h("RefReadBuffer::new")
def _(m, I, st, c):
    return agg("%rbuf", 0, ("data",), m.pv(I, st, c.args[0]))


@h("RefWriteBuffer::new")
def _(m, I, st, c):
    return agg("%wbuf", 0, ("data",), LIST0)


@h("Encryptor::encrypt Decryptor::decrypt")
def _(m, I, st, c):
    ref, ob = m.place(I, st, c.args[0])
    rr, rb = m.place(I, st, c.args[1])
    wr, wb = m.place(I, st, c.args[2])
    ok_ = ob.op == "agg" and ob.a[0] == "%cbc" and wr is not None
    eof = I.simp(c.args[3], st.facts) if len(c.args) > 3 else FALSE
    call = mk("call", c.key, c.site, ob, rb if rb.op == "agg" else mk("sym", "rbuf"), eof)
    m.ev(I, st, c, "cipher", c.key.split("::")[-1], [call, wb.a[3] if wb.op == "agg" and wb.a[0] == "%wbuf" else wb])
    if wr is not None:
        m.setp(I, st, wr, agg("%wbuf", 0, ("data",), app("chunk", call)))
    m.fail(I, st, c, call)
    return call


@h("WriteBuffer::take_read_buffer")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    d = v.a[3] if v.op == "agg" and v.a[0] == "%wbuf" else app("wbuf", v)
    if ref is not None and v.op == "agg":
        m.setp(I, st, ref, agg("%wbuf", 0, ("data",), LIST0))
    tmp = ("l", c.fr.ctx, ("trb", c.bb))
    st.mem[tmp] = agg("%rbuf", 0, ("data",), d)
    return mk("ref", tmp, ()) if c.dt[0] == "ref" else st.mem[tmp]


@h("ReadBuffer::take_remaining")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    return v.a[3] if v.op == "agg" and v.a[0] == "%rbuf" else app("remaining", v)


@h("AesNiEncryptor::new AesSafe256Encryptor::new AesSafe128Encryptor::new AesSafe192Encryptor::new")
def _(m, I, st, c):
    ni = c.key.startswith("AesNi")
    ks = m.pv(I, st, c.args[0]) if ni else agg("crypto::aes::KeySize", {"AesSafe128Encryptor": 0, "AesSafe192Encryptor": 1}.get(c.key.split("::")[0], 2), ())
    return agg("%aes", 0, ("ks", "key"), ks, m.pv(I, st, c.args[-1]))


@h("BlockEncryptor::encrypt_block BlockDecryptor::decrypt_block")
def _(m, I, st, c):
    ob = m.val(I, st, c.args[0])
    m.setp(I, st, c.args[2], app("aesblk" if c.key.endswith("encrypt_block") else "aesdec", ob, m.pv(I, st, c.args[1])))
    return UNIT


@h("util::supports_aesni")
def _(m, I, st, c):
    return app("supports_aesni")


@h("Salsa20::new")
def _(m, I, st, c):
    return agg("%salsa", 0, ("key", "nonce", "pos"), m.pv(I, st, c.args[0]), m.pv(I, st, c.args[1]), mk("sym", "pos0"))


@h("SynchronousStreamCipher::process")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    x = m.pv(I, st, c.args[1])
    t = v if not v.refs else I.pure(st, v)
    out = app("salsa", t, x)
    m.ev(I, st, c, "salsa", "process", [t, x, out], mem=True)
    m.setp(I, st, c.args[2], out)
    if v.op == "agg" and v.a[0] == "%salsa":
        m.setp(I, st, ref, agg("%salsa", 0, v.a[2], v.a[3], v.a[4], mk("app", "after_salsa", v.a[5], x)))
    elif ref is not None:
        m.setp(I, st, ref, mk("app", "after_salsa", v, x))
    return UNIT


@h("GzEncoder::new")
def _(m, I, st, c):
    return agg("%gzenc", 0, ("data", "sink"), LIST0, c.args[0])


@h("GzEncoder::finish")
def _(m, I, st, c):
    v = m.val(I, st, c.args[0])
    if not (v.op == "agg" and v.a[0] == "%gzenc"):
        return NotImplemented
    call = mk("call", "GzEncoder::finish", c.site, v.a[3])
    return m.result(I, st, c, call, cat(v.a[4], app("gzip", v.a[3])))


@h("GzDecoder::new MultiGzDecoder::new")
def _(m, I, st, c):
    return agg("%gzdec", 0, ("data",), m.pv(I, st, c.args[0]))


@h("Engine::encode base64::encode")
def _(m, I, st, c):
    return app("b64", I.pure(st, c.args[0]) if len(c.args) > 1 else cstr("std"), m.pv(I, st, c.args[-1]))


@h("Engine::decode base64::decode")
def _(m, I, st, c):
    e = I.pure(st, c.args[0]) if len(c.args) > 1 else cstr("std")
    x = m.pv(I, st, c.args[-1])
    call = mk("call", "b64decode", c.site, e, x)
    return m.result(I, st, c, call, app("unb64", e, x))


@h("hex::encode hex::encode_upper ToHex::encode_hex ToHex::encode_hex_upper ToHex::to_hex")
def _(m, I, st, c):
    return app("hexu" if "upper" in c.key else "hex", m.pv(I, st, c.args[0]))


@h("FromHex::from_hex hex::decode")
def _(m, I, st, c):
    x = m.pv(I, st, c.args[0])
    call = mk("call", "unhex", c.site, x)
    return m.result(I, st, c, call, app("unhex", x))


@h("SecVec::new SecVec::from")
def _(m, I, st, c):
    return app("sec", m.pv(I, st, c.args[0]))


@h("SecVec::unsecure")
def _(m, I, st, c):
    v = m.pv(I, st, c.args[0])
    return fmap(v, lambda x: x.a[1] if x.op == "app" and x.a[0] == "sec" else (BOT if x is BOT else app("unsec", x)))


@h("Uuid::new_v4 v4::new_v4")
def _(m, I, st, c):
    return mk("call", "Uuid::new_v4", c.site)


@h("Uuid::nil builder::nil")
def _(m, I, st, c):
    return app("uuid_nil")


@h("Uuid::as_bytes Uuid::into_bytes Uuid::to_bytes")
def _(m, I, st, c):
    return app("uuid_bytes", m.pv(I, st, c.args[0]))


@h("Uuid::from_slice builder::from_slice")
def _(m, I, st, c):
    x = m.pv(I, st, c.args[0])
    call = mk("call", "uuid_of", c.site, x)
    return m.result(I, st, c, call, app("uuid_of", x))


@h("Uuid::from_bytes builder::from_bytes")
def _(m, I, st, c):
    return app("uuid_of", m.pv(I, st, c.args[0]))


@h("Utc::now")
def _(m, I, st, c):
    return mk("call", "Utc::now", c.site)


@h("RngCore::fill_bytes Rng::fill RngCore::try_fill_bytes")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[1])
    t = deref_ty(c.at[1]) if len(c.at) > 1 else ("other",)
    ln = length(I.pure(st, v)) if ref is not None else cint(0)
    rt = ty_name(deref_ty(c.tyargs[0])) if c.tyargs else "?"
    call = mk("call", "rand", c.site, cstr(rt), ln)
    m.setp(I, st, c.args[1], app("rand", call, ln))
    if c.key.endswith("try_fill_bytes"):
        return m.result(I, st, c, call, UNIT)
    return UNIT


@h("common::is_xml10_char common::is_xml11_char")
def _(m, I, st, c):
    x = I.simp(m.pv(I, st, c.args[0]), st.facts)
    if x.op == "elem" and x.a[0].op == "app" and x.a[0].a[0] == "chars" and x.a[0].a[1].op == "app" and x.a[0].a[1].a[0] in ("b64", "hex"):
        return TRUE     # letters, digits and a few signs
    return app(c.key.split("::")[1], x)


# ------------------------------------------------------------------ XML
@h("EventReader::new EventReader::new_with_config ParserConfig::create_reader")
def _(m, I, st, c):
    i, j = (1, 0) if c.key.startswith("ParserConfig") else (0, 1)
    src = m.pv(I, st, c.args[i])
    cfg = I.pure(st, c.args[j]) if len(c.args) > 1 else app("cfg")
    return agg("%xmlreader", 0, ("state",), app("events", src, cfg))


@h("EventReader::next")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    s = v.a[3] if v.op == "agg" and v.a[0] == "%xmlreader" else v
    call = mk("call", "EventReader::next", c.site, s)
    if ref is not None:
        new = app("after", call)
        m.setp(I, st, ref, agg("%xmlreader", 0, ("state",), new) if v.op == "agg" else new)
    m.ev(I, st, c, "xmlnext", "next", [s, call])
    I.fallible[call] = True
    # errors of the parser are sticky: a later successful read excludes earlier ones
    old = st.mem.get(("g", "err"), cint(0))
    stick = clear_reader_errors(old)
    st.mem[("g", "err")] = mkcase(mk("disc", RES, call), [(0, stick), (1, mk("sym", "err", call))])
    # whether this was the end of the document
    val = I.disc(mk("fld", "Ok", "0", call), "xml::reader::events::XmlEvent")
    end = [v["d"] for v in I.D.adts["xml::reader::events::XmlEvent"]["v"] if v["n"] == "EndDocument"]
    unread = mk("sym", "unread", call)
    st.mem[("g", "doc")] = mkcase(mk("disc", RES, call), [(0, mkcase(val, [(end[0], cint(0)), ("*", unread)])), (1, unread)])
    return call


def clear_reader_errors(t):
    def one(x):
        if x.op == "sym" and x.a[0] == "err" and x.a[1].op == "call" and x.a[1].a[0] == "EventReader::next":
            return cint(0)
        if x.op == "mu" or x.op == "app" and x.a[0] == "errs":
            return app("sticky", x)     # the same for what the loop collected
        return x
    return fmap(t, one)


@h("Position::position EventReader::position")
def _(m, I, st, c):
    return mk("call", "position", c.site)


@h("EmitterConfig::new ParserConfig::new EmitterConfig::default ParserConfig::default")
def _(m, I, st, c):
    return app("cfg")


@h(" ".join("EmitterConfig::" + x for x in ("line_separator indent_string perform_indent perform_escaping write_document_declaration normalize_empty_elements "
                                            "cdata_to_characters keep_element_names_stack autopad_comments pad_self_closing").split()) + " " +
   " ".join("ParserConfig::" + x for x in ("trim_whitespace whitespace_to_characters cdata_to_characters ignore_comments coalesce_characters "
                                           "ignore_end_of_stream replace_unknown_entity_references ignore_root_level_whitespace").split()))
def _(m, I, st, c):
    return app("cfg_" + c.key.split("::")[1], *[m.pv(I, st, a) for a in c.args])


@h("EventWriter::new EventWriter::new_with_config EmitterConfig::create_writer")
def _(m, I, st, c):
    if c.key.startswith("Emitter"):
        cfg, sink = c.args[0], c.args[1]
    else:
        sink = c.args[0]
        cfg = c.args[1] if len(c.args) > 1 else app("cfg")
    cfg = I.pure(st, cfg)
    m.ev(I, st, c, "xmlwriter", "new", [cfg])
    return agg("%xmlwriter", 0, ("sink", "stack", "cfg"), sink, app("stk0"), cfg)


def xml_config(t):
    """settings of a parser or emitter configuration that differ from the defaults; None if not known"""
    d = {}
    while True:
        if t.op == "app" and t.a[0].startswith("cfg_") and len(t.a) == 3:
            d.setdefault(t.a[0][4:], t.a[2])
            t = t.a[1]
        elif t.op == "upd" and t.a[1][0] == "f":
            d.setdefault(t.a[1][2], t.a[2])
            t = t.a[0]
        elif t.op == "agg" and t.a[0] not in ("tuple", "array") and t.a[2]:
            base = None
            for n, v in zip(t.a[2], t.a[3:]):
                if v.op == "fld" and v.a[1] == n:
                    base = v.a[2]
                else:
                    d.setdefault(n, v)
            if base is None:
                return None
            t = base
        elif t.op == "app" and t.a == ("cfg",):
            return d
        else:
            return None


@h("XmlEvent::start_element")
def _(m, I, st, c):
    return agg("%sb", 0, ("name", "attrs"), m.pv(I, st, c.args[0]), LIST0)


@h("StartElementBuilder::attr")
def _(m, I, st, c):
    v = c.args[0]
    if not (v.op == "agg" and v.a[0] == "%sb"):
        return fmap(v, lambda x: agg("%sb", 0, ("name", "attrs"), x.a[3], cat(x.a[4], app("one", tup(m.pv(I, st, c.args[1]), m.pv(I, st, c.args[2])))))
                    if x.op == "agg" and x.a[0] == "%sb" else app("attr", x))
    return agg("%sb", 0, ("name", "attrs"), v.a[3], cat(v.a[4], app("one", tup(m.pv(I, st, c.args[1]), m.pv(I, st, c.args[2])))))


@h("XmlEvent::end_element")
def _(m, I, st, c):
    return agg("%ee", 0, ())


@h("XmlEvent::characters XmlEvent::cdata XmlEvent::comment")
def _(m, I, st, c):
    return agg("%" + c.key.split("::")[1], 0, ("text",), m.pv(I, st, c.args[0]))


@h("EventWriter::write")
def _(m, I, st, c):
    ref, v = m.place(I, st, c.args[0])
    e = m.pv(I, st, c.args[1])
    ev = m.ev(I, st, c, "xml", "write", [v, e], mem=True)
    call = mk("call", "EventWriter::write", c.site, e)
    if v.op == "agg" and v.a[0] == "%xmlwriter":
        stk = v.a[4]

        def one(x):
            if x.op == "agg" and x.a[0] == "%sb":
                return app("stk", x.a[3], stk)
            if x.op == "agg" and x.a[0] == "%ee":
                return fmap(stk, lambda s: s.a[2] if s.op == "app" and s.a[0] == "stk" else app("underflow", s))
            return stk
        ns = fmap(e, one)
        m.setp(I, st, ref, agg("%xmlwriter", 0, v.a[2], v.a[3], ns, v.a[5]))
        sink = v.a[3]
        if sink.op == "ref":
            sr, sv = m.place(I, st, sink)
            if sr is not None:
                m.setp(I, st, sr, cat(sv, app("xmlout", e)))
    return m.result(I, st, c, call, UNIT)


@h("EventWriter::into_inner EventWriter::inner_mut EventWriter::inner_ref")
def _(m, I, st, c):
    v = m.val(I, st, c.args[0])
    return v.a[3] if v.op == "agg" and v.a[0] == "%xmlwriter" else NotImplemented


@h("ptr::read")
def _(m, I, st, c):
    return m.val(I, st, c.args[0])


@h("mem::drop mem::forget")
def _(m, I, st, c):
    return UNIT


@h("intrinsics::discriminant_value mem::discriminant")
def _(m, I, st, c):
    v = m.val(I, st, c.args[0])
    t = deref_ty(c.at[0]) if c.at else ("other",)
    return I.disc(v, ty_name(t))


# ------------------------------------------------------------------ operators, bool helpers
@h("bool::then_some")
def _(m, I, st, c):
    return mkcase(I.simp(c.args[0], st.facts), [(1, some(c.args[1])), (0, NONE)])


@h("bool::then")
def _(m, I, st, c):
    def yes(s):
        r = I.call_value(s, c, c.args[1], [], ("y",))
        return None if r is None else some(r)
    return I.branch(st, c, c.args[0], [(1, yes), (0, lambda s: NONE)])


@h("Not::not")
def _(m, I, st, c):
    return not_(c.args[0])


@h("FnOnce::call_once FnMut::call_mut Fn::call")
def _(m, I, st, c):
    a = I.simp(c.args[1], st.facts)
    xs = list(a.a[3:]) if a.op == "agg" and a.a[0] == "tuple" else [a]
    return I.call_value(st, c, c.args[0], xs, ("fn",))
