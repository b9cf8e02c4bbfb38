"""Panic sites: every assertion of the compiler and every call of a foreign function that can panic, and why it does not."""
from .terms import *
from .canon import Canon, isapp
from .dump import deref_ty, ty_name, norm
from .graph import Graph, consts
from .guards import at
from .models import panicky
from .ranges import Ranges
from .view import paths
from .interp import State

# documented panics that need more memory than there is
MEMORY = {"push", "push_back", "push_front", "append", "push_str", "insert_str", "extend_from_slice", "extend_from_within", "position",
          "enumerate", "count", "rposition", "shrink_to_fit", "concat", "join", "to_vec", "into_boxed_slice", "leak", "last", "nth_back"}


def name_of(fn):
    n = norm(fn["def"]) if "trait" not in fn else fn["def"]
    return "::".join(n.split("::")[-2:])


def sites(D):
    """[(function, block, description, span)] of everything that can panic"""
    out = []
    for p, f in D.fns.items():
        if f.get("derived") or f["kind"] == "Const":
            continue
        for i, b in enumerate(f["blocks"]):
            if b.get("cleanup"):
                continue
            t = b["t"]
            if t["k"] == "assert":
                out.append((p, i, "assert", t.get("sp")))
            elif t["k"] == "call":
                for fn in consts({"f": t["f"], "args": t["args"]}):
                    if "closure" not in fn and not fn["local"] and panicky(fn, name_of(fn)):
                        out.append((p, i, name_of(fn), t.get("fsp")))
    return out


def in_blocks(e):
    """{(function, block): [(run, event)]}"""
    if not hasattr(e, "_byblock"):
        m = {}
        for r in e.run.walk():
            for bb, es in r.events.items():
                for ev in es.values():
                    if ev.kind in ("assert", "call"):
                        m.setdefault((r.fn, bb if isinstance(bb, int) else bb), []).append((r, ev))
        e._byblock = m
    return e._byblock


class Judge:
    def __init__(self, e):
        self.e, self.I, self.W = e, e.I, e.W
        self.C = getattr(e, "C", None) or Canon(e.I)

    def value(self, ev, i):
        """argument i as a pure value"""
        st = State(dict(ev.mem or {}), ev.facts)
        return self.I.simp(self.I.pure(st, ev.args[i]), ev.facts)

    def judge(self, r, ev):
        """None if the event cannot panic, otherwise the reason"""
        f = at(self.e, r, ev)
        self.R = Ranges(self.I, f, self.C)
        self.f, self.ev = f, ev
        if ev.kind == "assert":
            return self.asserted(ev)
        n = ev.name
        last = n.split("::")[-1]
        if ev.fn.get("never"):
            return "calls %s" % n
        h = getattr(self, "on_" + last, None)
        if h:
            return h()
        if last in MEMORY:
            return None
        return "%s is documented to panic and no rule shows that it does not here" % n

    # -------------------------------------------------------------- assertions of the compiler
    def asserted(self, ev):
        c, ops = ev.args[0], ev.args[1:]
        want = 1 if ev.raw else 0
        if self.I.assume(self.f, c, True, [1 - want]) is None:
            return None
        m = str(ev.name)
        if isapp(c, "lt") and want and self.R.le(c.a[1], c.a[2], True):
            return None
        if isapp(c, "eq") and not want:
            a, b = c.a[1], c.a[2]
            ra, rb = self.R.of(a), self.R.of(b)
            if ra[1] < rb[0] or rb[1] < ra[0]:
                return None
        o = c
        if isapp(o, "ovf"):
            op, a, b = o.a[1], o.a[2], o.a[3]
            op = op.a[1] if isinstance(op, T) else op
            lo, hi = self.R.of(app(op.lower(), a, b))
            w = self.width(ev, a, b)
            if w and w[0] <= lo and hi <= w[1]:
                return None
            if op == "Sub" and w and w[0] == 0 and self.R.le(b, a):
                return None
            return "%s of %s and %s may overflow" % (op, show(a, 4)[:100], show(b, 4)[:100])
        if isapp(c, "lt"):
            return "index %s may not be below %s" % (show(c.a[1], 4)[:120], show(c.a[2], 4)[:120])
        return "assertion %s may fail: %s" % (m, show(c, 4)[:200])

    def width(self, ev, a, b):
        """type in which the operation is done: the narrowest that the operands allow"""
        from .ranges import WIDTH
        t = getattr(ev, "ty", None)
        if isinstance(t, str) and t in WIDTH:
            return WIDTH[t]
        return None

    # -------------------------------------------------------------- foreign functions
    def on_unwrap(self):
        return self.present(0)
    on_expect = on_unwrap

    def on_unwrap_err(self):
        return self.present(1)
    on_expect_err = on_unwrap_err

    def present(self, err_):
        v = self.value(self.ev, 0)
        t = RES if self.ev.name.startswith("Result") else OPT
        bad = (0 if err_ else 1) if t == RES else 0
        if self.I.assume(self.f, self.I.disc(v, t), True, [bad]) is None:
            return None
        return "%s of a value that can be %s: %s" % (self.ev.name, ("Ok" if err_ else "Err") if t == RES else "None", show(v, 5)[:200])

    def on_index(self):
        ev = self.ev
        t = ty_name(deref_ty(ev.ty[0])) if ev.ty else ""
        v = self.value(ev, 0)
        i = self.value(ev, 1)
        if t.endswith("Map"):
            c = app("contains_key", v, i)
            return None if self.I.assume(self.f, c, True, [0]) is None else "index of a map with a key that may be missing"
        if t in ("str", "alloc::string::String") and not self.full(i):
            return "index of a text by bytes"
        return self.within(i, self.len(v, ev, 0))
    on_index_mut = on_index

    def full(self, i):
        return i.op == "agg" and isinstance(i.a[0], str) and i.a[0].endswith("RangeFull")

    def len(self, v, ev, k):
        t = deref_ty(ev.ty[k]) if ev.ty and k < len(ev.ty) else ("other",)
        if t[0] == "array" and isinstance(t[1], int):
            return cint(t[1])
        return self.I.simp(length(v), self.f)

    def within(self, i, n):
        k = i.a[0].split("::")[-1] if i.op == "agg" and isinstance(i.a[0], str) else ""
        le = self.R.le
        if k == "RangeFull":
            return None
        if k == "Range":
            good = le(i.a[3], i.a[4]) and le(i.a[4], n)
        elif k == "RangeFrom":
            good = le(i.a[3], n)
        elif k == "RangeTo":
            good = le(i.a[3], n)
        elif k == "RangeInclusive":
            good = le(i.a[3], i.a[4]) and le(i.a[4], n, True)
        elif k == "RangeToInclusive":
            good = le(i.a[3], n, True)
        else:
            good = le(i, n, True)
        return None if good else "index %s may be out of bounds (length %s)" % (show(i, 4)[:160], show(n, 4)[:120])

    def on_remove(self):
        ev = self.ev
        if not ev.name.startswith(("Vec", "VecDeque")):
            return None if "Map" in ev.name or "Set" in ev.name else "%s may panic" % ev.name
        return self.within(self.value(ev, 1), self.len(self.value(ev, 0), ev, 0))
    on_swap_remove = on_remove

    def on_insert(self):
        ev = self.ev
        if not ev.name.startswith(("Vec::", "VecDeque::")):
            return None if "Map" in ev.name or "Set" in ev.name else "%s may panic" % ev.name
        i, n = self.value(ev, 1), self.len(self.value(ev, 0), ev, 0)
        return None if self.R.le(i, n) else "insertion at %s may be out of bounds" % show(i, 4)[:160]

    def upto(self):
        ev = self.ev
        i, n = self.value(ev, 1), self.len(self.value(ev, 0), ev, 0)
        return None if self.R.le(i, n) else "position %s may be out of bounds (length %s)" % (show(i, 4)[:160], show(n, 4)[:100])
    on_split_at = on_split_at_mut = on_split_off = on_rotate_left = on_rotate_right = upto

    def on_drain(self):
        return self.within(self.value(self.ev, 1), self.len(self.value(self.ev, 0), self.ev, 0))

    def on_swap(self):
        ev = self.ev
        n = self.len(self.value(ev, 0), ev, 0)
        return self.within(self.value(ev, 1), n) or self.within(self.value(ev, 2), n)

    def on_copy_from_slice(self):
        ev = self.ev
        a, b = self.len(self.value(ev, 0), ev, 0), self.len(self.value(ev, 1), ev, 1)
        return None if self.R.le(a, b) and self.R.le(b, a) else "slices of different lengths %s and %s" % (show(a, 4)[:100], show(b, 4)[:100])
    on_clone_from_slice = on_copy_from_slice

    def nonzero(self):
        i = self.value(self.ev, 1)
        return None if self.R.of(i)[0] >= 1 else "%s may be called with 0" % self.ev.name
    on_chunks = on_chunks_mut = on_chunks_exact = on_chunks_exact_mut = on_rchunks = on_windows = on_step_by = nonzero

    def memory(self, k):
        i = self.value(self.ev, k)
        lo, hi = self.R.of(i)
        return None if hi <= 2 ** 48 or not_huge(i) else "%s with a size that is not bounded: %s" % (self.ev.name, show(i, 4)[:160])

    def on_with_capacity(self):
        return self.memory(0)

    def on_reserve(self):
        return self.memory(1)
    on_reserve_exact = on_resize = on_repeat = on_from_elem = on_reserve

    def on_from_str_radix(self):
        lo, hi = self.R.of(self.value(self.ev, 1))
        return None if lo >= 2 and hi <= 36 else "radix %s" % show(self.value(self.ev, 1), 3)
    on_to_digit = on_from_str_radix
    on_is_digit = on_from_str_radix

    def on_from_digit(self):
        return self.on_from_str_radix()

    def exact(self, k, *ns):
        ev = self.ev
        n = self.len(self.value(ev, k), ev, k)
        lo, hi = self.R.of(n)
        return None if lo == hi and lo in ns else "argument %d of %s has %s bytes instead of %s" % (k + 1, ev.name, show(n, 4)[:100], " or ".join(map(str, ns)))

    def on_cbc_encryptor(self):
        return self.exact(1, 32) or self.exact(2, 16)

    def on_cbc_decryptor(self):
        return self.exact(1, 32) or self.exact(2, 16) or self.padding()

    def padding(self):
        """removal of the padding: rust-crypto's does not expect padding that is longer than the block"""
        from .padding import methods
        ty = deref_ty(self.ev.ty[3])
        n = ty_name(ty).split("::")[-1]
        if n == "NoPadding":
            return None
        ms = methods(self.W.D, ty)
        if "strip_output" not in ms:
            return "%s panics when the padding of the input is longer than the block" % n
        e = self.W.entry(ms["strip_output"])
        for bb, evs in in_blocks(e).items():
            for r, ev in evs:
                if ev.kind == "assert" or panicky(ev.fn, ev.name) or ev.name.endswith("::strip_output"):
                    b = Judge(e).judge(r, ev)
                    if b:
                        return "%s (%s)" % (b, e.where(r, ev))
        return None

    def on_strip_output(self):
        if ty_name(deref_ty(self.ev.ty[0])).split("::")[-1] != "PkcsPadding":
            return None
        _, v = self.e.M.place(self.I, State(dict(self.ev.mem or {}), self.f), self.ev.args[1])
        d = app("peek", v)
        o, n = app("opt_last", d), length(d)
        some_ = self.I.assume(self.f, self.I.disc(o, OPT), True, [0]) is None or self.R.of(n)[0] >= 1
        lasts = [mk("fld", "Some", "0", o), app("index", d, self.I.simp(app("sub", n, cint(1)), self.f))]
        if not some_ or not any(self.R.le(x, n) for x in lasts):
            return "padding is removed although it may be longer than the block"
        return None

    def on_new(self):
        n = self.ev.name
        if n == "Salsa20::new":
            return self.exact(0, 16, 32) or self.exact(1, 8)
        if n == "AesNiEncryptor::new":
            if not any(isapp(t, "supports_aesni") and p and set(vs) == {1} for t, (p, vs) in self.f.items()):
                return "AES-NI is used without having been detected"
            return self.exact(1, 32)
        if n == "AesSafe256Encryptor::new":
            return self.exact(0, 32)
        return "%s is documented to panic and no rule shows that it does not here" % n

    def on_encrypt_block(self):
        return self.exact(1, 16) or self.exact(2, 16)
    on_decrypt_block = on_encrypt_block

    def on_result(self):
        return self.exact(1, 32)

    def on_process(self):
        ev = self.ev
        a, b = self.len(self.value(ev, 1), ev, 1), self.len(self.value(ev, 2), ev, 2)
        return None if self.C.equal(self.C.canon(a), self.C.canon(b)) or (self.R.le(a, b) and self.R.le(b, a)) else "buffers of different lengths %s and %s" % (show(a, 4)[:100], show(b, 4)[:100])

    def on_read(self):
        return None if self.ev.name == "ptr::read" else "%s may panic" % self.ev.name


def not_huge(t):
    """a length of something that is in memory, possibly plus a constant"""
    if isapp(t, "len"):
        return True
    if t.op == "const":
        return isinstance(t.a[1], int) and t.a[1] <= 2 ** 48
    if t.op == "case":
        return all(not_huge(v) for _, v in case_alts(t))
    if isapp(t, "add", "min", "max", "div", "sub", "rem"):
        return all(not_huge(x) for x in t.a[1:])
    if isapp(t, "mul"):
        return any(x.op == "const" and x.a[1] <= 64 for x in t.a[1:]) and all(not_huge(x) for x in t.a[1:])
    return False


def examine(W, R, wanted, label):
    """judge every site that a wanted entry point reaches; wanted: set of functions"""
    D = W.D
    G = Graph(D)
    todo = {}
    for s in sites(D):
        todo.setdefault((s[0], s[1]), []).append(s)
    reach = {w: G.reach([w]) for w in wanted}
    covered = {x for v in reach.values() for x in v}
    n = calls = 0
    for (fn, bb), ss in sorted(todo.items(), key=str):
        if fn not in covered:
            continue
        for s in ss:
            n += 1
        roots = [w for w in wanted if fn in reach[w]]
        owner = G.owner(fn)
        evs = []
        for w in roots:
            e = W.entry(w)
            evs += [(e, r, ev) for r, ev in in_blocks(e).get((fn, bb), ())]
        sub = "%s:%s" % (owner.split("::", 1)[-1] if False else owner, ss[0][2])
        bad = None
        for e, r, ev in evs:
            if ev.kind == "call" and not panicky(ev.fn, ev.name):
                continue
            calls += 1
            bad = Judge(e).judge(r, ev)
            if bad:
                break
        R.check(bad is None, "panic", sub, lambda: "%s (%s)" % (bad, ss[0][3]))
    R.counts["panic sites"] = n
    R.counts["occurrences judged"] = calls
    return n
