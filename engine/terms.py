"""Hash-consed value terms of the abstract interpreter.

A term denotes the value an expression has in every execution that reaches the
program point; unknown parts are named by the construct that produced them
(a parameter, a call site, a loop-carried variable), alternatives that depend
on control flow are `case` terms gated by a selector."""
import sys
sys.setrecursionlimit(100000)
EMPTY = frozenset()
_tab = {}


class T:
    __slots__ = ("op", "a", "id", "sels", "refs", "__weakref__")

    def __repr__(self):
        return show(self)


def _kids(op, a):
    if op == "agg":
        return a[3:]
    if op == "case":
        return (a[0],) + a[2:]
    return [x for x in a if isinstance(x, T)]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        # sels: selectors whose value could simplify the term
        if op in ("call", "mu", "elem", "sym", "ref", "const", "M", "next", "out", "idx"):
            s = EMPTY
        elif op == "disc" or (op == "app" and a[0] in BOOLS):
            s = frozenset([t]).union(*[x.sels for x in a if isinstance(x, T)])
            if op == "app" and a[0] == "eq":
                s = s | {x for x in a[1:] if x.op != "const"}
        else:
            s = EMPTY
            for x in _kids(op, a):
                if x.sels:
                    s = s | x.sels if s else x.sels
            if op == "case":
                s = s | {a[0]}
        t.sels = s
        r = EMPTY
        if op == "ref":
            r = frozenset([a[0]])
        else:
            for x in a:
                if isinstance(x, T) and x.refs:
                    r = r | x.refs if r else x.refs
        t.refs = r
        _tab[k] = t
    return t


BOOLS = {"eq", "lt", "le", "gt", "ge", "contains", "starts_with", "ends_with", "any", "all", "is_char",
         "contains_key", "ovf"}

BOT = mk("bot")
UNIT = mk("agg", "tuple", 0, ())


def const(kind, v):
    return mk("const", kind, v)


def cint(v):
    return mk("const", "int", v)


def cbool(v):
    return mk("const", "bool", bool(v))


def cstr(s):
    return mk("const", "str", s)


TRUE, FALSE = cbool(True), cbool(False)
LIST0 = mk("app", "list")


def app(f, *a):
    return mk("app", f, *a)


def agg(tag, variant, names, *fields):
    return mk("agg", tag, variant, tuple(names), *fields)


def tup(*xs):
    return agg("tuple", 0, tuple(str(i) for i in range(len(xs))), *xs)


OPT, RES = "core::option::Option", "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
_VN = {(OPT, 0): "None", (OPT, 1): "Some", (RES, 0): "Ok", (RES, 1): "Err", (CF, 0): "Continue", (CF, 1): "Break"}


def some(x):
    return agg(OPT, 1, ("0",), x)


NONE = agg(OPT, 0, ())


def ok(x):
    return agg(RES, 0, ("0",), x)


def err(x):
    return agg(RES, 1, ("0",), x)


def is_const(t):
    return t.op == "const"


def mkcase(sel, alts):
    """alts: list of (key, term)"""
    alts = [(k, v) for k, v in alts if v is not BOT]
    if not alts:
        return BOT
    v0 = alts[0][1]
    if all(v is v0 for _, v in alts):
        return v0
    if sel.op == "const":
        for k, v in alts:
            if k == sel.a[1]:
                return v
        for k, v in alts:
            if k == "*":
                return v
        return BOT
    if sel.op == "case":  # distribute over the selector's own alternatives
        return mkcase(sel.a[0], [(k, mkcase(v, alts)) for k, v in case_alts(sel)])
    if sel.op == "app" and sel.a[0] == "not":
        m = dict(alts)
        t, f = m.get(1, m.get(True, m.get("*", BOT))), m.get(0, m.get(False, m.get("*", BOT)))
        return mkcase(sel.a[1], [(0, t), (1, f)])
    return mk("case", sel, tuple(k for k, _ in alts), *[v for _, v in alts])


def case_alts(t):
    return list(zip(t.a[1], t.a[2:]))


def fmap(t, f, memo=None):
    """apply f below case terms"""
    if t.op != "case":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = mkcase(t.a[0], [(k, fmap(v, f, memo)) for k, v in case_alts(t)])
        memo[t] = r
    return r


def discr_of(t, adt, adts):
    """discriminant value of a value of enum type `adt`"""
    def one(x):
        if x is BOT:
            return BOT
        if x.op == "agg":
            return cint(disc_value(adts, adt, x.a[1]))
        return mk("disc", adt, x)
    return fmap(t, one)


def disc_value(adts, adt, vidx):
    info = adts.get(adt)
    if info:
        d = info["v"][vidx].get("d")
        if d is not None:
            return d
    return vidx


def proj(v, p):
    if v.op == "agg":
        if p[0] == "f":
            if v.a[0] in ("array",):
                return mk("ld", p, v)
            if p[1] is not None and p[3] is not None and v.a[1] != p[3]:
                return BOT
            try:
                return v.a[3 + v.a[2].index(p[2])]
            except ValueError:
                return BOT
        if p[0] == "i" and v.a[0] == "array" and p[1].op == "const":
            i = p[1].a[1]
            if 0 <= i < len(v.a) - 3:
                return v.a[3 + i]
            return BOT
        return mk("ld", p, v)
    if v.op == "case":
        return fmap(v, lambda x: proj(x, p))
    if v is BOT:
        return BOT
    if v.op == "upd":
        b, q, x = v.a
        if p == q:
            return x
        if p[0] == "f" and q[0] == "f":
            return proj(b, p)
        if p[0] == "s" and q[0] == "s" and (p[2] <= q[1] or q[2] <= p[1]):
            return proj(b, p)
        return mk("ld", p, v)
    if p[0] == "f":
        # payload of a conversion that keeps the value
        return mk("fld", p[1], p[2], v)
    if p[0] == "e":
        return elem_of(v, p[1])
    if p[0] == "i":
        if v.op == "const" and v.a[0] == "bytes" and p[1].op == "const":
            i = p[1].a[1]
            return cint(v.a[1][i]) if 0 <= i < len(v.a[1]) else BOT
        if v.op == "app" and v.a[0] == "repeat":
            return v.a[1]
        return app("index", v, p[1])
    if p[0] == "s":
        return app("slice", v, cint(p[1]), cint(p[2]))
    return mk("ld", p, v)


def elem_of(coll, site):
    return mk("elem", coll, site)


def update(v, path, val):
    if not path:
        return val
    p, rest = path[0], path[1:]
    if v.op == "agg" and p[0] == "f" and v.a[0] != "array":
        if p[1] is not None and p[3] is not None and v.a[1] != p[3]:
            return v
        try:
            i = 3 + v.a[2].index(p[2])
        except ValueError:
            return v
        nv = update(v.a[i], rest, val)
        return mk("agg", *(v.a[:i] + (nv,) + v.a[i + 1:]))
    if v.op == "agg" and p[0] == "i" and v.a[0] == "array" and p[1].op == "const" and p[1].a[1] < len(v.a) - 3:
        i = 3 + p[1].a[1]
        return mk("agg", *(v.a[:i] + (update(v.a[i], rest, val),) + v.a[i + 1:]))
    if v.op == "case":
        return fmap(v, lambda x: update(x, path, val))
    if v is BOT:
        return BOT
    nv = update(proj(v, p), rest, val)
    if v.op == "upd" and v.a[1] == p:
        return mk("upd", v.a[0], p, nv)
    if v.op == "upd" and p[0] == "f" and p[1] is None:
        over, base = chain(v)
        if any(q == p for q, _ in over):
            for q, y in over:
                base = mk("upd", base, q, nv if q == p else y)
            return base
    return mk("upd", v, p, nv)


def chain(v):
    """([(field, value)] in the order of the first writes, base) of an updated struct value"""
    over = []
    while v.op == "upd" and v.a[1][0] == "f" and v.a[1][1] is None:
        over.append((v.a[1], v.a[2]))
        v = v.a[0]
    return over[::-1], v


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return cbool(a.a[1] == b.a[1])
    if a.op == "case":
        return fmap(a, lambda x: eq(x, b))
    if b.op == "case":
        return fmap(b, lambda x: eq(a, x))
    if a is BOT or b is BOT:
        return BOT
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a) == 3:
            return TRUE
    if a.op == "const" or (b.op != "const" and a.id > b.id):
        a, b = b, a
    return app("eq", a, b)


def not_(t):
    if t.op == "const":
        return cbool(not t.a[1])
    if t.op == "case":
        return fmap(t, not_)
    if t.op == "app" and t.a[0] == "not":
        return t.a[1]
    if t is BOT:
        return BOT
    return app("not", t)


def cat(*parts):
    out = []
    for p in parts:
        if p is LIST0 or (p.op == "const" and p.a[0] in ("str", "bytes") and len(p.a[1]) == 0):
            continue
        if p.op == "app" and p.a[0] == "cat":
            out.extend(p.a[1:])
        else:
            out.append(p)
    i = 0
    while i + 1 < len(out):  # fold neighbouring constants
        x, y = out[i], out[i + 1]
        if x.op == "const" and y.op == "const" and x.a[0] == y.a[0] and x.a[0] in ("str", "bytes"):
            out[i:i + 2] = [const(x.a[0], x.a[1] + y.a[1])]
        else:
            i += 1
    if not out:
        return LIST0
    if len(out) == 1:
        return out[0]
    return app("cat", *out)


def subst(t, m, memo=None):
    """replace subterms (not below call/elem sites' names)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if not any(isinstance(x, T) for x in t.a):
            r = t
        else:
            n = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
            r = t if n == t.a else rebuild(t.op, n)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "case":
        return mkcase(a[0], list(zip(a[1], a[2:])))
    if op == "fld":
        b = a[2]
        if b.op in ("agg", "case", "upd", "bot"):
            vi = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1}.get(a[0])
            return proj(b, ("f", a[0], a[1], vi))
    if op == "app":
        f = a[0]
        if f == "eq":
            return eq(a[1], a[2])
        if f == "not":
            return not_(a[1])
        if f == "cat":
            return cat(*a[1:])
        if f == "len":
            return length(a[1])
        if f in ("cast", "exact") and a[-1].op == "const" and isinstance(a[-1].a[1], int) and not isinstance(a[-1].a[1], bool):
            w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(a[-2])
            if w and 0 <= a[-1].a[1] < 1 << w:
                return a[-1]
    if op == "disc":
        b = a[1]
        if b.op in ("agg", "case", "bot"):
            return discr_of(b, a[0], ADTS)
    return mk(op, *a)


ADTS = {}


def hexpad(spec):
    """format spec of zero-padded hexadecimal: its minimal width; None if there are other requests"""
    if spec == "":
        return 0
    try:
        b = bytes.fromhex(spec)
        fl, w = int.from_bytes(b[:4], "little"), int.from_bytes(b[4:6], "little")
    except ValueError:
        return None
    if len(b) != 6 or fl & (1 << 21 | 1 << 22 | 1 << 23 | 1 << 28) or not fl & (1 << 24):
        return None
    return w


def txtlen(x):
    """number of characters of a text that consists of ASCII characters only and has a known length"""
    if x.op == "const" and x.a[0] == "str":
        return len(x.a[1]) if x.a[1].isascii() else None
    if x.op == "app" and x.a[0] == "fmt" and x.a[1].a[1] in ("lower_hex", "upper_hex") and x.a[2].a[1] == "u8":
        return 2 if hexpad(x.a[3].a[1]) == 2 else None
    if x.op == "app" and x.a[0] == "cat":
        n = [txtlen(y) for y in x.a[1:]]
        return None if None in n else sum(n)
    return None


def length(x):
    if x.op == "app" and x.a[0] in ("cat", "fmt", "chars"):
        n = txtlen(x.a[1] if x.a[0] == "chars" else x)
        if n is not None:
            return cint(n)
    if x.op == "const" and x.a[0] == "str":
        return cint(len(x.a[1].encode()))
    if x.op == "const" and x.a[0] == "bytes":
        return cint(len(x.a[1]))
    if x is LIST0:
        return cint(0)
    if x.op == "agg" and x.a[0] == "array":
        return cint(len(x.a) - 3)
    if x.op == "app" and x.a[0] == "repeat":
        return x.a[2]
    if x.op == "upd" and x.a[1][0] != "f":
        return length(x.a[0])
    if x.op == "app" and x.a[0] == "sha256":
        return cint(32)
    if x.op == "app" and x.a[0] == "slice" and x.a[2].op == "const" and x.a[3].op == "const":
        return cint(x.a[3].a[1] - x.a[2].a[1])
    if x.op == "app" and x.a[0] == "rand" and isinstance(x.a[2], T) and x.a[2].op == "const":
        return x.a[2]
    if x.op == "app" and x.a[0] == "in" and not (x.a[2].op == "const" and x.a[2].a[0] == "str"):
        return x.a[2]
    if x.op == "case":
        return fmap(x, length)
    if x.op == "out" and len(x.a) > 3 and isinstance(x.a[3], T):
        return x.a[3]
    return app("len", x)


def subterms(t, seen=None, stop=()):
    """all subterms, including call arguments"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in stop:
            continue
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return seen


def show(t, d=6):
    if d < 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "const":
        r = repr(a[1])
        return r if len(r) < 90 else r[:70] + "…" + str(len(a[1]))
    if o == "bot":
        return "⊥"
    if o == "sym":
        return "$" + str(a[0])
    if o == "agg":
        if a[0] == "tuple":
            return "(" + ", ".join(s(x) for x in a[3:]) + ")"
        if a[0] == "array":
            return "[" + ", ".join(s(x) for x in a[3:8]) + ("…" if len(a) > 8 else "") + "]"
        n = a[0] if isinstance(a[0], str) else str(a[0][1])
        if n.endswith("GeneralPurpose"):
            return "eng"
        info = ADTS.get(n)
        vn = _VN.get((n, a[1])) or (info["v"][a[1]]["n"] if info else str(a[1]))
        return vn + ("{" + ", ".join(f"{k}:{s(v)}" for k, v in zip(a[2], a[3:])) + "}" if a[2] else "")
    if o == "case":
        return f"case {s(a[0])} of " + "{" + "; ".join(f"{k}→{s(v)}" for k, v in case_alts(t)) + "}"
    if o == "fld":
        return f"{s(a[2])}.{(a[0] + '.') if a[0] else ''}{a[1]}"
    if o == "app":
        return f"{a[0]}(" + ", ".join(s(x) if isinstance(x, T) else repr(x) for x in a[1:]) + ")"
    if o == "call":
        return f"{a[0].split('::')[-1]}@{a[1]}(" + ", ".join(s(x) for x in a[2:] if isinstance(x, T)) + ")"
    if o == "disc":
        return f"disc({s(a[1])})"
    if o == "ref":
        return f"&{a[0]}{list(a[1])}"
    if o in ("M", "mu", "next"):
        return o + str(a)
    return o + "(" + ", ".join(s(x) if isinstance(x, T) else repr(x) for x in a) + ")"
