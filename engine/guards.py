"""Facts that must hold when a function returns a value: obligations on the alternatives of its result."""
from .terms import *
from .interp import Facts, NOFACTS, AnalysisError
from .canon import Canon, isapp, cat_items
from .view import paths, deep


def okalts(e, what=0):
    """[(facts, value)] of the alternatives in which the function returns Ok (or Err for what=1)"""
    out = []
    for f, t in paths(e.I, e.run.ret):
        if t.op == "agg" and t.a[0] == RES and t.a[1] == what:
            out.append((f, t.a[3]))
        elif t.op != "agg":
            g = e.I.assume(f, e.I.disc(t, RES), True, [what])
            if g is not None:
                out.append((g, proj(t, ("f", ("Ok", "Err")[what], "0", what))))
    return out


def alts(e):
    return paths(e.I, e.run.ret)


def at(e, r, ev):
    """all facts that hold at an event: its own and those at the calls that lead to it"""
    if not hasattr(e, "byctx"):
        e.byctx = {x.ctx: x for x in e.run.walk()}
    f = dict(ev.facts)
    c = ev.ctx
    while c is not None:
        x = e.byctx.get(c)
        if x is not None and getattr(x, "callfacts", None):
            for t, v in x.callfacts.items():
                f.setdefault(t, v)
        c = e.I.ctxinfo[c][0]
    return Facts(f)


def is_val(facts, t, v):
    """the facts say that t is v"""
    p = facts.get(t)
    return bool(p and p[0] and len(p[1]) == 1 and next(iter(p[1])) == v)


def equations(facts, truth=1):
    """(a, b) for every equality that holds (truth=1) or fails (0)"""
    for t, (pos, vals) in facts.items():
        if t.op == "app" and t.a[0] == "eq" and pos and set(vals) == {truth}:
            yield t.a[1], t.a[2]
        elif truth and pos and len(vals) == 1 and not (t.op == "app" and t.a[0] == "eq") and t.op not in ("M", "imp", "disc", "next"):
            v = next(iter(vals))
            if isinstance(v, (int, str, bytes, tuple)):
                yield t, ("val", v)


def num_of(facts, t, ty):
    """constant that the number read as `ty` from the bytes t is known to equal"""
    for x, (pos, vals) in facts.items():
        if x.op == "app" and x.a[0] == "num" and x.a[2].a[1] == ty and x.a[3] is t and pos:
            return set(vals)
    return None


def read_chain(C, t, stop):
    """reads that lead from reader state `stop` to reader state t, oldest first: [(call, amount)]; None if there are others"""
    out = []
    while t is not stop:
        if not isapp(t, "after"):
            return None
        c = t.a[1]
        out.append(c)
        t = next((y for y in c.a if isinstance(y, T) and (y is stop or isapp(y, "after") or y.op in ("mu", "sym"))), None)
        if t is None:
            return None
    return out[::-1]


def reader_states(t):
    """reader states read from in t"""
    return {x for x in subterms(t) if isapp(x, "after")}


def ins(t):
    """[(in-term)] the input bytes inside t"""
    return [x for x in subterms(t) if isapp(x, "in")]


def source(x):
    """reader state that an `in` term was read from"""
    c = x.a[1]
    return next((y for y in c.a if isinstance(y, T)), None)


def core(t):
    """value inside Some/newtype wrappers"""
    while t.op == "agg" and len(t.a) == 4 and t.a[0] not in ("array", "tuple"):
        t = t.a[3]
    return t


class Header:
    """header loop of open: which record sets which variable under which facts"""
    def __init__(self, e):
        self.e, I = e, e.I
        self.C = C = Canon(I)
        ok = okalts(e)
        if not ok:
            raise AnalysisError("open never returns a database")
        self.ok = ok
        # the loop in which an identifier is read and whose variables reach the database
        self.loops = {}
        for m, (E, B) in I.mus.items():
            self.loops.setdefault(m.a[:2], []).append(m)
        self.vars = {}      # id -> [(mu, facts, value)]
        self.ids = set()
        self.loop = None
        for k, ms in self.loops.items():
            rd = [m for m in ms if any(isapp(x, "after") for x in subterms(I.mus[m][1])) and self.is_state(m)]
            if not rd:
                continue
            found = {}
            for m in ms:
                if m in rd:
                    continue
                for f, leaf in paths(I, I.mus[m][1]):
                    if leaf is m or (cat_items(leaf) or [None])[0] is m:
                        continue
                    i = self.ident(f, rd[0])
                    if i is not None:
                        found.setdefault(i, []).append((m, f, leaf))
            if len(found) > len(self.vars):
                self.vars, self.loop, self.state = found, k, rd[0]

    def is_state(self, m):
        E, B = self.e.I.mus[m]
        return all(isapp(x, "after") for x in leavesof(B)) and bool(leavesof(B))

    def ident(self, facts, state):
        """value of the first byte read in this iteration"""
        for x, (pos, vals) in facts.items():
            if isapp(x, "num") and x.a[2].a[1] == "u8" and pos and len(vals) == 1:
                i = x.a[3]
                if isapp(i, "in") and source(i) is state:
                    return next(iter(vals))
        return None

    def size(self, facts):
        """value of the 16-bit number read after the identifier"""
        for x, (pos, vals) in facts.items():
            if isapp(x, "num") and x.a[2].a[1] == "u16" and x.a[1].a[1] == "LE" and pos and len(vals) == 1:
                i = x.a[3]
                if isapp(i, "in"):
                    s = source(i)
                    if isapp(s, "after") and source_of_call(s.a[1]) is self.state:
                        return next(iter(vals))
        return None


def source_of_call(c):
    return next((y for y in c.a if isinstance(y, T)), None)


def leavesof(t, out=None):
    out = [] if out is None else out
    if t.op == "case":
        for _, v in case_alts(t):
            leavesof(v, out)
    elif t is not BOT and t not in out:
        out.append(t)
    return out


def unpart(t):
    """without the marks for loops that were left early"""
    m = {x: x.a[1] for x in subterms(t) if isapp(x, "part")}
    return subst(t, m) if m else t


def backalts(I, m):
    """[(facts, value)] of the alternatives in which another iteration starts, and the value that loop variable m has in it"""
    run, h = I.loopinfo[m.a[:2]]
    B = run.loops[h]["B"]
    return paths(I, I.mus[m][1], B.facts if B else NOFACTS)


def known(facts, t):
    """the value t is known to have"""
    for x, (pos, vals) in facts.items():
        if not pos or len(vals) != 1:
            continue
        v = next(iter(vals))
        if x is t:
            return v
        if isapp(x, "eq") and v == 1:
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if a is t and b.op == "const":
                    return b.a[1]
                if a is t and b.op == "agg" and b.a[0] == "array" and all(y.op == "const" for y in b.a[3:]):
                    return tuple(y.a[1] for y in b.a[3:])
                if a is t and isapp(b, "repeat") and b.a[1].op == "const" and b.a[2].op == "const":
                    return (b.a[1].a[1],) * b.a[2].a[1]
    n = length(t)
    if n.op == "const" and 0 < n.a[1] <= 64:
        for x, (pos, vals) in facts.items():
            if isapp(x, "starts_with", "ends_with") and x.a[1] is t and pos and set(vals) == {1} and length(x.a[2]) is n:
                c = x.a[2]
                if c.op == "const":
                    return tuple(c.a[1])
                if c.op == "agg" and c.a[0] == "array" and all(y.op == "const" for y in c.a[3:]):
                    return tuple(y.a[1] for y in c.a[3:])
        each = []
        for i in range(n.a[1]):
            for k in ("index", "at"):
                v = facts.get(app(k, t, cint(i)))
                if v and v[0] and len(v[1]) == 1:
                    each.append(next(iter(v[1])))
                    break
            else:
                return None
        return tuple(each)
    return None


def counts_from_zero(I, t, loop):
    """t counts the iterations of the loop: 0, 1, 2, ..."""
    if isapp(t, "cast"):
        t = t.a[3]
    if t.op == "elem":
        r, s = t.a
        return isapp(r, "range", "range_from", "rangefrom", "range_incl") and r.a[1] is cint(0) and in_loop(I, s, loop)
    if t.op == "mu" and t.a[:2] == loop:
        E, B = I.mus[t]
        return E is cint(0) and all(isapp(x, "add") and set(x.a[1:]) == {t, cint(1)} for f, x in paths(I, B))
    return False


def in_loop(I, s, loop):
    """the iterator step at site s belongs to the loop and to no inner one"""
    run, h = I.loopinfo[loop]
    inner = [x["body"] for g, x in run.loops.items() if g != h and g in run.loops[h]["body"]]
    for bb, es in run.events.items():
        if bb in run.loops[h]["body"] and not any(bb in b for b in inner):
            for e in es.values():
                if e.kind == "next" and e.args[2].a == s:
                    return True
    return False
