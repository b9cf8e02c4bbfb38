"""Reading results of the analysis: alternatives of a value with the facts under which each is taken."""
from .terms import *
from .interp import Facts, NOFACTS


def paths(I, t, facts=NOFACTS, C=None, limit=4000):
    """[(facts, leaf)]: the alternatives of t; selectors of merge points contribute the facts of their incoming edges"""
    out = []

    def go(t, f, d):
        if len(out) > limit:
            raise ValueError("too many alternatives")
        if t.op != "case":
            if t is not BOT:
                out.append((f, t))
            return
        sel = t.a[0]
        keys = [k for k, _ in case_alts(t) if k != "*"]
        for k, v in case_alts(t):
            if v is BOT:
                continue
            g = dict(f)
            if sel.op == "M":
                ok_ = True
                for x, pv in I.guards.get(sel, {}).get(k, {}).items():
                    n = I.meet(Facts(g), x, pv[0], pv[1])
                    if n is None:
                        ok_ = False
                        break
                    g = n
                if not ok_:
                    continue
                n = I.meet(Facts(g), sel, True, frozenset([k]))
            else:
                n = I.assume(Facts(g), sel, False, keys) if k == "*" else I.assume(Facts(g), sel, True, [k])
            if n is None:
                continue
            go(v, n, d + 1)
    go(t, facts, 0)
    return out


def isapp(t, *n):
    return t.op == "app" and t.a[0] in n


def path_of(t):
    """$self.a.b -> ("self", "a", "b"); None if t is not a field path of a parameter"""
    p = []
    while t.op == "fld":
        p.append(t.a[1])
        t = t.a[2]
    if t.op == "sym":
        return (t.a[0],) + tuple(p[::-1])
    return None


def leaves(t, out=None):
    """non-case alternatives"""
    if out is None:
        out = []
    if t.op == "case":
        for _, v in case_alts(t):
            leaves(v, out)
    elif t is not BOT and t not in out:
        out.append(t)
    return out


def field(t, name):
    """value of field `name` of a (possibly updated) struct value"""
    return proj(t, ("f", None, name, None))


def updates(t, base):
    """{field: value} that differ from base; None if t is not derived from base"""
    u = {}
    while t is not base:
        if t.op == "upd" and t.a[1][0] == "f":
            u.setdefault(t.a[1][2], t.a[2])
            t = t.a[0]
        elif t.op == "agg" and base.op == "sym":
            for n, v in zip(t.a[2], t.a[3:]):
                if not (v.op == "fld" and v.a[1] == n and v.a[2] is base):
                    u[n] = v
            return u
        else:
            return None
    return u


def calls_to(t, suffix):
    return [x for x in subterms(t) if x.op == "call" and (x.a[0] == suffix or x.a[0].endswith("::" + suffix))]


def deep(I, t, stop=lambda x: False):
    """all subterms, following loop-carried values into their definitions and iteration counts into their collections"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if stop(x):
            continue
        if x.op == "mu":
            m = I.mus.get(x)
            if m:
                st.extend(y for y in m if isinstance(y, T))
            info = I.loopinfo.get((x.a[0], x.a[1]))
            if info:
                run, h = info
                for bb, es in run.events.items():
                    if bb in run.loops[h]["body"]:
                        for e in es.values():
                            if e.kind == "next":
                                st.extend(y for y in e.args if isinstance(y, T))
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return seen
