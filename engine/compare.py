"""Field-by-field comparison of the value the reader produces with the value that was written."""
from .terms import *
from . import terms as TT
from .interp import Facts, NOFACTS
from .canon import isapp, is_empty, cat_items
from .compose import empties


class Diff:
    __slots__ = ("path", "got", "want", "facts", "why", "tys", "cond")

    def __init__(self, path, got, want, facts, why, tys=(), cond=()):
        self.path, self.got, self.want, self.facts, self.why, self.tys, self.cond = path, got, want, facts, why, tys, cond

    def name(self):
        return ".".join(self.path)

    def __repr__(self):
        return "%s: %s" % (self.name(), self.why)


class Compare:
    def __init__(self, R, facts=NOFACTS, skip=()):
        self.R, self.I, self.C, self.D = R, R.I, R.C, R.I.D
        self.diffs = []
        self.leaves = 0
        self.checked = []        # paths of leaves compared
        self.facts0 = facts
        self.skip = set(skip)
        self.tys = []            # types from the root to the value being compared

    # ---------------------------------------------------------------- entry
    def run(self, got, want, path, ty=None):
        self.tys = [ty]
        self.same(got, want, self.facts0, path)
        return self.diffs

    def sub(self, ty, v, w, facts, path):
        self.tys.append(ty)
        try:
            self.same(v, w, facts, path)
        finally:
            self.tys.pop()

    def arg(self, i):
        """type argument of the container being compared"""
        t = self.tys[-1]
        return t[2 + i] if t and t[0] == "adt" and len(t) > 2 + i else None

    def field_ty(self, adt, vi, name):
        info = self.I.adts.get(adt)
        t = self.tys[-1]
        if adt == "tuple":
            return t[1 + int(name)] if t and t[0] == "tuple" and len(t) > 1 + int(name) else None
        if adt == OPT:
            return self.arg(0)
        if not info or not info.get("local"):
            return None
        for f in info["v"][vi]["f"]:
            if f["n"] == name and f.get("t") is not None:
                return self.D.ty(f["t"])
        return None

    def bad(self, path, got, want, facts, why):
        f = self.refine(facts)
        if f is None:
            return
        if f is not facts:
            return self.same(got, want, f, path)
        cond = self.texts(facts)
        for d in self.diffs:
            if d.path == path and d.why == why and d.cond == cond:
                return
        self.diffs.append(Diff(path, got, want, facts, why, tuple(self.tys), cond))

    def texts(self, facts):
        """constant texts that something must equal for this alternative"""
        out = set()
        for t, pv in facts.items():
            if self.facts0.get(t) == pv:
                continue
            if t.op == "imp":
                sel, k = t.a[0], t.a[1]
                c = facts.get(sel)
                if not (pv[0] and 1 in pv[1] and c and c[0] and k in c[1]):
                    continue
                while t.op == "imp":
                    t, pv = t.a[2], (t.a[3], t.a[4])
            if pv[0] and len(pv[1]) == 1:
                v = next(iter(pv[1]))
                if isinstance(v, str):
                    out.add(v.lower())
        return tuple(sorted(out))

    def ok(self, path):
        self.leaves += 1
        if not self.checked or self.checked[-1][0] != path:
            self.checked.append((path, self.tys[-1]))

    def split(self, facts, sel, keys):
        I = self.I
        named = [k for k in keys if k != "*"]
        for k in keys:
            if sel.op == "M":
                f = self.under(facts, sel, k)
            elif k == "*":
                f = I.assume(facts, sel, False, named)
            else:
                f = I.restrict(facts, sel, frozenset([k]))
            if f is not None:
                yield k, f

    def refine(self, facts):
        """use what the alternatives of merge points say; None if no combination is possible"""
        f = facts
        for _ in range(6):
            f0 = f
            for x, pv in list(f.items()):
                if x.op != "M" or not pv[0] or len(pv[1]) < 2 or len(pv[1]) > 12 or self.facts0.get(x) == pv:
                    continue
                hs = [(q, h) for q, h in ((q, self.under(f, x, q)) for q in sorted(pv[1], key=str)) if h is not None]
                if not hs:
                    return None
                if len(hs) == 1:
                    f = hs[0][1]
                    break
                if len(hs) < len(pv[1]):
                    f = self.I.meet(f, x, True, frozenset(q for q, _ in hs))
                    if f is None:
                        return None
                    break
            if f is f0:
                return f
        return f

    def under(self, facts, sel, k):
        f = self.I.meet(facts, sel, True, frozenset([k]))
        if f is None or f is facts:
            return f
        g = self.I.guards.get(sel, {}).get(k, {})
        for x, pv in g.items():
            if x.op == "M":
                f = self.I.meet(f, x, pv[0], pv[1])
            else:
                y = x if x.op == "imp" else self.C.canon(self.I.simp(x, f))
                if y is x:
                    f = self.I.meet(f, x, pv[0], pv[1])
                elif y.op == "const":
                    if (y.a[1] in pv[1]) != pv[0]:
                        return None
                else:
                    f = self.I.assume(f, y, pv[0], list(pv[1]))
            if f is None:
                return None
        for _ in range(4):
            f0 = f
            for x in g:
                if x.op != "M":
                    continue
                pv = f.get(x)
                if pv is None or not pv[0]:
                    continue
                fs = [(q, h) for q, h in ((q, self.under(f, x, q)) for q in sorted(pv[1], key=str)) if h is not None]
                if not fs:
                    return None
                if len(fs) == 1:
                    f = fs[0][1]
                elif len(fs) < len(pv[1]):
                    f = self.I.meet(f, x, True, frozenset(q for q, _ in fs))
                    if f is None:
                        return None
            if f is f0:
                break
        return f

    # ---------------------------------------------------------------- values
    def same(self, v, w, facts, path):
        if path[-1] in self.skip:
            return
        I, C = self.I, self.C
        v, w = C.canon(I.simp(v, facts)), C.canon(I.simp(w, facts))
        if v is BOT:
            return
        if v is w or (v.op != "agg" and C.equal(v, w)):
            return self.ok(path)
        if v.op == "case":
            alts = dict(case_alts(v))
            for k, f in self.split(facts, v.a[0], list(alts)):
                self.same(alts[k], w, f, path)
            return
        if w.op == "case":
            alts = dict(case_alts(w))
            for k, f in self.split(facts, w.a[0], list(alts)):
                self.same(v, alts[k], f, path)
            return
        if v.op == "const" and v.a[0] == "bool":
            p = facts.get(w)
            known = None
            if p is not None:
                vals = p[1] if p[0] else frozenset([0, 1]) - {int(x) for x in p[1]}
                vals = {int(x) for x in vals}
                known = vals.pop() if len(vals) == 1 else None
            if known is not None and bool(known) == bool(v.a[1]):
                return self.ok(path)
            return self.bad(path, v, w, facts, "is always %s here" % v.a[1])
        if is_empty(v):
            for t, (pos, vals) in facts.items():
                if t.op == "disc" and t.a[0] in ("%Text", "%TextB") and pos and set(vals) == {2}:
                    if any(x is w or C.equal(x, w) for x in empties(C.canon(t.a[1]))):
                        return self.ok(path)
            if self.empty_coll(w, facts):
                return self.ok(path)
            return self.bad(path, v, w, facts, "is always empty here")
        if isapp(v, "sec") and w.op != "const":
            x = v.a[1]
            return self.same(x, self.unsec(w), facts, path)
        if v.op == "agg":
            return self.agg(v, w, facts, path)
        if isapp(v, "mapof"):
            coll, k, val = v.a[1:4]
            if not (coll is w or C.equal(coll, w)):
                return self.bad(path, v, w, facts, "collects the members of %s" % show(coll, 4)[:160])
            el = mk("elem", coll, "*")
            self.sub(self.arg(0), k, proj(el, ("f", None, "0", None)), facts, path + ("key",))
            self.sub(self.arg(1), val, proj(el, ("f", None, "1", None)), facts, path + ("value",))
            return
        if isapp(v, "listof", "star"):
            coll, body = v.a[1:3]
            if not (coll is w or C.equal(coll, w)):
                return self.bad(path, v, w, facts, "collects the members of %s" % show(coll, 4)[:160])
            if isapp(v, "star"):
                if not isapp(body, "one"):
                    return self.bad(path, v, w, facts, "does not collect one value per member: %s" % show(body, 4)[:160])
                body = body.a[1]
            self.sub(self.arg(0), body, mk("elem", coll, "*"), facts, path + ("item",))
            return
        if v.op == "mu":
            r = self.relinked(v)
            if r is not None:
                return self.same(r, w, facts, path)
        self.bad(path, v, w, facts, "becomes %s" % show(v, 5)[:300])

    def unsec(self, w):
        return self.C.canon(app("unsec", w))

    def empty_coll(self, w, facts):
        I = self.I
        for t in (eq(cint(0), app("len", w)), app("is_empty", w)):
            p = facts.get(t)
            if p and p[0] and set(map(int, p[1])) == {1}:
                return True
        p = facts.get(app("len", w))
        return bool(p and p[0] and set(p[1]) == {0})

    def agg(self, v, w, facts, path):
        I, C = self.I, self.C
        adt, vi = v.a[0], v.a[1]
        if w.op == "const":
            return self.bad(path, v, w, facts, "differs")
        if w.op == "agg":
            if w.a[0] != adt or w.a[1] != vi or len(w.a) != len(v.a):
                return self.bad(path, v, w, facts, "becomes %s" % show(v, 3)[:200])
            for n, x, y in zip(v.a[2] or range(len(v.a)), v.a[3:], w.a[3:]):
                self.sub(self.field_ty(adt, vi, str(n)), x, y, facts, path + (str(n),))
            if len(v.a) == 3:
                self.ok(path)
            return
        if adt == "array":
            return self.bad(path, v, w, facts, "becomes %s" % show(v, 3)[:200])
        if adt != "tuple":
            info = I.adts.get(adt)
            if info and len(info["v"]) > 1:
                d = I.disc(w, adt)
                k = disc_value(I.adts, adt, vi)
                if d.op == "const":
                    vals = [d.a[1]]
                else:
                    p = facts.get(d)
                    vals = sorted(p[1]) if p and p[0] else [disc_value(I.adts, adt, i) for i in range(len(info["v"]))]
                nm = {disc_value(I.adts, adt, i): x["n"] for i, x in enumerate(info["v"])}
                if vals != [k]:
                    f2 = self.refine(facts)
                    if f2 is None:
                        return
                    if f2 is not facts:
                        return self.same(v, w, f2, path)
                    for x in vals:
                        f2 = I.assume(facts, d, True, [x])
                        f2 = f2 if f2 is None else self.refine(f2)
                        if f2 is None:
                            continue
                        if x == k:
                            self.same(v, w, f2, path)
                        else:
                            self.bad(path, v, w, f2, "%s becomes %s" % (nm.get(x, x), nm[k]))
                    return
                vn = info["v"][vi]["n"]
                for n, x in zip(v.a[2], v.a[3:]):
                    y = proj(w, ("f", vn, n, vi))
                    self.sub(self.field_ty(adt, vi, n), x, y, facts, path + ((vn,) if adt not in (OPT, RES) else ()) + ((n,) if n != "0" else ()) or path)
                if len(v.a) == 3:
                    self.ok(path)
                return
        if len(v.a) == 3:
            self.ok(path)
        for n, x in zip(v.a[2], v.a[3:]):
            self.sub(self.field_ty(adt, vi, n), x, proj(w, ("f", None, n, None)), facts, path + ((n,) if not (n == "0" and len(v.a) == 4) else ()))

    # ---------------------------------------------------------------- lists whose parent links are set afterwards
    def relinked(self, m):
        """list that later loops only change in the field `parent` of its members -> the list before"""
        if m not in self.I.mus:
            return None
        E, B = self.I.mus[m]
        self.visiting = {m}
        return E if self.list_only(B, m) else None

    def list_only(self, x, old):
        """x is the list old, except for `parent` fields of its members (at any depth)"""
        if x is old or x is BOT or self.C.canon(x) is self.C.canon(old):
            return True
        if x.op == "case":
            return all(self.list_only(y, old) for _, y in case_alts(x))
        if x.op == "upd" and x.a[1][0] == "e":
            base, p, val = x.a
            return self.list_only(base, old) and self.parent_only(val, proj(base, p))
        if x.op == "mu" and x in self.I.mus:
            if x in self.visiting:
                return True
            self.visiting.add(x)
            E, B = self.I.mus[x]
            return self.list_only(E, old) and self.list_only(B, x)
        return False

    def parent_only(self, val, el):
        if val is el or val is BOT:
            return True
        if val.op == "case":
            return all(self.parent_only(x, el) for _, x in case_alts(val))
        if val.op == "upd" and val.a[1][0] == "f":
            base, p, x = val.a
            if not self.parent_only(base, el):
                return False
            return p[2] == "parent" or self.list_only(x, proj(base, p))
        return False
