"""Call graph over the dump: local edges (trait calls resolved to every matching local impl) and external callees."""
from .dump import norm, deref_ty, ty_name, unify


def operands(f):
    for i, b in enumerate(f["blocks"]):
        for s in b["s"]:
            if s[0] == "=":
                yield from consts(s[2])
        yield from consts(b["t"])


def consts(x):
    """function constants anywhere in a statement or terminator"""
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict) and "def" in x["fn"]:
            yield x["fn"]
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, list):
        if len(x) >= 2 and x[0] == "closure" and isinstance(x[1], str):
            yield {"closure": x[1]}
        for v in x:
            yield from consts(v)


class Graph:
    def __init__(self, D):
        self.D = D
        self.local, self.ext, self.sites = {}, {}, {}
        for n, f in D.fns.items():
            L, E = set(), {}
            for b in f["blocks"]:
                for k in list(b["s"]) + [b["t"]]:
                    sp = b["t"].get("fsp") if k is b["t"] else None
                    for fn in consts(k):
                        if "closure" in fn:
                            L.add(fn["closure"])
                            continue
                        for t in self.targets(fn, f):
                            L.add(t)
                        if not fn["local"]:
                            E.setdefault(fn["def"], sp or f.get("span"))
                        if b["t"]["k"] == "call":
                            pass
            # closures are constructed by aggregates
            self.local[n] = {x for x in L if x in D.fns}
            self.ext[n] = E
        self.callers = {}
        for a, bs in self.local.items():
            for b in bs:
                self.callers.setdefault(b, set()).add(a)

    def targets(self, fn, f):
        D = self.D
        out = set()
        res = fn.get("res")
        if res and res.get("local"):
            out.add(res["def"])
        elif fn["local"] and fn["def"] in D.fns:
            out.add(fn["def"])
        if "trait" in fn and not out:
            st = D.ty(fn["args"][0]) if fn["args"] and isinstance(fn["args"][0], int) else None
            for im in D.by_trait.get(fn["trait"], ()):
                if fn["name"] in im["items"]:
                    if st is None or st[0] == "param" or unify(D.ty(im["self"]), st, {}) or has_param(st):
                        out.add(im["items"][fn["name"]])
        return out

    def reach(self, roots):
        seen, w = set(), list(roots)
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            w.extend(self.local.get(x, ()))
        return seen

    def sccs(self):
        idx, low, on, st, out, cnt = {}, {}, set(), [], [], [0]
        for root in sorted(self.local):
            if root in idx:
                continue
            work = [(root, iter(sorted(self.local[root])))]
            idx[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            on.add(root)
            while work:
                n, it = work[-1]
                for m in it:
                    if m not in idx:
                        idx[m] = low[m] = cnt[0]
                        cnt[0] += 1
                        st.append(m)
                        on.add(m)
                        work.append((m, iter(sorted(self.local.get(m, ())))))
                        break
                    if m in on:
                        low[n] = min(low[n], idx[m])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        c = set()
                        while True:
                            x = st.pop()
                            on.discard(x)
                            c.add(x)
                            if x == n:
                                break
                        if len(c) > 1 or n in self.local[n]:
                            out.append(c)
        return out

    def public(self):
        """functions a user of the crate can call"""
        if hasattr(self, "_pub"):
            return self._pub
        D = self.D
        out = []
        exp = set(D.exports)
        for n, f in D.fns.items():
            if f["kind"] in ("Closure", "Const"):
                continue
            if f.get("self_ty") is not None:
                t = ty_name(deref_ty(D.ty(f["self_ty"])))
                if t in exp and (f["pub"] or f.get("impl_trait")):
                    out.append(n)
            elif f["pub"] and self.exported_fn(n):
                out.append(n)
        self._pub, self._pubset = out, set(out)
        return out

    def exported_fn(self, n):
        return False

    def owner(self, n):
        """the function a private single-caller helper (or closure) was extracted from"""
        seen = set()
        self.public()
        pub = self._pubset
        while n not in seen:
            seen.add(n)
            if "::{closure" in n:
                n = n.split("::{closure")[0]
                continue
            c = self.callers.get(n, set()) - {n}
            if n in pub or len(c) != 1:
                break
            n = next(iter(c))
        return n


def has_param(t):
    return t[0] == "param" or any(isinstance(x, tuple) and has_param(x) for x in t)
