"""Access to the compiler dump: types, functions, trait dispatch."""
import json, re, functools


def norm(path):
    """canonical name of an external function: generic arguments removed"""
    out, i, n = [], 0, len(path)
    depth = 0
    p = path
    # <impl core::clone::Clone for X>::f -> f's module; keep the impl'd prim for core::num
    m = re.match(r"core::num::<impl (\w+)>::(.*)$", p)
    if m:
        return "core::num::" + m.group(2)
    while i < n:
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">":
            if i and p[i - 1] == "-":
                pass
            else:
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"::(::)+", "::", s)
    return s.strip(":")


class Dump:
    def __init__(self, d):
        self.d = d
        self.fns = d["fns"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.unsafes = d["unsafes"]
        self.exports = d.get("exports", [])
        self._ty = {}
        self.by_trait = {}
        for im in self.impls:
            if im.get("trait"):
                self.by_trait.setdefault(im["trait"], []).append(im)

    # --- types as nested tuples -------------------------------------------
    def ty(self, i, env=None):
        """type number -> structural type, parameters replaced by env"""
        if i is None:
            return ("other", "?")
        t = self._ty.get(i)
        if t is None:
            t = self._ty[i] = self._mk(i)
        return subst_ty(t, env) if env else t

    def _mk(self, i):
        t = self.types[i]
        k = t["k"]
        a = tuple(self.ty(x) for x in t.get("a", ()))
        if k == "adt":
            return ("adt", t["d"]) + a
        if k == "prim":
            return ("prim", t["s"])
        if k in ("ref", "ptr"):
            return (k, bool(t.get("m"))) + a
        if k == "array":
            return ("array", t.get("n")) + a
        if k in ("tuple", "slice"):
            return (k,) + a
        if k == "param":
            return ("param", t["n"])
        if k == "closure":
            return ("closure", t["d"]) + a
        if k == "fndef":
            return ("fndef", t["f"]["def"], i)
        return (k, t["s"])

    def find_impl(self, trait, self_ty, item):
        for im in self.by_trait.get(trait, ()):
            if item not in im["items"]:
                continue
            b = {}
            if unify(self.ty(im["self"]), self_ty, b):
                return im["items"][item], b
        return None

    def is_local_adt(self, path):
        a = self.adts.get(path)
        return bool(a and a["local"])

    def has_impl(self, trait, ty):
        for im in self.by_trait.get(trait, ()):
            if unify(self.ty(im["self"]), ty, {}):
                return True
        return False


def subst_ty(t, env):
    if t[0] == "param":
        return env.get(t[1], t)
    if any(isinstance(x, tuple) for x in t):
        return tuple(subst_ty(x, env) if isinstance(x, tuple) else x for x in t)
    return t


def unify(pat, t, b):
    if pat[0] == "param":
        if pat[1] in b:
            return b[pat[1]] == t
        b[pat[1]] = t
        return True
    if pat[0] != t[0] or len(pat) != len(t):
        return False
    for x, y in zip(pat[1:], t[1:]):
        if isinstance(x, tuple):
            if not isinstance(y, tuple) or not unify(x, y, b):
                return False
        elif x != y:
            return False
    return True


def deref_ty(t):
    while t[0] in ("ref", "ptr"):
        t = t[2]
    return t


def ty_name(t):
    if t[0] in ("adt", "closure"):
        return t[1]
    if t[0] in ("prim", "param"):
        return t[1]
    return t[0]
