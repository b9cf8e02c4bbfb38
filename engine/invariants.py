"""Lengths of private buffers of local types, from everything that creates such a value."""
from .dump import deref_ty, ty_name
from .terms import *


def creators(D, adt):
    """functions that build a value of the type, and whether some function changes a field of one"""
    out, changed = set(), False
    for p, f in D.fns.items():
        if f.get("derived"):
            continue
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "agg" and r[1][0] == "adt" and r[1][1] == adt:
                    out.add(p)
                for place in [s[1]] + ([r[2]] if r[0] == "ref" and r[1] != "shared" else []):
                    t = D.ty(f["locals"][place[0]]["t"])
                    for k in place[1]:
                        if k[0] == "f" and ty_name(t) == adt:
                            changed = True
                        t = t[2] if k[0] == "*" and t[0] in ("ref", "ptr") else D.ty(k[3]) if k[0] == "f" else ("other",)
    return out, changed


def buffer_len(D, adt, field):
    """length of the bytes in a private field, if every creator gives it the same one"""
    memo = D.__dict__.setdefault("_buflen", {})
    if (adt, field) in memo:
        return memo[adt, field]
    memo[adt, field] = None
    a = D.adts.get(adt)
    if not a or not a["local"] or a["kind"] != "struct" or any(x["n"] == field and x["pub"] for x in a["v"][0]["f"]):
        return None
    from .interp import Interp
    from .models import Models
    from .ranges import Ranges
    from .canon import Canon
    made, changed = creators(D, adt)
    lens = set()
    if changed:
        return None
    for p in made:
        I = Interp(D, Models())
        r = I.analyse(p)
        v = r.ret
        if not (v.op == "agg" and v.a[0] == adt):
            return None
        x = v.a[3 + v.a[2].index(field)]
        if x.op == "app" and x.a[0] == "sec":
            x = x.a[1]
        lens.add(Ranges(I, r.exit.facts if r.exit else {}, Canon(I)).of(length(x)))
    if len(lens) == 1:
        lo, hi = lens.pop()
        if lo == hi:
            memo[adt, field] = lo
    return memo[adt, field]
