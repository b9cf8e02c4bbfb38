"""Padding processors written in the crate: do they add and remove the same padding as the PKCS padding of rust-crypto?"""
from .terms import *

PKCS = "PkcsPadding"


def methods(D, ty):
    """{method: function} of a local padding type"""
    return {f["name"]: p for p, f in D.fns.items()
            if (f.get("impl_trait") or "").endswith("::PaddingProcessor") and f.get("self_ty") is not None and D.ty(f["self_ty"]) == ty}


def buffer(k, data):
    def pre(st):
        for r, v in list(st.mem.items()):
            if r[0] == "p" and r[1] == k:
                st.mem[r] = agg("%rbuf", 0, ("data",), data)
    return pre


def run(D, fn, data=None):
    from .interp import Interp
    from .models import Models
    f = D.fns[fn]
    name = f["locals"][2].get("n") or "arg2"
    I = Interp(D, Models())
    return I, I.analyse(fn, pre=buffer(name, data) if data is not None else None)


def delegated(v, what, n):
    """the value is the result of PkcsPadding::what on the n-th argument"""
    return v.op == "call" and str(v.a[0]).split("::")[-1] == what and any(
        x.op == "agg" and str(x.a[0]).split("::")[-1] == PKCS for x in subterms(v))


def pkcs(D, ty):
    """True if the type pads and, for well-formed padding, strips like PkcsPadding"""
    ms = methods(D, ty)
    if set(ms) != {"pad_input", "strip_output"}:
        return False
    I, r = run(D, ms["pad_input"])
    calls = [e for x in r.walk() for es in x.events.values() for e in es.values() if e.kind == "call" and str(e.name).endswith("::pad_input")]
    if not delegated(r.ret, "pad_input", 1) or len(calls) != 1:
        return False
    for k in range(1, 17):
        data = agg("array", 0, (), *([mk("sym", "b%d" % i) for i in range(16 - k)] + [cint(k)] * k))
        I, r = run(D, ms["strip_output"], data)
        if not delegated(r.ret, "strip_output", 1):
            return False
    return True
