"""C33: entry accessors."""
from engine.view import *
from engine.canon import Canon

EXPLANATION = (
    "Value analysis of the accessors of Entry: the state after each setter must be the old entry with exactly one insertion into "
    "its strings, under the key the setter names and with the given text (protected for the password); every alternative of each "
    "getter's result must be the text stored under that key, plain or protected, and 'nothing' only where the map has no such key "
    "or the protected bytes are not text.")

KEYS = {"title": "Title", "username": "Username", "password": "Password", "url": "Url", "notes": "Notes"}


def check(W, R):
    D = W.D
    sk, sv = W.adt("StringKey"), W.adt("StringValue")
    vi = {v["n"]: i for i, v in enumerate(D.adts[sk]["v"])}
    vv = {v["n"]: i for i, v in enumerate(D.adts[sv]["v"])}
    n = 0
    for name in list(KEYS) + ["other"]:
        key = agg(sk, vi[KEYS[name]], ()) if name != "other" else None
        # setter
        p = W.method("Entry", "set_" + name)
        e = W.entry(p)
        val = e.run.args[-1]
        k = key or e.run.args[1]
        self_ = mk("sym", "self")
        after = e.run.exit.mem.get(("p", "self")) if e.run.exit else None
        u = updates(after, self_) if after is not None else None
        n += 1
        if R.check(u is not None and set(u) == {"strings"}, "setter-frame", "Entry::set_" + name,
                   lambda: "changes %s of the entry" % (sorted(u) if u is not None else show(after, 4))):
            strs = field(self_, "strings")
            want = agg(sv, vv["Protected"], ("0",), app("sec", val)) if name == "password" else agg(sv, vv["Plain"], ("0",), val)
            R.check(u["strings"] is app("ins", strs, k, want), "setter", "Entry::set_" + name,
                    lambda: "stores %s instead of inserting %s under %s" % (show(u["strings"], 6), show(want, 4), show(k, 3)))
        # getter
        p = W.method("Entry", name)
        e = W.entry(p)
        C = Canon(e.I)
        k = key or e.run.args[1]
        strs = field(e.run.args[0], "strings")
        got = app("get", strs, k)
        plain = mk("fld", "Plain", "0", got)
        prot = app("unsec", mk("fld", "Protected", "0", got))
        seen = set()
        for f, leaf in paths(e.I, e.run.ret):
            n += 1
            if leaf.op == "agg" and leaf.a[0] == OPT and leaf.a[1] == 1:
                x = C.canon(leaf.a[3])
                if x is plain:
                    seen.add("plain")
                elif x is app("text", prot):
                    seen.add("protected")
                else:
                    R.bad("getter", "Entry::" + name, "returns %s instead of the text stored under %s" % (show(x, 6), show(k, 3)))
            elif leaf.op == "agg" and leaf.a[0] == OPT and leaf.a[1] == 0:
                ok_ = False
                for t, (pos, vs) in f.items():
                    if t is app("contains_key", strs, k) and pos and set(vs) <= {0, False}:
                        ok_ = True
                    if t.op == "disc" and t.a[1].op == "call" and t.a[1].a[0].endswith("from_utf8") and t.a[1].a[-1] is prot and pos and set(vs) == {1}:
                        ok_ = True
                R.check(ok_, "getter-none", "Entry::" + name,
                        lambda: "returns nothing although a value may be stored under %s: %s" % (show(k, 3), {show(t, 5): v for t, v in f.items()}))
            else:
                R.bad("getter", "Entry::" + name, "result %s cannot be decided" % show(leaf, 4))
        R.check(seen == {"plain", "protected"}, "getter-both", "Entry::" + name, "returns only %s values" % sorted(seen))
    R.floor("accessor alternatives", n, 24)
