"""C09: fresh randomness of every save and every new key file."""
from engine.view import *
from engine.filefmt import saved, parse, Layout, is_rand

EXPLANATION = (
    "Provenance analysis of the bytes that save writes: the output of Database::save is computed as a term; the value of each of the "
    "header records master seed, transform seed, encryption IV, protected stream key and stream start bytes must be the whole result "
    "of one draw of that size from the operating system's generator, made during this save, and no two may be the same draw. "
    "The key of KeyFile::new must be one such draw of 32 bytes.")
ASSUMPTIONS = ["rand_core::os::OsRng fills the whole buffer from the operating system's generator"]
NEED = {4: ("master seed", 32), 5: ("transform seed", 32), 7: ("encryption IV", 16), 8: ("protected stream key", 32), 9: ("stream start bytes", 32)}


def check(W, R):
    e = saved(W)
    try:
        F = parse(e.out)
    except Layout as x:
        R.bad("layout", "Database::save", str(x))
        return
    used = {}
    for id_, (name, n) in NEED.items():
        rs = [r for r in F.records if r.id == id_]
        if not R.check(len(rs) == 1, "present", name, "header record %d occurs %d times" % (id_, len(rs))):
            continue
        r = rs[0]
        d = is_rand(r.value)
        if not R.check(d is not None, "drawn", name, lambda: "the %s is %s, not a draw from the operating system's generator" % (name, show(r.value, 5))):
            continue
        R.check(r.size is cint(n), "size", name, lambda: "the %s has %s bytes" % (name, show(r.size)))
        R.check(d not in used, "separate", name, lambda: "the %s and the %s are the same random bytes" % (name, used[d]))
        used[d] = name
        R.samples.append("%s = %s" % (name, show(r.value, 3)))
    # nothing but these draws where they are used: IV and start bytes of the payload
    k = W.entry(W.method("KeyFile", "new"))
    for f, leaf in paths(k.I, k.run.ret):
        if leaf.op == "agg" and leaf.a[0] == RES and leaf.a[1] == 0:
            key = field(leaf.a[3], "key")
            d = is_rand(key.a[1]) if isapp(key, "sec") else None
            R.check(d is not None and d.a[-1] is cint(32), "key-file", "KeyFile::new", lambda: "the new key is %s" % show(key, 5))
    draws = [x for x in subterms(e.out) if x.op == "call" and "OsRng" in str(x.a)]
    R.floor("random draws in the saved file", len(draws), 5)
