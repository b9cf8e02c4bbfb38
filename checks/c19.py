"""C19: effects. Who-may-call over all external callees, statics, and mutability of save's receiver."""
import re
from engine.graph import Graph
from engine.dump import ty_name, deref_ty

EXPLANATION = (
    "Effect analysis of the whole crate: every external function named anywhere in the MIR of every function (calls and "
    "function values) is compared with the capabilities the property forbids (files, sockets, processes, environment, "
    "threads, standard input/output, time zone files); every static and every constant of a thread-local type is reported if "
    "its type allows mutation; the operations that save a database take it by shared reference and no field type of a "
    "database has interior mutability, so the compiler's borrow rules exclude a modification.")
ASSUMPTIONS = ["the external crates in use do not themselves open files or sockets (flate2, base64, hex, uuid, chrono::Utc, secstr, xml, rust-crypto)"]

DENY = [r"^std::fs::", r"^std::net::", r"^std::process::", r"^std::env::", r"^std::thread::", r"^std::os::", r"^std::sys",
        r"^std::io::stdio::(?!stderr$|_eprint$|Stderr)", r"^chrono::offset::local", r"Local::now", r"^libc::", r"^std::path::.*(exists|is_file|metadata|canonicalize|read_)",
        r"^std::sync::mpsc", r"^std::backtrace", r"^std::panic::set_hook", r"^std::alloc::set", r"^tempfile::", r"^core::arch::", r"^std::ffi::.*env"]
INTERIOR = re.compile(r"(Cell|RefCell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Mutex|RwLock|Atomic\w+|LocalKey|Condvar|Once|Rc|Arc)$")
CRATES = {"core", "alloc", "std", "base64", "byteorder", "chrono", "crypto", "flate2", "hex", "rand_core", "rand", "secstr", "uuid", "xml"}


def tys(D, t, seen=None):
    """all type constructors reachable from a type through local fields"""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    out = set()
    if t[0] == "adt":
        out.add(t[1])
        a = D.adts.get(t[1])
        if a and a["local"]:
            for v in a["v"]:
                for f in v["f"]:
                    out |= tys(D, D.ty(f["t"]), seen)
    if t[0] == "ptr":
        out.add("raw pointer")
    for x in t[1:]:
        if isinstance(x, tuple):
            out |= tys(D, x, seen)
    return out


def interior(name):
    return name == "raw pointer" or bool(INTERIOR.search(name.split("::")[-1]))


def check(W, R):
    D = W.D
    # the rules must match what they are meant to match
    for pos in ("std::fs::File::open", "std::env::var", "std::io::stdio::_print", "std::net::tcp::TcpStream::connect", "std::process::exit"):
        if not any(re.search(p, pos) for p in DENY):
            R.bad("self-test", pos, "the deny rules do not match their positive example")
    if not interior("core::cell::RefCell") or not interior("std::sync::poison::mutex::Mutex"):
        R.bad("self-test", "RefCell", "the interior mutability rule does not match its positive example")
    G = Graph(D)
    n = 0
    for fn, ext in sorted(G.ext.items()):
        for callee, sp in sorted(ext.items()):
            n += 1
            hit = any(re.search(p, callee) for p in DENY)
            R.check(not hit, "effect", "%s calls %s" % (G.owner(fn), callee),
                    "forbidden effect: %s at %s" % (callee, sp))
            cr = callee.lstrip("<&").split("::")[0]
            if cr not in CRATES and callee[0] != "<":
                R.bad("crate", "%s calls %s" % (G.owner(fn), callee), "external crate whose effects are not known, at %s" % sp)
    R.floor("external callees examined", n, 600)
    R.floor("functions examined", len(D.fns), 500)
    for s in D.d["statics"]:
        t = D.ty(s["t"])
        bad = s["mut"] or any(interior(x) for x in tys(D, t))
        R.check(not bad, "static", s["d"], "global mutable state: static %s" % s["d"])
    k = 0
    for fn, f in D.fns.items():
        if f["kind"] == "Const":
            k += 1
            t = D.ty(f["locals"][0]["t"])
            R.check(not any(interior(x) for x in tys(D, t)), "constant", fn, "thread-local or interior-mutable constant %s" % fn)
    R.floor("constants examined", k, 20)
    for fn, f in D.fns.items():
        for l in f["locals"]:
            t = D.ty(l["t"])
            if ty_name(deref_ty(t)).endswith("LocalKey"):
                R.bad("thread-local", G.owner(fn), "uses a thread-local variable")
    for ty, m in (("Database", "save"), ("KeyFile", "save")):
        p = W.method(ty, m)
        f = D.fns[p]
        t = D.ty(f["locals"][1]["t"])
        R.check(t[0] == "ref" and not t[1], "receiver", p, "takes its receiver as %s instead of a shared reference" % (t[:2],))
        inner = [x for x in tys(D, deref_ty(t)) if interior(x)]
        R.check(not inner, "interior", p, "the saved value has interior mutability through %s" % inner)
    for u in D.unsafes:
        o = G.owner(u["fn"])
        if W.method("Database", "save") in {o} or u["fn"] in G.reach([W.method("Database", "save")]):
            R.bad("unsafe-in-save", o, "unsafe code reachable from save could modify the database, at %s" % u["sp"])
