"""C29: aliasing. References are created only where the borrow checker checks them."""
import re
from engine.graph import Graph
from engine.dump import ty_name, deref_ty

EXPLANATION = (
    "Ownership rule: the borrow checker excludes aliasing mutable references in safe Rust, so the property reduces to the "
    "unsafe constructs of the crate. Every unsafe block, unsafe function and unsafe impl in the crate's HIR and every raw "
    "pointer dereference and call of a pointer-duplicating function in its MIR is enumerated; each is a violation, attributed "
    "to the function a single-caller private helper was extracted from. The one accepted finding is listed by that function.")
ASSUMPTIONS = ["the borrow checker of the compiler is sound"]
PTR = re.compile(r"(ptr::(read|read_volatile|read_unaligned|copy|copy_nonoverlapping|replace|swap|write)$|mem::(transmute|transmute_copy|zeroed)$"
                 r"|from_raw|from_raw_parts|get_unchecked_mut|as_mut_unchecked|UnsafeCell|unreachable_unchecked|assume_init)")


def check(W, R):
    D = W.D
    G = Graph(D)
    for pos in ("core::ptr::read", "core::intrinsics::mem::transmute", "core::slice::raw::from_raw_parts_mut"):
        if not PTR.search(pos):
            R.bad("self-test", pos, "the pointer rule does not match its positive example")
    for u in D.unsafes:
        R.bad("unsafe", G.owner(u["fn"]), "unsafe %s at %s: the compiler does not check that the references it creates do not alias" % (u["k"], u["sp"]))
    n = 0
    for fn, ext in G.ext.items():
        for callee, sp in ext.items():
            n += 1
            if PTR.search(callee):
                R.bad("unsafe", G.owner(fn), "calls %s at %s" % (callee, sp))
    for fn in D.fns:
        if G.owner(fn) == fn:
            if "unsafe:" + fn not in R.viol:
                R.ok("safe", fn)
    R.floor("functions examined", len(D.fns), 500)
    R.floor("external callees examined", n, 600)
    for im in D.impls:
        if im.get("unsafe") and not im["derived"] and not im["trait"].endswith("TrivialClone"):
            R.bad("unsafe", "impl " + im["trait"], "unsafe impl")
