"""C15: no other public function panics."""
from engine.graph import Graph
from engine.panics import examine, sites

EXPLANATION = ("Every place of the crate that can panic - assertions that the compiler inserts for arithmetic, indexing and division, and calls of "
               "foreign functions that never return, that document panics or that are known to panic - and that a public function other than "
               "Database::open and KeyFile::open reaches, is judged in the calling contexts in which it is reached: the facts that hold there must exclude "
               "the panic (value present, index within the length, same lengths, no overflow, key and block sizes required by rust-crypto).")


def check(W, R):
    G = Graph(W.D)
    opens = {W.method("Database", "open"), W.method("KeyFile", "open")}
    sited = {s[0] for s in sites(W.D)}
    wanted = {p for p in G.public() if p not in opens and G.reach([p]) & sited}
    R.counts["public functions"] = len(G.public())
    n = examine(W, R, wanted, "other")
    R.floor("public functions that reach a panic site", len(wanted), 8)
    R.floor("panic sites reached", n, 10)
