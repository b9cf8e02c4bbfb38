"""C14: opening never panics."""
from engine.panics import examine

EXPLANATION = ("Every place of the crate that can panic - assertions that the compiler inserts for arithmetic, indexing and division, and calls of "
               "foreign functions that never return, that document panics or that are known to panic (rust-crypto) - and that Database::open or "
               "KeyFile::open reaches, is judged in every calling context: the facts and bounds that hold there for every input must exclude the panic "
               "(value present, index within the length, same lengths, no overflow, key and block sizes and padding as rust-crypto requires).")


def check(W, R):
    wanted = [W.method("Database", "open"), W.method("KeyFile", "open")]
    n = examine(W, R, wanted, "open")
    R.floor("panic sites reached", n, 10)
