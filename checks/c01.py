"""C01: database-level settings survive save and open."""
from engine.roundtrip import report, HEADER, scalar, roundtrip, blank

EXPLANATION = (
    "Composition of writer and reader by abstract interpretation of MIR: Database::save is evaluated to a term for the document it "
    "writes, then Database::open is evaluated on exactly that document, with every value symbolic, all sizes arbitrary and every "
    "case distinction kept; the database that results is compared field by field with the one that was saved. Obligations: all fields of Database outside the group tree and the header. "
    "A field whose value is not the saved one, on any alternative, is reported with that alternative; so is an error that open can "
    "return for a saved file.")


def check(W, R):
    X = report(W, R, "C01", lambda p, t: p[1] not in HEADER and p[1] not in ("root_group", "composite_key"), 34)
