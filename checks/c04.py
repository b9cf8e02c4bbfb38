"""C04: scalar encodings decode to what was encoded."""
from engine.roundtrip import report, HEADER, scalar, roundtrip, blank

EXPLANATION = (
    "Composition of writer and reader by abstract interpretation of MIR: Database::save is evaluated to a term for the document it "
    "writes, then Database::open is evaluated on exactly that document, with every value symbolic, all sizes arbitrary and every "
    "case distinction kept; the database that results is compared field by field with the one that was saved. Obligations: all fields whose type is a number, boolean, date, UUID, colour, icon, obfuscation, string key or byte string, each compared for every alternative of its encoding. "
    "A field whose value is not the saved one, on any alternative, is reported with that alternative; so is an error that open can "
    "return for a saved file.")


def check(W, R):
    X = report(W, R, "C04", lambda p, t: p[1] not in HEADER and p[1] != "composite_key" and scalar((t,)), 60)
