"""C03: entries, values and history survive save and open."""
from engine.roundtrip import report, HEADER, scalar, roundtrip, blank

EXPLANATION = (
    "Composition of writer and reader by abstract interpretation of MIR: Database::save is evaluated to a term for the document it "
    "writes, then Database::open is evaluated on exactly that document, with every value symbolic, all sizes arbitrary and every "
    "case distinction kept; the database that results is compared field by field with the one that was saved. Obligations: all fields of an entry, and of an entry in the history of an entry, including keys, values and items of its collections. "
    "A field whose value is not the saved one, on any alternative, is reported with that alternative; so is an error that open can "
    "return for a saved file.")


def check(W, R):
    X = report(W, R, "C03", lambda p, t: p[1] == "root_group" and "entries" in p, 60)
