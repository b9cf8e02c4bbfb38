"""C02: groups and the group tree survive save and open."""
from engine.roundtrip import report, HEADER, scalar, roundtrip, blank

EXPLANATION = (
    "Composition of writer and reader by abstract interpretation of MIR: Database::save is evaluated to a term for the document it "
    "writes, then Database::open is evaluated on exactly that document, with every value symbolic, all sizes arbitrary and every "
    "case distinction kept; the database that results is compared field by field with the one that was saved. Obligations: all fields of a group, for the root group and for the generic group that stands for every nested group (the recursion over the tree is closed by induction: reader and writer treat subgroups by the same functions). "
    "A field whose value is not the saved one, on any alternative, is reported with that alternative; so is an error that open can "
    "return for a saved file.")


def check(W, R):
    X = report(W, R, "C02", lambda p, t: p[1] == "root_group" and "entries" not in p, 18)
