"""C05: empty and whitespace-only texts are kept."""
from engine.roundtrip import report, HEADER, scalar, roundtrip, blank

EXPLANATION = (
    "Composition of writer and reader by abstract interpretation of MIR: Database::save is evaluated to a term for the document it "
    "writes, then Database::open is evaluated on exactly that document, with every value symbolic, all sizes arbitrary and every "
    "case distinction kept; the database that results is compared field by field with the one that was saved. Obligations: every field stored as text, with the alternatives in which the text is empty or consists only of whitespace (for which the XML parser delivers no event or a whitespace event). "
    "A field whose value is not the saved one, on any alternative, is reported with that alternative; so is an error that open can "
    "return for a saved file.")


def check(W, R):
    X = report(W, R, "C05", lambda p, t: p[1] not in HEADER and p[1] != "composite_key", 110)
    if not X.mismatch:
        I = X.R.I
        seen = set()
        for r in X.R.rrun.walk():
            for bb in r.events:
                for k, e in r.events[bb].items():
                    for t in (e.facts or ()) if hasattr(e, "facts") else ():
                        if t.op == "disc" and t.a[0] in ("%Text", "%TextB"):
                            seen.add(t)
        R.floor("texts with empty and whitespace alternatives", len(seen), 5)
