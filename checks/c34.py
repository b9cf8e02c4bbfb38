"""C34: how a document is laid out makes no difference to what is opened."""
from engine.roundtrip import roundtrip, compared, subject, exempt, why
from engine.terms import *
from checks.c18 import saved, typename

EXPLANATION = (
    "Composition as for C01 to C07, on other documents with the same content. Database::save is evaluated to a term for the document; the "
    "tokens of the document are laid out anew; Database::open is evaluated on the result and must return what it returns for the document as "
    "saved. Layouts: without the white space between the elements; with every text in a CDATA section; with an unknown element (holding text and "
    "an element of its own) and a processing instruction before and after every element; with the children of every element in reverse order. "
    "A difference is reported unless the same difference is there for the document as saved, where it belongs to C01 to C07. The same "
    "for key files in XML.")

LAYOUTS = (("compact", "without white space between elements", 50, 2), ("cdata", "with texts in CDATA sections", 40, 1),
           ("others", "with unknown elements and processing instructions", 200, 3), ("reversed", "with elements in another order", 50, 2))


class Sub:
    """results of the checks on key files, under the name of the layout"""

    def __init__(self, R, what):
        self.R, self.what = R, what

    def bad(self, rule, subj, text=""):
        self.R.bad("key file", "%s: %s %s" % (self.what, rule, subj), text)

    def ok(self, rule, subj):
        self.R.ok("key file", "%s: %s %s" % (self.what, rule, subj))

    def check(self, c, rule, subj, text=""):
        if c:
            self.ok(rule, subj)
        else:
            self.bad(rule, subj, text() if callable(text) else text)

    def floor(self, what, n, least):
        self.R.floor("%s, key files %s" % (what, self.what), n, least)

    def count(self, *a):
        pass


def key(d):
    return d.path, d.why, d.cond


def check(W, R):
    names = [v["n"] for v in W.D.adts[W.adt("KeyFileType")]["v"]]
    base = roundtrip(W)
    if base.mismatch:
        R.bad("layout", "Database::open", "open cannot be followed on a saved file: " + base.mismatch)
        return
    known = {key(d) for d in base.diffs}
    fields = {p for p, t in base.checked}
    for how, what, least, kleast in LAYOUTS:
        X = compared(W, layout=how)
        if X.mismatch:
            R.bad("layout", what, "open cannot be followed on a document %s: %s" % (what, X.mismatch))
            continue
        for f, e in X.errs:
            if not base.errs:
                R.bad("layout", what + " fails", "open of a document %s can fail: %s; when %s" % (what, show(e, 4)[:200], why(X, f)))
        bad = set()
        for d in X.diffs:
            if key(d) not in known and not exempt(d.path):
                bad.add(d.path)
                R.bad("layout", "%s: %s" % (what, subject(d)), "%s is saved as %s but, %s, opened as %s: %s" % (
                    d.name(), show(d.want, 5)[:200], what, show(d.got, 5)[:300], d.why[:300]))
        seen = {p for p, t in X.checked}
        for p in sorted(seen - bad):
            R.ok("layout", "%s: %s" % (what, ".".join(p)))
        R.floor("fields compared, " + what, len(seen), 100)
        R.floor("changes to the document, " + what, X.R.m.changed, least)
        n = saved(W, Sub(R, what), names, typename(W, names), layout=how, only={"Xml"})
        R.floor("changes to the key file, " + what, n, kleast)
