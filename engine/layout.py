"""Other documents with the same content: the tokens of a saved document laid out in another way."""
from .terms import *

OTHER, INNER = "X-Other", "X-Inner"


def parse(toks):
    """tokens -> tree: ("el", start, nodes, end), ("star", tok, nodes, end), ("alt", tok, [(key, nodes)], end), ("rec", rec, body), token"""
    pos = [0]

    def seq(stop):
        out = []
        while pos[0] < len(toks):
            t = toks[pos[0]]
            if t.kind in stop:
                return out
            pos[0] += 1
            if t.kind == "START":
                out.append(("el", t, seq({"END"}), take()))
            elif t.kind == "STAR":
                out.append(("star", t, seq({"STAREND"}), take()))
            elif t.kind == "ALT":
                alts = []
                for k in t.coll:
                    n = seq({"JUMP"})
                    alts.append((k, n, take()))
                out.append(("alt", t, alts, take()))
            elif t.kind == "REC":
                out.append(("rec", t, take()))
            else:
                out.append(t)
        return out

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]
    return seq(set())


def flatten(nodes):
    """tree -> tokens, numbered anew"""
    out = []

    def put(t):
        t.i = len(out)
        out.append(t)

    def go(nodes):
        for n in nodes:
            if not isinstance(n, tuple):
                put(n)
            elif n[0] == "rec":
                put(n[1])
                put(n[2])
            elif n[0] == "alt":
                put(n[1])
                coll = {}
                for k, x, jump in n[2]:
                    coll[k] = len(out)
                    go(x)
                    put(jump)
                put(n[3])
                n[1].coll = coll
                n[1].end = n[3].i
                for _, _, jump in n[2]:
                    jump.end = n[3].i
            else:
                put(n[1])
                go(n[2])
                put(n[3])
                if n[0] == "star":
                    n[1].end, n[3].end = n[3].i, n[1].i
    go(nodes)
    return out


def elements(nodes):
    """there are elements among the nodes"""
    return any(isinstance(n, tuple) and (n[0] in ("el", "rec") or n[0] == "star" and elements(n[2]) or
                                         n[0] == "alt" and any(elements(x) for _, x, _ in n[2])) for n in nodes)


def variant(doc, Tok, how):
    """the document laid out in another way"""
    count = [0]

    def tok(kind, path, a):
        count[0] += 1
        return Tok(kind, path=path, a=a)

    def other(path):
        """elements that are not part of the format, one inside the other, and a processing instruction"""
        no = agg("array", 0, ())
        text = lambda: tok("TEXT", path, (mk("sym", "other"),))
        return [tok("PI", path, ()),
                ("el", tok("START", path, (cstr(OTHER), no)),
                 [text(), ("el", tok("START", path, (cstr(INNER), no)), [text()], tok("END", path, (cstr(INNER),)))],
                 tok("END", path, (cstr(OTHER),)))]

    def go(nodes, path, inside):
        out = []
        if how == "reversed" and path and elements(nodes):
            nodes = nodes[::-1]
            count[0] += 1
        if how == "others" and inside and elements(nodes):
            out += other(path)
        for n in nodes:
            if not isinstance(n, tuple):
                if n.kind == "WS" and how in ("compact", "reversed"):
                    count[0] += 1
                    continue
                if n.kind == "TEXT" and how == "cdata":
                    count[0] += 1
                    n.cdata = True
                out.append(n)
                continue
            if n[0] == "alt":
                n = ("alt", n[1], [(k, go(x, path, False), j) for k, x, j in n[2]], n[3])
                if not any(x for _, x, _ in n[2]):
                    continue
            elif n[0] == "el":
                n = ("el", n[1], go(n[2], n[1].path, True), n[3])
            elif n[0] == "star":
                n = ("star", n[1], go(n[2], path, inside and elements(n[2])), n[3])
            out.append(n)
            if how == "others" and inside and elements([n]):
                out += other(path)
        return out
    doc.toks = flatten(go(parse(doc.toks), "", False))
    doc.mark()
    return count[0]
