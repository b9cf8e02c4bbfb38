"""What a check sees: the dump, analyses of entry points, and a report."""
import json, os, time
from .dump import Dump, norm
from .interp import Interp, AnalysisError, Facts, NOFACTS
from .models import Models
from .terms import *


class Entry:
    """analysis of one entry point"""
    def __init__(self, W, fn, **k):
        self.W, self.fn = W, fn
        self.M = Models()
        self.I = Interp(W.D, self.M)
        self.run = self.I.analyse(fn, **k)
        self._ev = None

    def runs(self):
        return self.run.walk()

    def events(self, kind=None, name=None):
        if self._ev is None:
            self._ev = []
            for r in self.run.walk():
                for bb in sorted(r.events, key=str):
                    for k, e in r.events[bb].items():
                        self._ev.append((r, e))
        return [(r, e) for r, e in self._ev if (kind is None or e.kind == kind) and (name is None or e.name == name)]

    def chain(self, ctx):
        return [f for f, _, _ in self.I.chain(ctx)]

    def where(self, r, e):
        return "%s (in %s)" % (e.span or "?", r.fn)


class World:
    def __init__(self, d):
        self.D = Dump(d)
        self._e = {}

    def entry(self, fn, **k):
        key = (fn, repr(sorted(k)))
        if key not in self._e:
            if fn not in self.D.fns:
                raise Missing(fn)
            self._e[key] = Entry(self, fn, **k)
        return self._e[key]

    def method(self, ty, name):
        """public inherent function `name` of the local type called `ty`"""
        c = [p for p, f in self.D.fns.items() if p.split("::")[-2:] == [ty, name] and f["kind"] != "closure" and not f.get("impl_trait")]
        if len(c) != 1:
            raise Missing("%s::%s" % (ty, name))
        return c[0]

    def adt(self, ty):
        c = [p for p, a in self.D.adts.items() if a["local"] and p.split("::")[-1] == ty]
        if len(c) != 1:
            raise Missing(ty)
        return c[0]


class Missing(Exception):
    """an anchor of the public API is gone"""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obls = []       # (rule, subject, ok)
        self.viol = {}       # key -> message
        self.notes = {}
        self.samples = []
        self.counts = {}

    def ok(self, rule, subject):
        self.obls.append((rule, subject, True))
        return True

    def bad(self, rule, subject, msg):
        self.obls.append((rule, subject, False))
        self.viol.setdefault("%s:%s" % (rule, subject), msg)
        return False

    def check(self, cond, rule, subject, msg=""):
        return self.ok(rule, subject) if cond else self.bad(rule, subject, msg() if callable(msg) else msg)

    def floor(self, name, n, least):
        """number of instances found; fewer than confirmed by hand means an anchor was lost"""
        self.counts[name] = n
        if n < least:
            self.bad("floor", name, "only %d instances of '%s' were found, at least %d are known to exist" % (n, name, least))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
