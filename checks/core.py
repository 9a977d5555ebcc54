"""Building blocks of the checks."""
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vfa import compare as C  # noqa: E402
from vfa import harness as H  # noqa: E402
from vfa import loader  # noqa: E402
from vfa import terms as t  # noqa: E402

ROOT = os.environ.get("VERIF_REPO_SRC", "/repo/src")

ASSUMPTIONS = [
    "the Python standard library, cryptography, PyNaCl, bcrypt, requests and click behave as documented (summarised in vfa/lib.py)",
    "callers pass values of the annotated types; no monkey-patching of the package at run time",
    "the analysis itself (vfa/) is trusted; where it is not exact it says undecided instead of discharged",
]


class Broken(Exception):
    """the check itself is broken"""


class Context:
    """one run of a check: the package, what was analysed, what was found"""

    def __init__(self, root=ROOT):
        self.root = root
        self.violations = []  # (key, text, details)
        self.undecided = []
        self.obligations = []  # (id, rule, status, what)
        self.functions = set()
        self.notes = []
        self.assumptions = []
        self._cache = {}

    def src(self):
        return loader.Source(self.root)

    def analyse(self, spec, fn, ref=False, **kw):
        k = (spec, fn, t.BOUND, repr(sorted(kw.items())))
        if k not in self._cache:
            r = H.analyse(self.src(), spec, fn, **kw)
            self._cache[k] = r
            if not ref:
                self.functions |= r.functions
        return self._cache[k]

    def add(self, oid, rule, status, what="", key=None):
        self.obligations.append((oid, rule, status, what))
        if status == "violated":
            self.violations.append((key or oid, what, rule))
        elif status == "undecided":
            self.undecided.append((oid, what))


class Scenario:
    """`scn_<name>` in spec/<module>.py must agree with one of `ref_<name>`, `ref_<name>_2`, …"""

    def __init__(self, module, name, aspects=("ok", "ret"), opaque=(), raises=None, types=None, rule="", key=None, stubs=None, label=None, alt=(), bags=()):
        self.alt, self.bags = tuple(alt), tuple(bags)
        self.stubs, self.label = stubs, label or name
        self.module, self.name, self.aspects = module, name, list(aspects)
        self.opaque, self.raises, self.types, self.rule = tuple(opaque), raises, types, rule
        self.key = key or name

    def refs(self):
        src = open(os.path.join(HERE, "spec", self.module + ".py")).read()
        return [n for n in re.findall(r"^def (ref_\w+)", src, re.M) if re.fullmatch("ref_" + self.name + r"(_\d+)?", n)]

    def alternatives(self):
        """the settings to try: the boundaries as given, then with those of `alt` added or removed"""
        kw = dict(opaque=self.opaque, opaque_raises=self.raises, opaque_types=self.types, stubs=self.stubs, bags=self.bags)
        yield kw
        for a in self.alt:
            yield dict(opaque=tuple(q for q in self.opaque if q not in a.get("without", ())) + tuple(a.get("opaque", ())),
                       opaque_raises={**(self.raises or {}), **a.get("raises", {})},
                       opaque_types={**(self.types or {}), **a.get("types", {})}, stubs=self.stubs, bags=self.bags)

    def run(self, cx):
        """a difference is reported only if every choice of boundaries shows it"""
        first = None
        oid = self.module + "." + self.label
        for kw in self.alternatives():
            try:
                s, v = self.decide(cx, kw)
            except H.Vanished:
                raise
            except Exception:
                if first is None:
                    raise
                continue  # an alternative that cannot be followed says nothing
            if v[0] == "equal":
                cx.add(oid, self.rule, "discharged", ", ".join(self.aspects))
                return v[0]
            if first is None or (v[0] == "undecided" and first[1][0] == "differs"):
                first = (s, v)
        s, (verdict, diffs, notes) = first
        what = "; ".join(d.text() for d in diffs)[:2500]
        if verdict == "undecided":
            cx.add(oid, self.rule, "undecided", "; ".join(notes)[:600] + " || " + what[:900])
        else:
            where = sorted(s.functions)
            cx.add(oid, self.rule, "violated", what + " || analysed: " + ", ".join(where)[:600], key=self.key)
        return verdict

    def decide(self, cx, kw):
        s = cx.analyse(self.module, "scn_" + self.name, **kw)
        refs = [cx.analyse(self.module, f, ref=True, **kw) for f in self.refs()]
        for r in refs:
            if r.imprecise:
                raise RuntimeError("reference %s is not analysed exactly: %s" % (self.name, r.imprecise))
            if r.ok is t.FALSE and ({"ret"} & set(self.aspects) or any(a.startswith("out:") for a in self.aspects)):
                raise RuntimeError("reference %s never completes" % self.name)
            for a in self.aspects:
                v = {"out": r.outs, "closed": r.closed, "rest": r.rests}.get(a.split(":")[0], {}).get(a.split(":")[-1])
                if v is not None and a.startswith("out:") and t.is_const(v):
                    raise RuntimeError("reference %s: nothing is written to %s" % (self.name, a))
        if len(s.functions) == 0:
            raise H.Vanished("nothing of the package is reached by scenario %s.%s" % (self.module, self.label))
        v = C.compare(s, refs, self.aspects)
        if v[0] == "undecided" and s.stateful and not v[1]:
            # state outlives the call: a run on inputs of their own must not change what the next one does
            s2 = cx.analyse(self.module, "scn_" + self.name, twice=True, **kw)
            refs2 = [cx.analyse(self.module, f, ref=True, twice=True, **kw) for f in self.refs()]
            aspects = [a for a in self.aspects if not a.startswith("event:")]
            v2 = C.compare(C.settled(s2), refs2, aspects)
            if v2[0] != "equal":
                return s2, (v2[0], v2[1], ["in the second of two runs"] + v2[2])
            return s, (v[0], v[1], v[2] + ["a second run agrees too"])
        if v[0] == "undecided" and v[1] and not s.stateful and not any(a.startswith("event:") for a in self.aspects):
            return self.bounded(cx, kw) or (s, v)
        return s, v

    def bounded(self, cx, kw):
        """the same comparison for inputs whose lists (and files whose lines) are 1, 2, 3 in number"""
        end = time.time() + 60
        for k in (1, 2, 3):
            t.bound(k)
            t.DEADLINE = end
            try:
                s = cx.analyse(self.module, "scn_" + self.name, **kw)
                if s.imprecise:
                    continue
                refs = [cx.analyse(self.module, f, ref=True, **kw) for f in self.refs()]
                if any(r.imprecise for r in refs):
                    continue
                v = C.compare(s, refs, self.aspects)
                if v[0] == "differs" and all(d.got is None or d.want is None or C.relations(d.got) <= C.relations(d.want) for d in v[1]):
                    return s, (v[0], v[1], v[2] + ["for inputs with %d items" % k])
            except t.Slow:
                return None
            except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, NotImplementedError):
                continue
            finally:
                t.DEADLINE = None
                t.bound(None)
        return None


class Rule:
    """a hand-written rule: fn(cx) calls cx.add"""

    def __init__(self, fn, rule=""):
        self.fn, self.rule = fn, rule
        self.name = fn.__name__

    def run(self, cx):
        self.fn(cx)
