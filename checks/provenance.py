"""What was read from one place never names another place to read from.

The names of the files that are opened and of the addresses that are fetched are terms over the inputs;
none of them may depend on the content of an opened file or a fetched document.
"""
from core import H, t
from taint import CONTENT

READS = ("open", "requests.get", "urllib.request.urlopen", "io.open", "os.open")


def content(x, memo):
    """the content of a file or document that x depends on"""
    if x in memo:
        return memo[x]
    memo[x] = None
    r = None
    if x.op in ("call", "attr", "text") and (x.op == "text" or x.args and isinstance(x.args[0], str) and x.args[0] in CONTENT):
        r = x
    else:
        for a in x.args:
            if isinstance(a, t.T):
                r = r or content(a, memo)
    memo[x] = r
    return r


class Places:
    def __init__(self, module, scenario, depth=3, **kw):
        self.module, self.scenario, self.depth, self.kw = module, scenario, depth, kw
        self.name = self.label = "places_" + scenario
        self.rule = "no file name or address that is read from depends on the content of something read"

    def run(self, cx):
        kw = {{"types": "opaque_types", "raises": "opaque_raises"}.get(k, k): v for k, v in self.kw.items()}
        s = H.analyse(cx.src(), self.module, "scn_" + self.scenario, depth=self.depth, **kw)
        if not s.functions:
            raise H.Vanished("nothing of the package is reached by scenario %s.%s" % (self.module, self.scenario))
        cx.functions |= s.functions
        bad, n, memo = [], 0, {}
        for e in s.events:
            if e.name not in READS or e.pc is t.FALSE:
                continue
            n += 1
            for a in e.args[:1]:
                c = content(a, memo)
                if c is not None:
                    bad.append("%s of %s at %s" % (e.name, t.show(a, 6)[:200], e.loc()))
        oid = self.module + "." + self.name
        if bad:
            cx.add(oid, self.rule, "violated", "; ".join(bad[:4]), key=self.name)
        elif n == 0:
            cx.add(oid, self.rule, "undecided", "no place is read from")
        else:
            cx.add(oid, self.rule, "discharged", "%d places that are read from" % n)
