"""Nothing but the result is written to standard output.

What an operation writes to sys.stdout (and, unless the result goes there, to sys.stdout.buffer) is a term
over the inputs; it has to be the empty one, on success as on failure.
"""
from core import H, t


class Silent:
    def __init__(self, module, scenario, streams=("sys.stdout", "sys.stdout.buffer"), label=None, **kw):
        self.module, self.scenario, self.streams, self.kw = module, scenario, streams, kw
        self.name = self.label = label or "silent_" + scenario
        self.rule = "nothing is written to " + " and ".join(streams)

    def run(self, cx):
        kw = {{"types": "opaque_types", "raises": "opaque_raises"}.get(k, k): v for k, v in self.kw.items() if k not in ("alt", "aspects")}
        s = H.analyse(cx.src(), self.module, "scn_" + self.scenario, **kw)
        if not s.functions:
            raise H.Vanished("nothing of the package is reached by scenario %s.%s" % (self.module, self.scenario))
        cx.functions |= s.functions
        oid, bad, unsure = self.module + "." + self.name, [], []
        for n in self.streams:
            for when, v, pc in (("completes", s.outs.get(n), s.ok), ("fails", s.errouts.get(n), s.err)):
                if v is None or pc is t.FALSE or t.is_const(v) and not t.cv(v):
                    continue
                wrote = t.and_(pc, t.truth(v))
                if wrote is t.FALSE:
                    continue
                where = ["%s" % e.loc() for e in s.events if e.name in ("<print>", "click.prompt", "<write>") and e.pc is not t.FALSE
                         and (e.name == "click.prompt" or e.args[0].op in ("obj", "std") and e.args[0].args[0] == n)]
                (unsure if t.has_unknown(v) else bad).append("%s written to %s when it %s (%s)" % (t.show(v, 6)[:200], n, when, "; ".join(where[:3])))
        if bad and not s.imprecise:
            cx.add(oid, self.rule, "violated", "; ".join(bad[:3]), key=self.name)
        elif bad or unsure:
            cx.add(oid, self.rule, "undecided", "; ".join(s.imprecise[:3] + bad[:2] + unsure[:2]))
        else:
            cx.add(oid, self.rule, "discharged", "nothing written to " + ", ".join(self.streams))
