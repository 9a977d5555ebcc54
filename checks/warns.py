"""'generate' warns exactly when others may access the file that receives the secret key, and shows the public key.

What is printed to sys.stderr is a sequence of (condition, text) over the mode of the output as a term. The mode
is replaced by every value that matters (all 512 permission combinations of a regular file, and devices, pipes
and directories); the texts that are printed under it are compared with those of a file that only its owner can access.
"""
from core import H, t

OTHERS = [0o020620, 0o020666, 0o010644, 0o040755, 0o060660]
CLOSED = 0o100600
ENCODE = "age.primitives.bech32.bech32_encode"


def nodes(x, seen):
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        todo += [a for a in y.args if isinstance(a, t.T)]
    return seen


class Warns:
    def __init__(self, module, scenario, out, **kw):
        self.module, self.scenario, self.out, self.kw = module, scenario, out, kw
        self.name = self.label = "warns_" + scenario
        self.rule = "a warning is printed exactly for regular files that group or others may access"

    def run(self, cx):
        kw = {{"types": "opaque_types", "raises": "opaque_raises"}.get(k, k): v for k, v in self.kw.items()}
        s = H.analyse(cx.src(), self.module, "scn_" + self.scenario, **kw)
        if not s.functions:
            raise H.Vanished("nothing of the package is reached by scenario %s.%s" % (self.module, self.scenario))
        cx.functions |= s.functions
        oid = self.module + "." + self.name
        said = [(e.pc, e.args[1], e.loc()) for e in s.events if e.name in ("<print>", "<write>") and e.args[0].op in ("obj", "std") and e.args[0].args[0] == "sys.stderr" and e.pc is not t.FALSE]
        if s.imprecise or any(t.has_unknown(p) or t.has_unknown(x) for p, x, _l in said):
            cx.add(oid, self.rule, "undecided", "; ".join(s.imprecise[:3]) or "messages not resolved")
            return
        seen = set()
        for p, x, _l in said:
            nodes(p, seen)
            nodes(x, seen)
        # the output has a file descriptor
        for a in [y for y in seen if y.op == "raises"]:
            said = [(t.assume(p, a, False), t.assume(x, a, False), l) for p, x, l in said]
        modes = [y for y in seen if y.op == "index" and t.is_const(y.args[1]) and t.cv(y.args[1]) == 0 and y.args[0].op == "call" and y.args[0].args[0] == "os.stat"]
        ttys = [y for y in seen if y.op in ("mcall", "call") and y.args[0] == "isatty"]

        def under(m, tty):
            r = []
            for p, x, _l in said:
                d = {y: t.const(m) for y in modes}
                for y in ttys:
                    p, x = t.assume(p, y, tty), t.assume(x, y, tty)
                p = t.subst(p, d)
                if p is not t.FALSE:
                    r.append((p, t.subst(x, d)))
            return r

        other = [y for y in modes if not {"OUT" in t.show(z, 4) if self.out == "OUT" else z.args[0] == self.out for z in nodes(y, set()) if z.op in ("obj", "std")} & {True}
                 and any(z.op == "std" for z in nodes(y, set()))]
        if other:
            cx.add(oid, self.rule, "violated", "the permissions of something else are looked at: " + t.show(other[0], 6)[:200], key=self.name)
            return
        bad = []
        for tty in (True, False):
            base = under(CLOSED, tty)
            for m in [0o100000 | p for p in range(512)] + [0o102755, 0o104711, 0o101777] + OTHERS:
                got = under(m, tty)
                if any(p is not t.TRUE for p, _x in got + base):
                    cx.add(oid, self.rule, "undecided", "whether something is printed depends on " + t.show(got[0][0] if got else base[0][0], 6)[:300])
                    return
                want = m & 0o170000 == 0o100000 and bool(m & 0o077)
                if (got != base) != want:
                    bad.append((m, want))
        if bad:
            m, want = bad[0]
            cx.add(oid, self.rule, "violated", "mode %o: %s (and %d other modes); messages at %s" % (
                m, "no warning is printed" if want else "a message is printed that an owner-only file does not cause", len(bad) - 1,
                ", ".join(sorted({"%s" % l for _p, _x, l in said})) or "none"), key=self.name)
        else:
            cx.add(oid, self.rule, "discharged", "%d modes" % (512 + 3 + len(OTHERS)))
        rule = "the public key is shown on standard error unless everything goes to the terminal"
        shown = [any(y.op == "call" and y.args[0] == ENCODE and y.args[1] is t.const("age") for _p, x in under(CLOSED, tty) for y in nodes(x, set()))
                 for tty in ((True, False) if self.out == "OUT" else (False,))]
        if all(shown):
            cx.add(oid + "_public", rule, "discharged", "%d cases" % len(shown))
        else:
            cx.add(oid + "_public", rule, "violated", "the public key of the new key is not printed to standard error", key=self.name + "_public")
