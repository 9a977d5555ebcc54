"""Secrets must not flow into diagnostics.

The values that reach the error stream, log calls and raised exceptions are terms over the inputs of a
scenario.  A value depends on a secret if a secret input (or the result of an operation that yields one)
occurs in it outside of the one-way operations of PUBLIC, whose result may be shown.  Only the data is
followed; which branch was taken may depend on secrets (an error says that something was wrong).
"""
import core
from core import H, t

# one-way operations, and questions about types and sizes
PUBLIC = {"public_key", "crypto_scalarmult_base", "encrypt", "len", "is_instance", "isinst", "type", "object.__repr__", "bitlen", "classof",
          "public_numbers", "key_size", "fingerprint", "public_string", "bytelen"}
# opaque operations that yield secrets
YIELDS = {"click.prompt", "getpass.getpass", "builtins.input", "age.recipients.helpers.decrypt_file_key"}
LOGS = ("logging.", "traceback.", "syslog.", "click.echo", "click.secho", "pprint.", "warnings.")
CONTENT = {"open.text", "open.bytes", "text", "bytes"}  # the content of an opened file
SIZES = {"len", "bytelen", "bitlen"}
STREAMS = ("sys.stderr", "sys.stderr.buffer", "sys.stdout", "sys.stdout.buffer")


def secret(x, names, fresh=True, memo=None, public=PUBLIC, files=False):
    """a secret that x depends on, or None"""
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    memo[x] = None
    r = None
    if x.op == "param":
        r = x.args[0] if x.args[0] in names else None
    elif x.op == "fresh":
        r = "a random draw" if fresh else None
    elif x.op == "ite":
        for a in x.args[1:]:
            r = r or secret(a, names, fresh, memo, public, files)
    elif x.op in public or x.op in ("func", "class", "ext", "exists", "ge", "ieq", "eq", "in", "truth", "raises"):
        pass
    else:
        head = x.args[0] if x.args and isinstance(x.args[0], str) else ""
        if x.op in ("call", "mcall", "attr") and head.rsplit(".", 1)[-1] in public:
            pass
        elif x.op == "attr" and isinstance(x.args[-1], str) and x.args[-1] in public:
            pass
        elif x.op == "attr" and isinstance(x.args[-1], t.T) and t.is_const(x.args[-1]) and t.cv(x.args[-1]) in public:
            pass
        elif files and x.op == "call" and head in CONTENT:
            r = "the content of a key file"
        elif x.op == "call" and head in YIELDS:
            r = "the result of " + head
        else:
            for a in x.args:
                if isinstance(a, t.T):
                    r = r or secret(a, names, fresh, memo, public, files)
    memo[x] = r
    return r


def sinks(s):
    """(what, value, where) of everything that is shown to somebody"""
    for e in s.events:
        if e.pc is t.FALSE:
            continue
        where = "%s:%s in %s" % e.where
        if e.name in ("<print>", "<write>"):
            if e.args[0].op == "obj" and e.args[0].args[0] in STREAMS:
                yield "written to " + e.args[0].args[0], e.args[1], where
        elif e.name == "<raise>":
            yield "raised", e.args[1], where
        elif e.name == "<exit>":
            yield "exit", e.args[0], where
        elif e.name.startswith(LOGS):
            yield "passed to " + e.name, t.tup(list(e.args)), where


class Diagnostics:
    """no value shown in diagnostics of `scn_<name>` depends on the named secrets"""

    def __init__(self, module, name, secrets=(), fresh=True, ret=False, stdout=True, sizes=True, files=False, **kw):
        self.files, self.public = files, PUBLIC if sizes else PUBLIC - SIZES
        self.module, self.name, self.secrets, self.fresh, self.ret, self.stdout = module, name, set(secrets), fresh, ret, stdout
        self.kw = dict(opaque=tuple(kw.get("opaque", ())), opaque_raises=kw.get("raises"), opaque_types=kw.get("types"), stubs=kw.get("stubs"))
        self.rule = "values shown (error stream, logs, exceptions%s) do not depend on %s" % (
            ", printed form" if ret else "", ", ".join(sorted(secrets)) or "passwords, file keys and random draws")

    def run(self, cx):
        oid = "%s.%s" % (self.module, self.name)
        s = cx.analyse(self.module, "scn_" + self.name, **self.kw)
        if len(s.functions) == 0 and not self.ret:
            raise H.Vanished("nothing of the package is reached by scenario " + oid)
        n = 0
        vague = list(s.imprecise)
        for what, v, where in sinks(s):
            if not self.stdout and "stdout" in what:
                continue
            n += 1
            r = secret(v, self.secrets, self.fresh, None, self.public, self.files)
            if r:
                return cx.add(oid, self.rule, "violated", "%s at %s: %s depends on %s" % (what, where, t.show(v, 6)[:400], r))
            if t.has_unknown(v):
                vague.append("value %s at %s not resolved" % (what, where))
        if self.ret:
            n += 1
            r = secret(s.ret, self.secrets, self.fresh, None, self.public, self.files)
            if r:
                return cx.add(oid, self.rule, "violated", "printed form %s depends on %s || analysed: %s" % (t.show(s.ret, 8)[:500], r, ", ".join(sorted(s.functions))[:300]))
            if t.has_unknown(s.ret):
                vague.append("printed form not resolved")
        for e in s.events:
            if e.name == "click.prompt" and e.pc is not t.FALSE and t.constrain(e.args[0], e.pc) is not t.TRUE:
                return cx.add(oid, self.rule, "violated", "the password prompt at %s:%s in %s echoes the input" % e.where)
            if e.name == "builtins.input" and e.pc is not t.FALSE:
                return cx.add(oid, self.rule, "violated", "the prompt at %s:%s in %s echoes the input" % e.where)
        if vague:
            cx.add(oid, self.rule, "undecided", "; ".join(vague[:4])[:600])
        else:
            cx.add(oid, self.rule, "discharged", "%d values shown" % n)
