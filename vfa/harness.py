"""Running analysis scenarios.

A scenario is a Python function in /verif/spec that uses the package through its public names.  It is
analysed, never executed: its parameters are abstract inputs (typed by their annotations), and what the
analysis of the whole program yields for it is summarised as values, written bytes, failures and events.
"""
import ast
import os
import sys

from . import interp as I
from . import lib
from . import loader
from . import terms as t
from .terms import FALSE, NONE, TRUE, and_, const, not_, or_, raw

sys.setrecursionlimit(50000)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")


class Vanished(Exception):
    """a public name the property is anchored to does not exist any more"""


KINDS = {"bytes": "b", "str": "s", "int": "i", "bool": "bool"}


class Summary:
    """what one scenario does, as terms over its abstract inputs"""

    def __init__(self):
        self.ret = NONE
        self.ok = FALSE  # condition under which the scenario completes
        self.err = FALSE  # condition under which an exception leaves it
        self.raises = []  # (class, condition, value, where)
        self.outs = {}  # stream name -> bytes written when it completes
        self.errouts = {}  # stream name -> bytes written when it fails
        self.closed = {}
        self.events = []
        self.imprecise = []
        self.functions = set()
        self.rests = {}


def source(root):
    return loader.Source(root)


def analyse(root_or_src, module, func, opaque=(), opaque_raises=None, opaque_types=None, src=None, stdout=True, stubs=None, twice=False, depth=None, bags=()):
    src = src or (root_or_src if isinstance(root_or_src, loader.Source) else loader.Source(root_or_src))
    mod = loader.load_file("spec." + module, os.path.join(SPEC, module + ".py"))
    if twice:
        func = run_twice(mod.tree, func)
    extra = [mod]
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom) and n.module and n.module.startswith("spec."):
            m = n.module
            if all(x.name != m for x in extra):
                extra.append(loader.load_file(m, os.path.join(SPEC, m[5:] + ".py")))
    it = I.Interp(src, extra=extra, opaque=opaque)
    it.opaque_raises = opaque_raises or {}
    it.bags = set(bags)  # (opaque function, index of the parameter): the order of that list is left open
    if depth is not None:
        it.MAXDEPTH = depth
    it.opaque_types = opaque_types or {}
    it.stubs = {q: mod.name + "." + f for q, f in (stubs or {}).items()}
    for q in it.stubs:
        if "." in q and it.lookup(q) is None and func.startswith("scn"):
            raise Vanished(q)
    lib.init(it)
    # the package registers subclasses etc. in import order; the scenario imports what it needs
    it.load(mod.name)
    for (kind, scope, name), v in list(it.base.loc.items()):
        if kind == "v" and scope == "m:" + mod.name and v.op == "ext" and v.args[0].startswith(src.package + "."):
            raise Vanished(v.args[0])
    if not any(m.startswith(src.package + ".") for m in it.loaded) and func.startswith("scn"):
        raise Vanished(src.package)
    for c in it.class_order:
        it.field_types(c)
        t.SUBCLASSES[c.qual] = {d.qual for d in it.class_order if it.issub(d, c.qual)}
    for q, y in it.opaque_types.items():
        t.RET[q] = y
    st = it.start(mod.name)
    f = it.lookup(mod.name + "." + func)
    if f is None or f.op != "func":
        raise Vanished(mod.name + "." + func)
    fn = it.funcs[f.args[0]] if f.args[0] in it.funcs else None
    node = fn.node
    args, streams = [], {}
    for a in node.args.args:
        ann = ast.unparse(a.annotation) if a.annotation is not None else ""
        args.append(abstract(it, st, a.arg, ann, streams, mod.name))
    ex, v = it.run(lambda s: it.call(f, args, {}, s, None), st)
    r = Summary()
    r.ok = st.pc
    r.ret = it.reify(v, st) if not st.dead else NONE
    if not st.dead:
        r.ret = _cons(r.ret, r.ok)
    names = dict(streams)
    for n in lib.STD:
        names[n] = raw("obj", n)
    for n, o in names.items():
        if not st.dead:
            r.outs[n] = _cons(it.reify(it.get(o, "out", st), st), r.ok)
            r.rests[n] = _cons(it.reify(it.get(o, "rest", st), st), r.ok)
            r.closed[n] = _cons(or_(it.get(o, "#closed", st), dropped(it, o, st)), r.ok)
    errs = []
    for e in ex:
        if e.kind != "raise":
            it.warn("unexpected exit " + e.kind)
            continue
        if e.st.pc is FALSE:
            continue
        val = it.reify(e.val, e.st) if e.val is not None else NONE
        r.raises.append((e.label, e.st.pc, val, e.site))
        errs.append((e.st.pc, e.st))
    r.err = or_(*[p for p, _ in errs])
    for n, o in names.items():
        cur = None
        for p, s in errs:
            x = it.reify(it.get(o, "out", s), s)
            cur = x if cur is None else t.ite(p, x, cur)
        if cur is not None:
            r.errouts[n] = _cons(cur, r.err)
    r.events = it.events
    r.imprecise = list(it.imprecise)
    r.stateful = list(it.stateful)
    r.functions = {q for q in it.functions_seen if not q.startswith("spec.")}
    r.interp = it
    return r


def run_twice(tree, func):
    """add a function to the scenario module that runs the scenario on inputs of their own, and then again"""
    f = next(x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == func)
    name = func + "__twice"
    args = [(a.arg, ast.unparse(a.annotation) if a.annotation is not None else None) for a in f.args.args]
    ps = ["%s%s" % (n + suf, ": " + ann if ann else "") for suf in (FIRST, "") for n, ann in args]
    text = "def %s(%s):\n    %s(%s)\n    return %s(%s)\n" % (
        name, ", ".join(ps), func, ", ".join(n + FIRST for n, _ in args), func, ", ".join(n for n, _ in args))
    tree.body.append(ast.parse(text).body[0])
    return name


FIRST = "_first"


def dropped(it, stream, st):
    """a text layer that is not detached closes the stream below when it is destroyed"""
    out = FALSE
    for oid, (kind, _c) in list(it.meta.items()):
        if kind != "textio":
            continue
        o = raw("obj", oid)
        inner = it.get(o, "inner", st)
        if inner is None or all(x is not stream for x in t.leaves(inner)):
            continue
        out = or_(out, not_(it.get(o, "#detached", st, FALSE)))
    return out


def _cons(v, pc):
    if v.op == "ite" or t.is_atom(v):
        return t.constrain(v, pc)
    return v


def resolve(it, modname, ann):
    ann = ann.strip("'\"")
    c = it.lookup(modname + "." + ann) if ann.isidentifier() else None
    if c is not None and c.op == "class":
        return c.args[0]
    return ann


def elem(it, modname, ann):
    if ann in KINDS:
        return KINDS[ann]
    return "o:" + resolve(it, modname, ann)


def abstract(it, st, name, ann, streams, modname):
    if ann in KINDS:
        return raw("param", name, KINDS[ann])
    if ann in ("stream", "BinaryIO"):
        o = lib.new_stream(it, name, st, "b")
        streams[name] = o
        return o
    if ann in ("out", ):
        o = lib.new_stream(it, name, st, "b", readable=False)
        streams[name] = o
        return o
    if ann in ("tout", "TextIO"):
        o = lib.new_stream(it, name, st, "s", readable=False)
        streams[name] = o
        return o
    if ann.startswith("L_"):  # list of abstract values
        return it.mklist(raw("param", name, "l:" + elem(it, modname, ann[2:])), None, st, tag="p" + name)
    if ann:
        return raw("param", name, "o:" + resolve(it, modname, ann))
    return raw("param", name, None)
