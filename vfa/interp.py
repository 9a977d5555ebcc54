"""Whole-program abstract interpretation of Python source into value terms.

Statements are walked once per calling context; both arms of a conditional are analysed and joined
with a decision-tree term, loops are analysed for one symbolic iteration and closed with a
comprehension/first-match/fold binder, calls to repository functions are inlined, calls to
libraries become opaque terms.  Everything not understood becomes an `unknown` term or marks the
analysis imprecise; such results are reported as undecided and never as violations.
"""
import ast
import os

from . import terms as t
from .terms import T, raw, const, TRUE, FALSE, NONE, ite, and_, or_, not_, is_const, cv, ty

UNDEF = raw("undef")
INF = raw("inf")


class Imprecise(Exception):
    pass


class State:
    __slots__ = ("loc", "pc")

    def __init__(self, loc=None, pc=TRUE):
        self.loc = loc if loc is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.loc), self.pc)

    def become(self, o):
        self.loc, self.pc = o.loc, o.pc

    @property
    def dead(self):
        return self.pc is FALSE


class Exit:
    __slots__ = ("kind", "st", "val", "label", "site", "exc")

    def __init__(self, kind, st, val=None, label=None, site=None):
        self.kind, self.st, self.val, self.label, self.site = kind, st, val, label, site

    def clone(self, st):
        return Exit(self.kind, st, self.val, self.label, self.site)


class Scope:
    def __init__(self, sid, parent, module, names=None, globals_=(), nonlocals=()):
        self.id, self.parent, self.module = sid, parent, module
        self.names = names  # None: module / anything
        self.globals = set(globals_)
        self.nonlocals = set(nonlocals)


class Frame:
    def __init__(self, name, scope, module, cls=None, first=None, node=None):
        self.name, self.scope, self.module, self.cls, self.first, self.node = name, scope, module, cls, first, node
        self.label = object()
        self.yield_cb = None


class Func:
    def __init__(self, fid, node, module, scope, cls, defaults, kwdefaults, name):
        self.fid, self.node, self.module, self.scope, self.cls = fid, node, module, scope, cls
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.cached = False
        self.names = None

    @property
    def qual(self):
        return (self.cls + "." if self.cls else self.module + ".") + self.name


class Class:
    def __init__(self, qual, name, bases, module, node):
        self.qual, self.name, self.bases, self.module, self.node = qual, name, bases, module, node
        self.attrs = {}
        self.dataclass = False
        self.fields = []
        self.enum = False


def _has_yield(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    """names bound in a function body (excluding nested functions)"""
    names, glob, nonl = set(), set(), set()

    def target(x):
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                walk(g.iter)
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    names.add(s.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        names.add(x.arg)
    return names - glob - nonl, glob, nonl


class Event:
    __slots__ = ("name", "args", "pc", "stack", "loops", "extra")

    def __init__(self, name, args, pc, stack, loops, extra=None):
        self.name, self.args, self.pc, self.stack, self.loops, self.extra = name, args, pc, stack, loops, extra

    @property
    def where(self):
        return self.stack[-1] if self.stack else ("?", 0, "?")

    def loc(self):
        f, l, fn = self.where
        return "%s:%s (%s)" % (f, l, fn)


MUT_KINDS = ("list", "dict", "set", "bytearray", "deque")


class Interp:
    def __init__(self, source, extra=(), opaque=(), asserts=True):
        from . import lib

        self.lib = lib
        self.source = source
        self.mods = dict(source.modules)
        for m in extra:
            self.mods[m.name] = m
        self.opaque = set(opaque)
        self.bags = set()
        self.asserts = asserts
        self.loaded = {}
        self.classes = {}
        self.class_order = []
        self.funcs = {}
        self.meta = {}
        self.base = State()
        self.frame = None
        self.pcs = []
        self.collect = [[]]
        self.handlers = []
        self.events = []
        self.imprecise = []
        self.path = []
        self.stack = []
        self.loops = []
        self.callcount = {}
        self.global_objs = set()
        self.loading = True
        self.fed = set()
        self._memokeys = []
        self.stateful = []  # places where state that outlives the call is changed
        self.clicks = []  # declarations of commands, options and arguments
        self.clicked = {}  # function -> declarations applied to it
        self.functions_seen = set()
        self.exc_stack = []
        self.used_sites = {}
        self.steps = 0
        self.max_steps = 400000
        self.stubs = {}

    # ------------------------------------------------------------------ utilities

    def warn(self, reason, node=None):
        f = self.frame.module if self.frame else "?"
        msg = "%s:%s: %s" % (f, getattr(node, "lineno", "?"), reason)
        if msg not in self.imprecise:
            self.imprecise.append(msg)

    def unk(self, reason, node=None):
        self.warn(reason, node)
        return t.unknown(reason)

    def site(self, node, tag=""):
        return "%s:%s:%s%s%s" % (self.frame.scope.id, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                                 "".join(self.path), tag)

    def here(self, node):
        m = self.mods.get(self.frame.module)
        return (m.path if m else self.frame.module, getattr(node, "lineno", 0), self.frame.name)

    def event(self, name, args, st, node, extra=None):
        if st.dead or self.loading:
            return
        pc = and_(*self.pcs, st.pc)
        stk = list(self.stack) + [self.here(node)]
        self.events.append(Event(name, [self.snap(a, st) for a in args], pc, stk, list(self.loops), extra))

    def snap(self, v, st):
        try:
            return self.reify(v, st)
        except RecursionError:
            return t.unknown("recursive value")

    def simp(self, v, st):
        if v.op == "ite" or t.is_atom(v):
            if st.pc is not TRUE and st.pc is not FALSE:
                v = t.constrain(v, st.pc)
            for p in reversed(self.pcs):
                if v.op != "ite" and not t.is_atom(v):
                    break
                if p is not TRUE and p is not FALSE:
                    v = t.constrain(v, p)
        return v

    # objects -----------------------------------------------------------------

    def alloc(self, kind, node, st, cls=None, tag="", oid=None, **fields):
        oid = oid or self.site(node, tag + "!" + kind)
        # several allocations at one site within one path
        self.meta[oid] = (kind, cls)
        for k in [k for k in st.loc if k[0] == "h" and k[1] == oid]:
            del st.loc[k]
        for f, v in fields.items():
            st.loc[("h", oid, f)] = v
        if self.loading:
            self.global_objs.add(oid)
        return raw("obj", oid)

    def kind(self, ref):
        return self.meta[ref.args[0]][0]

    def ocls(self, ref):
        return self.meta[ref.args[0]][1]

    def get(self, ref, f, st, default=None):
        return st.loc.get(("h", ref.args[0], f), default)

    def note(self, msg, node):
        msg = "%s: %s" % (self.frame.name, msg)
        if msg not in self.stateful:
            self.stateful.append(msg)

    def put(self, ref, f, v, st, node=None):
        oid = ref.args[0]
        if oid in self.global_objs and not self.loading:
            old = st.loc.get(("h", oid, f))
            if old is not v:
                self.event("<global-mutation>", [const(oid), const(f)], st, node)
                self.note("module-level object mutated: %s.%s" % (oid, f), node)
        st.loc[("h", oid, f)] = v

    def mklist(self, seq, node, st, kind="list", tag=""):
        return self.alloc(kind, node, st, v=seq, tag=tag)

    def isobj(self, v, *kinds):
        return v.op == "obj" and (not kinds or self.kind(v) in kinds)

    def content(self, v, st):
        """sequence term of a list-like value"""
        if v.op == "obj":
            k = self.kind(v)
            if k in ("list", "deque", "bytearray"):
                return self.get(v, "v", st)
            if k == "set":
                return self.get(v, "v", st)
            if k == "dict":
                d = self.get(v, "v", st)
                if d.op == "dictv":
                    return t.mklist(d.args[::2])
                return raw("dkeys", d)
        return v

    def reify(self, v, st, only=None, _stk=()):
        """replace object references by snapshots of their value"""
        if not _has_obj(v):
            return v
        m = {}
        for r in _objs(v):
            if only is not None and r.args[0] not in only:
                continue
            if r in _stk:
                m[r] = t.unknown("cyclic object")
                continue
            m[r] = self.reify_obj(r, st, only, _stk + (r,))
        return t.subst(v, m) if m else v

    def reify_obj(self, r, st, only, stk):
        kind, cls = self.meta[r.args[0]]
        oid = r.args[0]
        if kind in ("list", "deque"):
            return self.reify(self.get(r, "v", st), st, only, stk)
        if kind == "set":
            return t.rebuild("setof", [self.reify(self.get(r, "v", st), st, only, stk)])
        if kind == "dict":
            return self.reify(self.get(r, "v", st), st, only, stk)
        if kind == "bytearray":
            return self.get(r, "v", st)
        if kind in ("std", "absstream"):
            return raw("std", oid)
        if kind == "sym":
            v = self.get(r, "#sym", st)
            for k in sorted(k[2] for k in st.loc if k[0] == "h" and k[1] == oid and not k[2].startswith("#")):
                v = raw("setf", v, const(k), self.reify(st.loc[("h", oid, k)], st, only, stk))
            return v
        out = []
        for k in sorted(k[2] for k in st.loc if k[0] == "h" and k[1] == oid):
            if k.startswith("#"):
                continue
            out += [const(k), self.reify(st.loc[("h", oid, k)], st, only, stk)]
        name = cls.qual if isinstance(cls, Class) else (cls or kind)
        return t.rebuild("inst", [const(kind), const(name)] + out) if True else None

    def thaw(self, v, node, st):
        """temporary object for an instance snapshot"""
        kind, name = cv(v.args[0]), cv(v.args[1])
        cls = self.classes.get(name, name)
        fields = {cv(v.args[i]): v.args[i + 1] for i in range(2, len(v.args), 2)}
        oid = "thaw:" + t.dig(v).hex()[:16] + "".join(":%s" % u for u in t._varseq(v))
        self.meta[oid] = (kind, cls)
        for f, x in fields.items():
            st.loc[("h", oid, f)] = x
        return raw("obj", oid)

    def symobj(self, v, st):
        """object standing for a value whose class is a class of the package, or None"""
        y = ty(v)
        if not (isinstance(y, str) and y.startswith("o:")) or v.op == "obj":
            return None
        cls = self.classes.get(y[2:])
        if cls is None or any(c is not cls and self.issub(c, cls.qual) for c in self.class_order):
            return None  # could be any of several classes
        oid = "sym:" + t.dig(v).hex()[:16] + "".join(":%s" % u for u in t._varseq(v))
        self.meta[oid] = ("sym", cls)
        st.loc[("h", oid, "#sym")] = v
        return raw("obj", oid)

    # exits ---------------------------------------------------------------------

    def exit(self, kind, st, val=None, label=None, node=None):
        if st.dead:
            return
        self.collect[-1].append(Exit(kind, st.copy(), val, label, self.here(node) if node is not None else None))
        st.pc = FALSE

    def raise_(self, exc, st, node, val=None):
        """raise an exception of statically known class name"""
        self.event("<raise>", [const(exc), val if val is not None else NONE], st, node)
        self.exit("raise", st, val if val is not None else raw("excval", exc), exc, node)

    def raise_if(self, cond, exc, st, node, val=None):
        cond = self.simp(cond, st)
        if cond is FALSE:
            return
        s = st.copy()
        s.pc = and_(s.pc, cond)
        if not s.dead:
            self.raise_(exc, s, node, val)
        st.pc = and_(st.pc, not_(cond))

    # joins -----------------------------------------------------------------------

    def merge2(self, c, s1, s2):
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        r = State({}, or_(s1.pc, s2.pc))
        a, b = s1.loc, s2.loc
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                if k[0] == "v":
                    r.loc[k] = ite(c, v, UNDEF)
                else:
                    r.loc[k] = v
            elif v is w:
                r.loc[k] = v
            else:
                r.loc[k] = self.join(c, v, w)
        for k, w in b.items():
            if k not in a:
                r.loc[k] = ite(c, UNDEF, w) if k[0] == "v" else w
        return r

    def join(self, c, v, w):
        return ite(c, v, w)

    def merge_n(self, items):
        """items: [(state, val)] with disjoint pcs -> (state, val)"""
        items = [(s, v) for s, v in items if not s.dead]
        if not items:
            return None, None
        st, val = items[-1]
        for s, v in reversed(items[:-1]):
            c = s.pc
            if val is None or v is None:
                nv = val if v is None else v
            else:
                nv = v if v is val else ite(c, v, val)
            st = self.merge2(c, s, st)
            val = nv
        if len(items) > 1:
            if val is not None:
                val = t.constrain(val, st.pc)
            for k, v in list(st.loc.items()):
                if v.op == "ite":
                    st.loc[k] = t.constrain(v, st.pc)
        return st, val

    def branch(self, c, st, f1, f2):
        """run f1/f2 (state -> value) on the two sides of the boolean term c, join into st"""
        c = self.simp(c, st)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = and_(st.pc, c)
        s2.pc = and_(st.pc, not_(c))
        if s1.dead:
            return f2(st)
        if s2.dead:
            return f1(st)
        v1 = f1(s1)
        v2 = f2(s2)
        m = self.merge2(c, s1, s2)
        st.become(m)
        if s1.dead:
            return v2
        if s2.dead:
            return v1
        if v1 is None or v2 is None:
            return v1 if v2 is None else v2
        return v1 if v1 is v2 else ite(c, v1, v2)

    SPECIAL = ("obj", "func", "class", "bound", "inst", "ext", "mod", "partial", "gen", "superobj", "range",
               "enumerate", "zip", "reviter", "iter", "ebound", "genexp")

    def cases(self, v, st, fn, again=False):
        """apply fn to v, splitting the state when v is a choice between objects / callables / None"""
        v = v if again else self.simp(v, st)
        if v.op == "ite" and any(x.op in self.SPECIAL or x is NONE or x.op in ("undef", "tuple") for x in t.leaves(v)):
            a, hi, lo = v.args
            if hi.op == "undef":
                return self.cases(lo, st, fn, True)
            if lo.op == "undef":
                return self.cases(hi, st, fn, True)
            return self.branch(a, st, lambda s: self.cases(t.assume(hi, a, True), s, fn, True),
                               lambda s: self.cases(t.assume(lo, a, False), s, fn, True))
        return fn(v, st)

    def cases2(self, a, b, st, fn):
        return self.cases(a, st, lambda x, s: self.cases(b, s, lambda y, s2: fn(x, y, s2)))

    # ------------------------------------------------------------------ modules

    def load(self, name):
        if name in self.loaded:
            return
        m = self.mods[name]
        self.loaded[name] = m
        pk = name.rpartition(".")[0]
        if pk and pk in self.mods:
            self.load(pk)
        old = (self.frame, self.pcs, self.collect, self.handlers, self.path, self.loading)
        sc = Scope("m:" + name, None, name)
        self.frame = Frame("<module>", sc, name)
        self.pcs, self.collect, self.handlers, self.path, self.loading = [], [[]], [], [], True
        self.block(m.tree.body, self.base)
        self.base.pc = TRUE
        self.frame, self.pcs, self.collect, self.handlers, self.path, self.loading = old

    def modvar(self, modname, name):
        self.load(modname)
        return self.base.loc.get(("v", "m:" + modname, name))

    def lookup(self, dotted):
        """public name -> value, e.g. 'age.file.Encryptor' or 'age.keys.agekey.AgePrivateKey.generate'"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.mods:
                self.load(m)
                if i == len(parts):
                    return raw("mod", m)
                v = self.modvar(m, parts[i])
                for a in parts[i + 1:]:
                    if v is None:
                        return None
                    if v.op == "class":
                        v = self.class_attr(self.classes[v.args[0]], a)
                    else:
                        return None
                return v
        return None

    # ------------------------------------------------------------------ statements

    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Imprecise("analysis budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.warn("unsupported statement " + type(s).__name__, s)
            return
        m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        pass

    s_Nonlocal = s_Global

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.exit("return", st, v, self.frame.label, s)

    def s_Break(self, s, st):
        self.exit("break", st, None, self.frame.loop, s)

    def s_Continue(self, s, st):
        self.exit("continue", st, None, self.frame.loop, s)

    def s_Delete(self, s, st):
        for x in s.targets:
            if isinstance(x, ast.Name):
                k = self.var_key(x.id)
                if k in st.loc:
                    st.loc[k] = UNDEF
            elif isinstance(x, ast.Subscript):
                self.del_item(x, st)
            elif isinstance(x, ast.Attribute):
                o = self.ev(x.value, st)
                if o.op == "obj":
                    st.loc[("h", o.args[0], x.attr)] = UNDEF
                else:
                    self.warn("del attribute", s)

    def del_item(self, x, st):
        o = self.ev(x.value, st)
        if self.isobj(o, "list", "bytearray"):
            seq = self.get(o, "v", st)
            if isinstance(x.slice, ast.Slice):
                lo = self.ev(x.slice.lower, st) if x.slice.lower else NONE
                hi = self.ev(x.slice.upper, st) if x.slice.upper else NONE
                kind = "l" if self.kind(o) == "list" else "b"
                if lo is NONE and hi is NONE:
                    return self.put(o, "v", t.empty(kind), st, x)
                if lo is NONE or lo is const(0):
                    return self.put(o, "v", t.slice_(seq, hi, NONE), st, x)
                if hi is NONE:
                    return self.put(o, "v", t.slice_(seq, const(0), lo), st, x)
            else:
                i = self.ev(x.slice, st)
                if is_const(i) and cv(i) == -1:
                    return self.put(o, "v", t.slice_(seq, const(0), const(-1)), st, x)
                if is_const(i) and cv(i) == 0:
                    return self.put(o, "v", t.slice_(seq, const(1), NONE), st, x)
        if self.isobj(o, "dict"):
            d = self.get(o, "v", st)
            k = self.ev(x.slice, st)
            return self.put(o, "v", raw("ddel", d, k), st, x)
        self.warn("unsupported del", x)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for tg in s.targets:
            self.assign(tg, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        elif isinstance(self.frame.node, ast.ClassDef) and isinstance(s.target, ast.Name):
            pass

    def s_AugAssign(self, s, st):
        cur = self.ev_target(s.target, st)
        rhs = self.ev(s.value, st)
        op = type(s.op).__name__

        def go(c, st2):
            if op == "Add" and self.isobj(c, "list", "bytearray", "deque"):
                self.list_extend(c, rhs, st2, s)
                return c
            if op == "Add" and self.slot(c, st2) is not None:
                self.lib.method(self, self.slot(c, st2), "extend", [rhs], {}, st2, s)
                return c
            return self.binop(op, c, rhs, st2, s, inplace=True)

        v = self.cases(cur, st, go)
        if isinstance(s.target, ast.Attribute):
            o = self._tmp_obj
            return self.set_attr(o, s.target.attr, v, st, s.target)
        if isinstance(s.target, ast.Subscript):
            o, i = self._tmp_obj, self._tmp_idx
            if v is cur and op == "Add" and v.op == "ddslot":
                return
            return self.set_item(o, i, v, st, s.target, s.target.value)
        self.assign(s.target, v, st)

    def ev_target(self, tg, st):
        if isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, st)
            v = self.get_attr(o, tg.attr, st, tg)
            self._tmp_obj = o
            if o.op == "index" or o.op == "inst":
                self._tmp_obj = ("path", tg.value, o)
            return v
        if isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st)
            i = self.ev_slice(tg.slice, st)
            v = self.subscript(o, i, st, tg)
            self._tmp_obj, self._tmp_idx = o, i
            return v
        return self.ev(tg, st)

    def assign(self, tg, v, st):
        if isinstance(tg, ast.Name):
            self.set_var(tg.id, v, st, tg)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, st)
            if o.op in ("index", "inst"):
                o = ("path", tg.value, o)
            self.set_attr(o, tg.attr, v, st, tg)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st)
            i = self.ev_slice(tg.slice, st)
            self.set_item(o, i, v, st, tg, tg.value)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg, v, st)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st)
        else:
            self.warn("unsupported assignment target", tg)

    def unpack(self, tg, v, st):
        v = self.simp(v, st)
        if v.op == "ite" and any(x.op in ("tuple", "obj", "undef") for x in t.leaves(v)):
            # unpack leafwise when all leaves are tuples of the same size
            def go(x, s):
                self.unpack(tg, x, s)
                return None
            a, hi, lo = v.args
            if hi.op == "undef":
                return self.unpack(tg, lo, st)
            if lo.op == "undef":
                return self.unpack(tg, hi, st)
            n = len(tg.elts)
            if all(x.op == "tuple" and len(x.args) == n for x in t.leaves(v)):
                for i, e in enumerate(tg.elts):
                    self.assign(e, t.index(v, const(i)), st)
                return
            self.branch(a, st, lambda s: go(t.assume(hi, a, True), s), lambda s: go(t.assume(lo, a, False), s))
            return
        if v.op in ("gen", "genexp", "zip", "enumerate", "range"):
            v = self.to_seq(v, st, tg)
        seq = self.content(v, st)
        stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
        n = len(tg.elts)
        if not stars:
            if (self.catching("ValueError") or t.seqty(seq)) and seq.op != "tuple":
                self.raise_if(not_(t.eq(t.length(seq), const(n))), "ValueError", st, tg)
            for i, e in enumerate(tg.elts):
                self.assign(e, t.index(seq, const(i)), st)
            return
        p = stars[0]
        after = n - p - 1
        if t.seqty(seq) and n > 1:
            self.raise_if(not_(t.ge(t.length(seq), const(n - 1))), "ValueError", st, tg)
        for i in range(p):
            self.assign(tg.elts[i], t.index(seq, const(i)), st)
        rest = t.slice_(seq, const(p), NONE if after == 0 else const(-after))
        if rest.op == "tuple":
            rest = t.mklist(rest.args)
        self.assign(tg.elts[p].value, self.mklist(rest, tg, st), st)
        for j in range(after):
            self.assign(tg.elts[p + 1 + j], t.index(seq, const(j - after)), st)

    def set_attr(self, o, name, v, st, node):
        if isinstance(o, tuple):
            _, expr, val = o
            return self.write_path(expr, name, v, st, node)

        def go(x, s):
            if x.op == "obj":
                cls = self.ocls(x)
                if isinstance(cls, Class):
                    p = self.class_attr(cls, name)
                    if p is not None and p.op == "prop" and len(p.args) > 1 and p.args[1] is not NONE:
                        self.call(p.args[1], [x, v], {}, s, node)
                        return None
                if x.args[0].startswith("thaw:"):
                    self.warn("assignment to a copied object", node)
                self.put(x, name, v, s, node)
                return None
            if x.op in ("func",):
                return None
            if x.op == "class":
                c = self.classes[x.args[0]]
                if self.loading:
                    c.attrs[name] = v
                else:
                    self.event("<global-mutation>", [const(c.qual), const(name)], s, node)
                    self.warn("class attribute assigned: %s.%s" % (c.qual, name), node)
                return None
            if x.op == "mod":
                self.event("<global-mutation>", [const(x.args[0]), const(name)], s, node)
                self.warn("module attribute assigned", node)
                return None
            if x.op == "inst":
                self.warn("assignment to an attribute of a snapshot", node)
                return None
            self.warn("assignment to attribute %s of opaque value" % name, node)
            return None

        self.cases(o, st, go)

    def write_path(self, expr, name, v, st, node):
        """<list-lvalue>[-1].name = v"""
        if isinstance(expr, ast.Subscript):
            lst = self.ev(expr.value, st)
            i = self.ev_slice(expr.slice, st)
            lst = self.simp(lst, st)
            if self.isobj(lst, "list"):
                seq = self.get(lst, "v", st)
                e = self.simp(t.index(seq, i), st)
                if e.op == "obj":
                    return self.set_attr(e, name, v, st, node)
                ne = self.update_inst(e, name, v)
                if ne is not None and i is const(-1):
                    return self.put(lst, "v", upd_last(seq, ne), st, node)
        self.warn("assignment to an attribute of an opaque element", node)

    def update_inst(self, e, name, v):
        return raw("setf", e, const(name), v) if e.op != "inst" else _inst_set(e, name, v)

    def set_item(self, o, i, v, st, node, expr=None):
        def go(x, s):
            if self.isobj(x, "dict"):
                d = self.get(x, "v", s)
                self.put(x, "v", dict_set(d, i, v), s, node)
                return None
            if self.isobj(x, "list", "bytearray"):
                seq = self.get(x, "v", s)
                if isinstance(i, tuple):
                    lo, hi = i[1], i[2]
                    kind = "l" if self.kind(x) == "list" else "b"
                    if i[3] is NONE and lo in (NONE, const(0)):
                        if hi is NONE:
                            return self.put(x, "v", self.to_seq(v, s, node), s, node)
                        return self.put(x, "v", t.cat(kind, self.to_seq(v, s, node), t.slice_(seq, hi, NONE)), s, node)
                    self.warn("slice assignment", node)
                    return None
                if i is const(-1):
                    self.put(x, "v", upd_last(seq, v), s, node)
                    return None
                if seq.op == "cat" and all(p.op == "unit" for p in seq.args[1:]) and t.is_int_const(i):
                    items = list(seq.args[1:])
                    n = cv(i)
                    if -len(items) <= n < len(items):
                        items[n] = t.unit(v)
                        self.put(x, "v", raw("cat", "l", *items), s, node)
                        return None
                self.put(x, "v", raw("updi", seq, i, v), s, node)
                return None
            if x.op == "obj":
                m = self.find_method(x, "__setitem__")
                if m is not None:
                    self.call(m, [i, v], {}, s, node)
                    return None
            self.warn("item assignment on opaque value", node)
            return None

        self.cases(o, st, go)

    def s_If(self, s, st):
        c = self.ev_cond(s.test, st)
        self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def s_Assert(self, s, st):
        if not self.asserts:
            return
        c = self.ev_cond(s.test, st)
        if s.msg is not None:
            pass
        self.raise_if(not_(c), "AssertionError", st, s)

    def s_Raise(self, s, st):
        if s.exc is None:
            if self.exc_stack:
                cls, val = self.exc_stack[-1]
                return self.exit("raise", st, val, cls, s)
            self.warn("bare raise", s)
            return self.exit("raise", st, NONE, "Exception", s)
        v = self.ev(s.exc, st)
        if s.cause is not None:
            self.ev(s.cause, st)
        if st.dead:
            return

        def go(x, s2):
            name = self.exc_name(x, s2)
            if name is None:
                self.warn("cannot resolve raised exception", s)
                name = "Exception"
            self.event("<raise>", [const(name), x], s2, s)
            self.exit("raise", s2, x, name, s)
            return NONE

        self.cases(v, st, go)

    def exc_name(self, x, st):
        if x.op == "class":
            return self.classes[x.args[0]].name
        if x.op == "ext":
            return x.args[0].split(".")[-1]
        if x.op == "obj":
            c = self.ocls(x)
            if isinstance(c, Class):
                return c.name
            k = self.get(x, "#cls", st)
            if k is not None and is_const(k):
                return cv(k)
        if x.op == "call" and x.args[0].startswith("builtins.") or x.op == "call":
            return x.args[0].split(".")[-1]
        if x.op == "excval":
            return x.args[0]
        if x.op == "inst":
            return cv(x.args[1]).split(".")[-1]
        return None

    def exc_classes(self, v, st):
        """names of the exception classes denoted by a handler expression"""
        if v.op == "tuple":
            out = []
            for x in v.args:
                out += self.exc_classes(x, st)
            return out
        if v.op == "obj":
            c = self.content(v, st)
            if c.op == "cat" and all(p.op == "unit" for p in c.args[1:]):
                return [n for p in c.args[1:] for n in self.exc_classes(p.args[0], st)]
        if v.op == "class":
            return [self.classes[v.args[0]].name]
        if v.op == "ext":
            return [v.args[0].split(".")[-1]]
        self.warn("cannot resolve exception handler")
        return ["Exception"]

    def catching(self, exc):
        """is some active handler able to catch exc?"""
        return any(t.exc_sub(exc, h) or t.exc_sub(h, exc) for hs in self.handlers for h in hs)

    def catches(self, exc):
        return any(t.exc_sub(exc, h) for hs in self.handlers for h in hs)

    def region(self, st, fn):
        """run fn with a fresh collector; returns the exits"""
        self.collect.append([])
        try:
            fn(st)
        finally:
            ex = self.collect.pop()
        return ex

    def s_Try(self, s, st):
        hnames = []
        for h in s.handlers:
            if h.type is None:
                hnames.append(["BaseException"])
            else:
                hnames.append(self.exc_classes(self.ev(h.type, st), st))

        def whole(st):
            self.handlers.append([n for ns in hnames for n in ns])
            try:
                ex = self.region(st, lambda x: self.block(s.body, x))
            finally:
                self.handlers.pop()
            after = []
            if not st.dead and s.orelse:
                self.block(s.orelse, st)
            if not st.dead:
                after.append((st.copy(), None))
            pending = [[] for _ in s.handlers]
            for e in ex:
                if e.kind == "raise":
                    for i, ns in enumerate(hnames):
                        if any(t.exc_sub(e.label, n) for n in ns):
                            pending[i].append(e)
                            break
                    else:
                        self.collect[-1].append(e)
                else:
                    self.collect[-1].append(e)
            for h, es in zip(s.handlers, pending):
                if not es:
                    continue
                groups = {}
                for e in es:
                    groups.setdefault(e.label, []).append(e)
                one = len(groups) == 1
                gl = [es] if (one or not _uses_exc(h)) else list(groups.values())
                for g in gl:
                    hs, val = self.merge_n([(e.st, e.val) for e in g])
                    if hs is None:
                        continue
                    name = g[0].label if len({e.label for e in g}) == 1 else "Exception"
                    if h.name:
                        self.set_var(h.name, val if val is not None else NONE, hs, h)
                    self.exc_stack.append((name, val))
                    try:
                        self.event("<handler>", [const(name)], hs, h)
                        self.block(h.body, hs)
                    finally:
                        self.exc_stack.pop()
                    if not hs.dead:
                        after.append((hs, None))
            m, _ = self.merge_n(after)
            if m is None:
                st.pc = FALSE
            else:
                st.become(m)

        if not s.finalbody:
            return whole(st)
        ex = self.region(st, whole)
        for e in ex:
            x = e.st
            self.block(s.finalbody, x)
            if not x.dead:
                self.collect[-1].append(e)
        if not st.dead:
            self.block(s.finalbody, st)

    s_TryStar = s_Try

    def s_With(self, s, st, i=0):
        if i >= len(s.items):
            return self.block(s.body, st)
        it = s.items[i]
        v = self.ev(it.context_expr, st)
        if st.dead:
            return

        def go(cm, st):
            # generator based context manager
            if cm.op == "gencm":
                fn, args, kwargs = self._gencms[cm.args[0]]
                fr = self.frame
                lbl = fr.__dict__.get("loop")

                def cb(x, s2):
                    cur = self.frame
                    self.frame = fr
                    oldl = fr.__dict__.get("loop")
                    fr.loop = lbl
                    try:
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, x, s2)
                        self.s_With(s, s2, i + 1)
                    finally:
                        fr.loop = oldl
                        self.frame = cur
                    return NONE

                self.call_func(fn, args, kwargs, st, s, yield_cb=cb)
                return None
            if cm.op == "suppress":
                names = [n for a in cm.args for n in self.exc_classes(a, st)]
                self.handlers.append(names)
                try:
                    ex = self.region(st, lambda x: self.s_With(s, x, i + 1))
                finally:
                    self.handlers.pop()
                after = [] if st.dead else [(st.copy(), None)]
                for e in ex:
                    if e.kind == "raise" and any(t.exc_sub(e.label, n) for n in names):
                        after.append((e.st, None))
                    else:
                        self.collect[-1].append(e)
                m, _ = self.merge_n(after)
                if m is None:
                    st.pc = FALSE
                else:
                    st.become(m)
                return None
            entered = self.enter(cm, st, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, entered, st)
            ex = self.region(st, lambda x: self.s_With(s, x, i + 1))
            for e in ex:
                x = e.st
                self.leave(cm, x, s, e)
                if not x.dead:
                    self.collect[-1].append(e)
            if not st.dead:
                self.leave(cm, st, s, None)
            return None

        self.cases(v, st, go)

    def enter(self, cm, st, node):
        m = self.find_method(cm, "__enter__")
        if m is not None:
            return self.call(m, [], {}, st, node)
        if cm.op == "closing":
            return cm.args[0]
        if cm.op == "nullcontext":
            return cm.args[0] if cm.args else NONE
        return cm

    def leave(self, cm, st, node, ex):
        if cm.op == "closing":
            self.call_method(cm.args[0], "close", [], {}, st, node)
            return
        if cm.op == "nullcontext":
            return
        m = self.find_method(cm, "__exit__")
        if m is not None:
            v = self.call(m, [NONE, NONE, NONE] if ex is None or ex.kind != "raise" else
                          [raw("ext", "builtins." + ex.label), ex.val or NONE, NONE], {}, st, node)
            if ex is not None and ex.kind == "raise" and v is not NONE and t.truth(v) is not FALSE:
                self.warn("__exit__ may suppress exceptions", node)
            return
        if cm.op == "obj":
            k = self.kind(cm)
            if k in ("inst", "file", "bytesio", "stringio", "textio"):
                self.call_method(cm, "close", [], {}, st, node)
        else:
            self.event("<exit>", [cm], st, node)

    def s_Import(self, s, st):
        for a in s.names:
            self.import_name(a.name)
            if a.asname:
                v = self.resolve_module(a.name)
                self.set_var(a.asname, v, st, s)
            else:
                top = a.name.split(".")[0]
                self.set_var(top, self.resolve_module(top), st, s)

    def import_name(self, name):
        if name in self.mods:
            self.load(name)

    def resolve_module(self, name):
        if name in self.mods:
            return raw("mod", name)
        if name.split(".")[0] == self.source.package:
            return raw("mod", name)
        return raw("ext", name)

    def s_ImportFrom(self, s, st):
        m = s.module or ""
        if s.level:
            mod = self.mods.get(self.frame.module)
            pkg = mod.pkg if mod else ""
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            m = pkg + ("." + m if m else "")
        for a in s.names:
            if a.name == "*":
                if m in self.mods:
                    self.load(m)
                    for k, v in list(self.base.loc.items()):
                        if k[0] == "v" and k[1] == "m:" + m and not k[2].startswith("_"):
                            self.set_var(k[2], v, st, s)
                else:
                    self.warn("star import from external module", s)
                continue
            if m + "." + a.name in self.mods:
                self.load(m + "." + a.name)
                v = raw("mod", m + "." + a.name)
            elif m in self.mods:
                self.load(m)
                v = self.base.loc.get(("v", "m:" + m, a.name))
                if v is None:
                    v = raw("ext", m + "." + a.name)
            else:
                v = raw("ext", self.lib.canon(m + "." + a.name))
            self.set_var(a.asname or a.name, v, st, s)

    def s_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, s)
        self.set_var(s.name, v, st, s)

    def make_func(self, s, st, name=None):
        a = s.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {x.arg: self.ev(d, st) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cls = getattr(self.frame, "classdef", None)
        fid = self.site(s, "/" + (name or getattr(s, "name", "<lambda>")))
        scope = self.frame.scope
        if cls is not None:
            scope = self.frame.scope.parent_for_methods
        fn = Func(fid, s, self.frame.module, scope, cls, defaults, kwd, name or getattr(s, "name", "<lambda>"))
        self.funcs[fid] = fn
        return raw("func", fid)

    def decorate(self, d, v, st, node):
        if v.op not in ("func", "staticm", "classm", "prop"):
            if v.op == "click":
                return v
        dv = self.ev(d, st)
        if dv.op == "ext" and dv.args[0] in ("click.command", "click.group"):
            dv = self.lib.click_deco(self, dv.args[0], [], {})
        if dv.op == "clickdeco":
            return self.call(dv, [v], {}, st, node)
        name = dv.args[0] if dv.op == "ext" else (dv.args[0] if dv.op == "call" else None)
        if dv.op == "ext" or dv.op == "call" or dv.op == "mcall":
            base = name.split(".")[-1] if name else ""
            if name in ("builtins.staticmethod",):
                return raw("staticm", v)
            if name in ("builtins.classmethod",):
                return raw("classm", v)
            if name in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
                return raw("prop", v, NONE)
            if name and name.startswith("abc."):
                return v
            if name in ("functools.lru_cache", "functools.cache"):
                if v.op == "func":
                    self.funcs[v.args[0]].cached = True
                return v
            if name in ("functools.wraps", "typing.overload", "typing.no_type_check", "typing.final"):
                return v
            if name == "contextlib.contextmanager":
                return raw("cmfunc", v)
            if name and (name.startswith("click.")):
                return v
            if dv.op == "mcall" and base in ("lru_cache", "cache") and v.op == "func":
                self.funcs[v.args[0]].cached = True
                return v
            if dv.op == "mcall" and base in ("command", "group", "result_callback", "resultcallback"):  # @main.command(...)
                return v
            self.warn("unknown decorator %s" % t.show(dv), node)
            return self.unk("decorated function", node)
        if dv.op == "attr" and dv.args[1] in ("setter", "getter", "deleter"):
            if dv.args[0].op == "prop" and dv.args[1] == "setter":
                return raw("prop", dv.args[0].args[0], v)
            return dv.args[0]
        if dv.op in ("func", "bound", "partial", "class"):
            return self.call(dv, [v], {}, st, node)
        if dv.op == "psetter":
            return raw("prop", dv.args[0], v)
        return v

    FIELD_T = {"bytes": "b", "str": "s", "int": "i", "bool": "bool", "typing.List[str]": "l:s", "List[str]": "l:s",
               "list[str]": "l:s", "typing.List[bytes]": "l:b"}

    def field_types(self, c):
        """types of instance attributes, from the annotations in the class"""
        for n in ast.walk(c.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) \
                    and n.target.value.id == "self" or isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n in c.node.body:
                name = n.target.attr if isinstance(n.target, ast.Attribute) else n.target.id
                a = ast.unparse(n.annotation).strip("'\"")
                ft = self.FIELD_T.get(a)
                if ft is None:
                    if a.startswith(("typing.List[", "List[", "list[")):
                        q = self.resolve_type(a[a.index("[") + 1:-1], c.module)
                        ft = "l:o:" + q if q else None
                    else:
                        q = self.resolve_type(a, c.module)
                        ft = "o:" + q if q else None
                if ft:
                    t.FIELDS[(c.qual, name)] = ft
        # self.x = x of an annotated constructor parameter
        for f in c.node.body:
            if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                ann = {a.arg: ast.unparse(a.annotation) for a in f.args.args + f.args.kwonlyargs if a.annotation is not None}
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(
                            n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and isinstance(n.value, ast.Name) and n.value.id in ann:
                        a = ann[n.value.id].strip("'\"")
                        ft = self.FIELD_T.get(a)
                        if ft is None:
                            q = self.resolve_type(a, c.module)
                            ft = "o:" + q if q else None
                        if ft:
                            t.FIELDS.setdefault((c.qual, n.targets[0].attr), ft)

    def resolve_type(self, a, module):
        parts = a.strip("'\"").split(".")
        v = self.base.loc.get(("v", "m:" + module, parts[0]))
        for x in parts[1:]:
            if v is not None and v.op == "ext":
                v = raw("ext", self.lib.canon(v.args[0] + "." + x))
            else:
                return None
        if v is None:
            return None
        if v.op == "class":
            return v.args[0]
        if v.op == "ext" and not v.args[0].startswith("typing"):
            return v.args[0]
        return None

    def s_ClassDef(self, s, st):
        qual = self.frame.module + "." + s.name
        if self.frame.name != "<module>":
            qual = self.site(s, "/" + s.name)
        bases = [self.ev(b, st) for b in s.bases]
        c = Class(qual, s.name, bases, self.frame.module, s)
        self.classes[qual] = c
        self.class_order.append(c)
        if any(b.op == "class" or b.op == "ext" for b in bases):
            for b in bases:
                bn = self.exc_name(b, st)
                if bn and (bn in t.EXC_PARENT or bn in ("Exception", "BaseException") or
                           (b.op == "class" and bn in t.EXC_PARENT)):
                    t.EXC_PARENT[s.name] = bn
        old = self.frame
        sc = Scope("c:" + qual, old.scope, self.frame.module)
        sc.parent_for_methods = old.scope
        fr = Frame(s.name, sc, old.module, node=s)
        fr.classdef = qual
        self.frame = fr
        self.block(s.body, st)
        self.frame = old
        ann = []
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                ann.append(b.target.id)
        for k in [k for k in st.loc if k[0] == "v" and k[1] == sc.id]:
            c.attrs[k[2]] = st.loc.pop(k)
        c.fields = ann
        v = raw("class", qual)
        if any(b.op == "ext" and b.args[0] == "typing.NamedTuple" for b in bases):
            c.dataclass = "namedtuple"
        if any(b.op == "ext" and b.args[0].startswith("enum.") for b in bases):
            c.enum = True
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            n = dv.args[0] if dv.op in ("ext", "call") else None
            if n == "dataclasses.dataclass":
                c.dataclass = "dataclass"
            elif dv.op == "func":
                r = self.call(dv, [v], {}, st, s)
                if r is not v:
                    self.warn("class decorator replaces the class", s)
                v = r
            elif n in ("functools.total_ordering", "typing.final"):
                pass
            else:
                self.warn("unknown class decorator", s)
        self.set_var(s.name, v, st, s)

    # match -----------------------------------------------------------------------

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)

        def go(i, st):
            if i >= len(s.cases):
                return None
            case = s.cases[i]
            binds = []
            c = self.pattern(case.pattern, subj, st, binds)

            def yes(x):
                for n, v in binds:
                    self.set_var(n, v, x, case.pattern)
                if case.guard is not None:
                    g = self.ev_cond(case.guard, x)
                    return self.branch(g, x, lambda y: self.block(case.body, y), lambda y: go(i + 1, y))
                return self.block(case.body, x)

            return self.branch(c, st, yes, lambda x: go(i + 1, x))

        go(0, st)

    def pattern(self, p, v, st, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, st), st, p)
        if isinstance(p, ast.MatchSingleton):
            return t.is_(v, const(p.value))
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, st, binds)
            if p.name:
                binds.append((p.name, v))
            return c
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(x, v, st, binds) for x in p.patterns])
        if isinstance(p, ast.MatchSequence):
            seq = self.content(v, st)
            stars = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            if not stars:
                c = t.eq(t.length(seq), const(n))
                for i, x in enumerate(p.patterns):
                    c = and_(c, self.pattern(x, t.index(seq, const(i)), st, binds))
                return c
            k = stars[0]
            c = t.ge(t.length(seq), const(n - 1))
            for i, x in enumerate(p.patterns):
                if i < k:
                    c = and_(c, self.pattern(x, t.index(seq, const(i)), st, binds))
                elif i > k:
                    c = and_(c, self.pattern(x, t.index(seq, const(i - n)), st, binds))
                elif x.name:
                    binds.append((x.name, t.slice_(seq, const(k), NONE if n - k - 1 == 0 else const(-(n - k - 1)))))
            return c
        if isinstance(p, ast.MatchClass):
            c = self.isinstance_(v, self.ev(p.cls, st), st, p)
            for a, x in zip(p.kwd_attrs, p.kwd_patterns):
                c = and_(c, self.pattern(x, self.get_attr(v, a, st, p), st, binds))
            if p.patterns:
                self.warn("positional class pattern", p)
            return c
        self.warn("unsupported pattern", p)
        return FALSE

    # ------------------------------------------------------------------ variables

    def var_scope(self, name):
        sc = self.frame.scope
        if name in sc.globals:
            return "m:" + sc.module
        first = True
        while sc is not None:
            if sc.names is None or name in sc.names:
                if sc.names is None and not first and sc.id.startswith("c:"):
                    sc = sc.parent
                    continue
                return sc.id
            first = False
            sc = sc.parent
        return "m:" + self.frame.module

    def var_key(self, name):
        return ("v", self.var_scope(name), name)

    def set_var(self, name, v, st, node=None):
        k = self.var_key(name)
        if k[1].startswith("m:") and not k[1].startswith("m:spec.") and not self.loading and self.frame.name != "<module>":
            self.event("<global-mutation>", [const(k[1]), const(name)], st, node)
            self.note("module variable assigned: %s.%s" % (k[1][2:], name), node)
        st.loc[k] = v

    def get_var(self, name, st, node):
        sc = self.frame.scope
        chain = []
        s = sc
        if name in sc.globals:
            chain = ["m:" + sc.module]
        else:
            first = True
            while s is not None:
                if s.names is None or name in s.names:
                    if not (s.id.startswith("c:") and not first):
                        chain.append(s.id)
                        if s.names is not None:
                            break
                first = False
                s = s.parent
            chain.append("m:" + self.frame.module)
        for sid in chain:
            v = st.loc.get(("v", sid, name))
            if v is None and sid.startswith("m:"):
                v = self.base.loc.get(("v", sid, name))
            if v is not None:
                if v.op == "undef":
                    return self.unk("unbound variable %s" % name, node)
                if v.op == "ite" and any(x.op == "undef" for x in t.leaves(v)):
                    v = drop_undef(self.simp(v, st))
                    if v.op == "undef":
                        return self.unk("unbound variable %s" % name, node)
                return v
        if name in self.lib.BUILTINS:
            return raw("ext", "builtins." + name)
        if name == "__name__":
            return const(self.frame.module)
        if name == "__file__":
            return raw("param", "__file__", "s")
        return self.unk("unknown name %s" % name, node)

    # ------------------------------------------------------------------ expressions

    def ev(self, e, st):
        if st.dead:
            return NONE
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("unsupported expression " + type(e).__name__, e)
        return m(e, st)

    def ev_cond(self, e, st):
        return self.truth(self.ev(e, st), st, e)

    def truth(self, v, st, node=None):
        v = self.simp(v, st)
        if v.op == "ddslot":
            v = self.entry(v, st)

        def leaf(x, s):
            if x.op == "obj":
                k = self.kind(x)
                if k in ("list", "set", "bytearray", "deque"):
                    return t.truth(self.get(x, "v", s))
                if k == "dict":
                    return dict_truth(self.get(x, "v", s))
                if k == "inst":
                    for mn in ("__bool__", "__len__"):
                        m = self.find_method(x, mn)
                        if m is not None:
                            return t.truth(self.call(m, [], {}, s, node))
                return TRUE
            if x.op in ("gen", "genexp", "zip", "enumerate", "reviter", "iter"):
                return TRUE
            if x.op == "range":
                return t.ge(self.range_len(x), const(1))
            if x.op == "unknown":
                return raw("truth", x)
            return t.truth(x)

        return self.cases(v, st, leaf)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return NONE
        if isinstance(e.value, (float, complex)):
            if isinstance(e.value, float) and e.value == int(e.value):
                return raw("const", "float", e.value)
            return raw("const", "float", repr(e.value))
        return const(e.value)

    def e_Name(self, e, st):
        return self.get_var(e.id, st, e)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Tuple(self, e, st):
        return self.display(e.elts, st, e, True)

    def display(self, elts, st, e, tup):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.to_seq(self.ev(x.value, st), st, x))
            else:
                parts.append(t.unit(self.ev(x, st)))
        seq = t._cat_leaf("l", *[as_list(p) for p in parts])
        if tup:
            if seq.op == "cat" and all(p.op == "unit" for p in seq.args[1:]):
                return t.tup([p.args[0] for p in seq.args[1:]])
            return seq
        return seq

    def e_List(self, e, st):
        return self.mklist(self.display(e.elts, st, e, False), e, st)

    def e_Set(self, e, st):
        return self.mklist(self.display(e.elts, st, e, False), e, st, kind="set")

    def e_Dict(self, e, st):
        d = raw("dictv")
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, st)
                if self.isobj(o, "dict"):
                    od = self.get(o, "v", st)
                    if od.op == "dictv":
                        for i in range(0, len(od.args), 2):
                            d = dict_set(d, od.args[i], od.args[i + 1])
                        continue
                self.warn("dict unpacking", e)
                continue
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            d = raw("dictv", kv, vv) if len(e.keys) == 1 else dict_set(d, kv, vv)
        return self.alloc("dict", e, st, v=d)

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_IfExp(self, e, st):
        c = self.ev_cond(e.test, st)
        return self.branch(c, st, lambda x: self.ev(e.body, x), lambda x: self.ev(e.orelse, x))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(i, st):
            v = self.ev(e.values[i], st)
            if i == len(e.values) - 1 or st.dead:
                return v
            c = self.truth(v, st, e)
            if isand:
                return self.branch(c, st, lambda x: go(i + 1, x), lambda x: v)
            return self.branch(c, st, lambda x: v, lambda x: go(i + 1, x))

        return go(0, st)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st, e))
        if isinstance(e.op, ast.USub):
            return t.mulc(v, -1)
        if isinstance(e.op, ast.UAdd):
            return v
        return t.sub(t.mulc(v, -1), const(1))

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out = and_(out, self.compare(type(op).__name__, left, right, st, e))
            left = right
        return out

    def compare(self, op, a, b, st, node):
        if op == "Is":
            return self.is_(a, b, st)
        if op == "IsNot":
            return not_(self.is_(a, b, st))
        if op == "Eq":
            return self.eq(a, b, st, node)
        if op == "NotEq":
            return not_(self.eq(a, b, st, node))
        if op == "In":
            return self.in_(a, b, st, node)
        if op == "NotIn":
            return not_(self.in_(a, b, st, node))
        a, b = self.simp(self.plain(a, st), st), self.simp(self.plain(b, st), st)
        if "setof" in (a.op, b.op):
            return raw("subset", const(op), a, b)
        if op in ("GtE",):
            return self.cmp(a, b)
        if op == "Lt":
            return not_(self.cmp(a, b))
        if op == "LtE":
            return self.cmp(b, a)
        if op == "Gt":
            return not_(self.cmp(b, a))
        return self.unk("comparison " + op, node)

    def cmp(self, a, b):
        """a >= b"""
        num = lambda x: ty(x) in ("i", "bool", None) or x.op == "ite"
        if ty(a) in ("s", "b") or ty(b) in ("s", "b"):
            return not_(t.lt(a, b))
        return t.ge(a, b)

    def is_(self, a, b, st):
        def leaf(x, y, s):
            if x.op == "inst" or y.op == "inst":
                return TRUE if x is y else (FALSE if NONE in (x, y) else raw("is", *sorted((x, y), key=t.dkey)))
            return t.is_(x, y)

        a, b = self.simp(a, st), self.simp(b, st)
        return t.lift(lambda x, y: leaf(x, y, st), a, b)

    def plain(self, v, st):
        """value term of list-like objects"""
        if v.op == "obj" and self.kind(v) in ("list", "bytearray", "deque", "set", "dict"):
            return self.reify(v, st)
        if v.op in ("gen", "genexp", "range", "zip", "enumerate"):
            return self.to_seq(v, st, None)
        if v.op == "ddslot":
            return self.entry(v, st)
        return v

    def entry(self, v, st):
        """the value of a dictionary entry"""
        return self.simp(dict_index(self.get(v.args[0], "v", st), v.args[1]), st)

    def eq(self, a, b, st, node):
        def leaf(x, y, s):
            for p, q in ((x, y), (y, x)):
                if p.op == "inst":
                    p = self.thaw(p, node, s)
                elif p.op != "obj":
                    p = self.symobj(p, s) or p
                if p.op == "obj" and self.kind(p) in ("inst", "sym") and isinstance(self.ocls(p), Class):
                    m = self.find_method(p, "__eq__")
                    if m is not None:
                        return self.truth(self.call(m, [q], {}, s, node), s)
                    if self.ocls(p).dataclass:
                        continue
                    return t.is_(x, y)
            return t.eq(self.plain(x, s), self.plain(y, s))

        return self.cases2(a, b, st, leaf)

    def in_(self, a, b, st, node):
        def leaf(x, c, s):
            if c.op == "obj":
                k = self.kind(c)
                if k == "dict":
                    return dict_has(self.get(c, "v", s), x)
                if k in ("list", "set", "deque"):
                    return t.in_(self.plain(x, s), self.get(c, "v", s))
                if k == "bytearray":
                    return t.in_(x, self.get(c, "v", s))
                m = self.find_method(c, "__contains__")
                if m is not None:
                    return self.truth(self.call(m, [x], {}, s, node), s)
            if c.op in ("gen", "genexp", "range", "zip"):
                return t.in_(x, self.to_seq(c, s, node))
            if c.op == "setof":
                c = c.args[0]
            if c.op == "ddslot":
                c = self.entry(c, s)
            if c.op in ("dictlog", "dictv"):
                return dict_has(c, x)
            return t.in_(self.plain(x, s), c)

        return self.cases2(a, b, st, leaf)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        op = type(e.op).__name__

        def go(x, y, s):
            return self.binop(op, x, y, s, e)

        if any(l.op in ("obj", "inst", "tuple") for v in (a, b) for l in t.leaves(v)):
            return self.cases2(a, b, st, go)
        return self.binop(op, a, b, st, e)

    def binop(self, op, a, b, st, node, inplace=False):
        ka, kb = None, None
        if op in ("Add", "Mult"):
            for v in (a, b):
                if v.op == "obj" and self.kind(v) in ("list", "bytearray"):
                    r = self.list_binop(op, a, b, st, node)
                    return r
        if op == "Add":
            sa, sb = t.seqty(a), t.seqty(b)
            if a.op == "tuple" and b.op == "tuple":
                return t.tup(a.args + b.args)
            if a.op == "cat" and a.args[0] == "l" or b.op == "cat" and b.args[0] == "l":
                return t.cat("l", as_list(a), as_list(b))
            if sa or sb:
                k = sa or sb
                if k in ("b", "s", "l"):
                    return t.cat(k, a, b)
            ia, ib = ty(a), ty(b)
            if ia in ("i", "bool") or ib in ("i", "bool"):
                return t.add(a, b)
            return t.lift(lambda x, y: raw("add", x, y), a, b)
        if op == "Sub":
            if a.op in ("setof",) or self.isobj(a, "set"):
                return raw("call", "set.difference", self.reify(a, st), self.reify(b, st))
            return t.sub(a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if is_const(x) and isinstance(cv(x), (str, bytes)):
                    if is_const(y) and isinstance(cv(y), int) and cv(y) < 100000:
                        return const(cv(x) * cv(y))
                    k = t.newk()
                    return t.mapcat(ty(x), y, k, x)
                if x.op == "tuple" and is_const(y):
                    return t.tup(x.args * cv(y))
                if t.seqty(x) in ("s", "b"):
                    k = t.newk()
                    return t.mapcat(ty(x), y, k, x)
            return t.mul(a, b)
        if op == "FloorDiv":
            if t.is_int_const(b) and cv(b) > 0:
                return t.floordiv(a, b)
            return t.rebuild("fdiv", [a, b])
        if op == "Div":
            return t.rebuild("div", [a, b])
        if op == "Mod":
            if ty(a) in ("s", "b"):
                return self.lib.percent(self, a, b, st, node)
            return t.mod(a, b)
        if op == "Pow":
            return t.pow_(a, b)
        if op == "LShift":
            return t.shl(a, b)
        if op == "RShift":
            return t.shr(a, b)
        if op == "BitAnd":
            if self.isobj(a, "set") or a.op == "setof":
                return raw("call", "set.intersection", self.reify(a, st), self.reify(b, st))
            return t.band(a, b)
        if op == "BitOr":
            if self.isobj(a, "set") or a.op == "setof":
                return self.mklist(t.cat("l", self.to_seq(a, st, node), self.to_seq(b, st, node)), node, st, kind="set")
            if ty(a) == "bool" and ty(b) == "bool":
                return or_(a, b)
            return t.bor(a, b)
        if op == "BitXor":
            return t.xor(a, b)
        return self.unk("operator " + op, node)

    def list_binop(self, op, a, b, st, node):
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if self.isobj(x, "list", "bytearray"):
                    seq = self.get(x, "v", st)
                    k = "l" if self.kind(x) == "list" else "b"
                    if is_const(y) and isinstance(cv(y), int) and cv(y) <= 64:
                        r = t.cat(k, *([seq] * cv(y)))
                    else:
                        r = t.mapcat(k, y, t.newk(), seq)
                    return self.mklist(r, node, st, kind=self.kind(x))
        isb = any(self.isobj(x, "bytearray") for x in (a, b))
        k = "b" if isb else "l"
        r = t.cat(k, as_list(self.content(a, st)) if not isb else self.content(a, st),
                  as_list(self.content(b, st)) if not isb else self.content(b, st))
        if isb and not self.isobj(a, "bytearray"):
            return r
        return self.mklist(r, node, st, kind="bytearray" if isb else "list")

    def e_Starred(self, e, st):
        return self.unk("starred expression", e)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.ev(v, st))
        return t.cat("s", *parts)

    def e_FormattedValue(self, e, st):
        v = self.ev(e.value, st)
        spec = None
        if e.format_spec is not None:
            spec = self.ev(e.format_spec, st)
        if e.conversion == ord("r"):
            v = self.repr_(v, st, e)
        elif e.conversion == ord("s"):
            v = self.str_(v, st, e)
        elif e.conversion == ord("a"):
            v = raw("call", "builtins.ascii", self.reify(v, st))
        return self.format_(v, spec, st, e)

    def format_(self, v, spec, st, node):
        if spec is None or spec is const(""):
            return self.str_(v, st, node)
        return self.lib.fmt(self.reify(v, st), spec)

    def str_(self, v, st, node):
        return self.cases(v, st, lambda x, s: self.text_of(x, s, node, ("__str__", "__repr__"), self.lib.str_of))

    def repr_(self, v, st, node):
        return self.cases(v, st, lambda x, s: self.text_of(x, s, node, ("__repr__",), self.lib.repr_of))

    def text_of(self, x, st, node, methods, plain):
        if x.op == "inst":
            x = self.thaw(x, node, st)
        if x.op == "obj" and self.kind(x) == "inst" and isinstance(self.ocls(x), Class):
            for mn in methods:
                m = self.find_method(x, mn)
                if m is not None:
                    return self.call(m, [], {}, st, node)
            d = self.default_repr(x, st, node)
            return plain(self.reify(x, st)) if d is None else d
        y = t.ty(x)
        if x.op != "obj" and isinstance(y, str) and y.startswith("o:") and y[2:] in self.classes:
            for mn in methods:
                if self.class_attr(self.classes[y[2:]], mn) is not None:
                    return self.call_method(x, mn, [], {}, st, node)
        r = self.reify(x, st)
        items, br = None, "[]"
        if r.op == "tuple":
            items, br = r.args, "()" if len(r.args) != 1 else ("(", ",)")
        elif r.op == "cat" and r.args[0] == "l" and all(p.op == "unit" for p in r.args[1:]):
            items = [p.args[0] for p in r.args[1:]]
        if items and any(isinstance(t.ty(i), str) and t.ty(i).startswith("o:") or i.op == "inst" for i in items):
            parts = [const(br[0])]
            for i, e in enumerate(items):
                parts += [const(", ")] * (i > 0) + [self.repr_(e, st, node)]
            return t.cat("s", *parts, const(br[1]))
        return plain(r)

    def default_repr(self, x, st, node):
        """objects without __repr__: all fields of a dataclass, type and address of others"""
        c = self.ocls(x)
        if c.enum or any(not b.startswith(("abc.", "typing.", "builtins.object")) for b in self.ext_bases(c)):
            return None
        if c.dataclass == "dataclass":
            parts = [const(c.name + "(")]
            for i, f in enumerate(c.fields):
                parts += [const((", " if i else "") + f + "="), self.repr_(self.get(x, f, st, NONE), st, node)]
            return t.cat("s", *parts, const(")"))
        if c.dataclass:
            return None
        return raw("call", "object.__repr__", const(c.qual))

    def e_Attribute(self, e, st):
        return self.get_attr(self.ev(e.value, st), e.attr, st, e)

    def mro(self, c):
        out, seen = [], set()

        def walk(x):
            if x.qual in seen:
                return
            seen.add(x.qual)
            out.append(x)
            for b in x.bases:
                if b.op == "class":
                    walk(self.classes[b.args[0]])

        walk(c)
        return out

    def ext_bases(self, c):
        return [b.args[0] for x in self.mro(c) for b in x.bases if b.op == "ext"]

    def class_attr(self, c, name, after=None):
        skip = after is not None
        for x in self.mro(c):
            if skip:
                if x.qual == after:
                    skip = False
                continue
            if name in x.attrs:
                return x.attrs[name]
        return None

    def subclasses(self, qual):
        return [c for c in self.class_order if any(b.op == "class" and b.args[0] == qual for b in c.bases)]

    def issub(self, c, qual):
        return any(x.qual == qual for x in self.mro(c))

    def find_method(self, v, name):
        if v.op == "obj":
            c = self.ocls(v)
            if isinstance(c, Class):
                a = self.class_attr(c, name)
                if a is not None:
                    return self.bind(a, v, raw("class", c.qual))
        return None

    def bind(self, a, selfv, clsv):
        if a.op == "func":
            return raw("bound", selfv, a)
        if a.op == "staticm":
            return a.args[0]
        if a.op == "classm":
            return raw("bound", clsv, a.args[0])
        if a.op == "cmfunc":
            return raw("bound", selfv, a)
        return a

    def get_attr(self, o, name, st, node):
        return self.cases(o, st, lambda x, s: self.get_attr1(x, name, s, node))

    def get_attr1(self, o, name, st, node):
        so = self.symobj(o, st)
        if so is not None:
            o = so
        if o.op == "inst":
            for i in range(2, len(o.args), 2):
                if cv(o.args[i]) == name:
                    return o.args[i + 1]
            o = self.thaw(o, node, st)
        if o.op == "setf":
            if cv(o.args[1]) == name:
                return o.args[2]
            return self.get_attr(o.args[0], name, st, node)
        if o.op == "obj":
            v = self.get(o, name, st)
            if v is not None and v.op != "undef":
                return v
            cls = self.ocls(o)
            if name == "__class__" and isinstance(cls, Class):
                return raw("class", cls.qual)
            if name == "__dict__":
                return self.unk("__dict__", node)
            if isinstance(cls, Class):
                a = self.class_attr(cls, name)
                if a is not None:
                    if a.op == "prop":
                        return self.call(a.args[0], [o], {}, st, node)
                    return self.bind(a, o, raw("class", cls.qual))
                ga = self.class_attr(cls, "__getattr__")
                if ga is not None:
                    return self.call(raw("bound", o, ga), [const(name)], {}, st, node)
                sy = self.get(o, "#sym", st)
                if sy is not None:
                    return raw("attr", sy, name)
            r = self.lib.obj_attr(self, o, name, st, node)
            if r is not None:
                return r
            return raw("ebound", o, name)
        if o.op == "class":
            c = self.classes[o.args[0]]
            if name in ("__name__", "__qualname__"):
                return const(c.name)
            if name == "__subclasses__":
                return raw("ebound", o, name)
            a = self.class_attr(c, name)
            if a is not None:
                if a.op == "func":
                    return a
                if a.op == "classm":
                    return raw("bound", o, a.args[0])
                if a.op == "staticm":
                    return a.args[0]
                return a
            return raw("ebound", o, name)
        if o.op == "mod":
            m = o.args[0]
            if m + "." + name in self.mods:
                self.load(m + "." + name)
                return raw("mod", m + "." + name)
            if m in self.mods:
                v = self.modvar(m, name)
                v = st.loc.get(("v", "m:" + m, name), v)
                if v is not None:
                    return v
            if m == self.source.package and name == "__version__":
                return raw("ext", "age.__version__")
            return raw("ext", m + "." + name)
        if o.op == "ext":
            n = self.lib.canon(o.args[0] + "." + name)
            r = self.lib.ext_attr(self, n, st, node)
            return r if r is not None else raw("ext", n)
        if o.op == "func":
            if name == "__doc__":
                return NONE
            if name in ("__name__", "__qualname__"):
                return const(self.funcs[o.args[0]].name)
            return raw("ebound", o, name)
        if o.op == "superobj":
            selfv, cq = o.args
            if selfv.op == "obj":
                c = self.ocls(selfv)
            else:
                c = self.classes[selfv.args[0]]
            a = self.class_attr(c, name, after=cq)
            if a is not None:
                if a.op == "prop":
                    return self.call(a.args[0], [selfv], {}, st, node)
                return self.bind(a, selfv, raw("class", c.qual))
            return raw("ebound", raw("basesuper", selfv), name)
        if o.op == "prop":
            return raw("attr", o, name)
        if o.op == "dictv" or o.op == "dictlog":
            return raw("ebound", o, name)
        if o.op == "unknown":
            return o
        r = self.lib.value_attr(self, o, name, st, node)
        if r is not None:
            return r
        return raw("ebound", o, name)

    # slices ------------------------------------------------------------------------

    def ev_slice(self, s, st):
        if isinstance(s, ast.Slice):
            return ("slice", self.ev(s.lower, st) if s.lower else NONE, self.ev(s.upper, st) if s.upper else NONE,
                    self.ev(s.step, st) if s.step else NONE)
        return self.ev(s, st)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if o.op in ("ext",) or o.op == "class":
            return o  # typing subscripts
        i = self.ev_slice(e.slice, st)
        return self.subscript(o, i, st, e)

    def subscript(self, o, i, st, node):
        return self.cases(o, st, lambda x, s: self.subscript1(x, i, s, node))

    def subscript1(self, o, i, st, node):
        if o.op == "ddslot":
            o = self.entry(o, st)
        if o.op in ("gen", "genexp"):
            o = self.to_seq(o, st, node)
        if o.op == "range":
            o = self.to_seq(o, st, node)
        if isinstance(i, T) and i.op == "slicev":
            i = ("slice",) + i.args
        if isinstance(i, tuple):
            _, a, b, step = i
            seq = self.content(o, st)
            if seq.op == "unknown":
                return seq
            if step is not NONE and step is not const(1):
                if step is const(-1) and a is NONE and b is NONE:
                    r = t.rebuild("rev", [seq])
                else:
                    r = t.rebuild("stepslice", [seq, a, b, step])
            else:
                r = t.lift(lambda q: t.slice_(q, a, b), seq) if seq.op == "ite" else t.slice_(seq, a, b)
            if self.isobj(o, "list"):
                return self.mklist(r, node, st)
            return r
        if o.op == "obj":
            k = self.kind(o)
            if k == "dict":
                return self.dict_get(o, i, st, node)
            if k in ("list", "bytearray", "deque"):
                seq = self.get(o, "v", st)
                if self.catching("IndexError") or t.is_int_const(i):
                    self.raise_if(self.out_of_range(seq, i), "IndexError", st, node)
                return t.index(seq, i)
            m = self.find_method(o, "__getitem__")
            if m is not None:
                return self.call(m, [i], {}, st, node)
            c = self.ocls(o)
            if isinstance(c, Class) and c.dataclass == "namedtuple" and t.is_int_const(i):
                return self.get(o, c.fields[cv(i)], st)
        if o.op in ("dictv", "dictlog"):
            return dict_index(o, i)
        if o.op == "unknown":
            return o
        if o.op == "inst" and cv(o.args[0]) == "inst":
            o2 = self.thaw(o, node, st)
            return self.subscript1(o2, i, st, node)
        if (self.catching("IndexError") or t.is_int_const(i)) and (t.seqty(o) or o.op == "mcall" and t.seqty(o)):
            self.raise_if(self.out_of_range(o, i), "IndexError", st, node)
        if o.op == "match":
            return self.lib.match_group(o, i)
        return t.index(o, self.plain(i, st))

    def out_of_range(self, seq, i):
        if t.is_int_const(i):
            n = cv(i)
            return not_(t.ge(t.length(seq), const(n + 1 if n >= 0 else -n)))
        return not_(t.ge(t.length(seq), t.add(i, const(1))))

    def dict_get(self, o, i, st, node):
        d = self.get(o, "v", st)
        if self.get(o, "#default", st) is not None:
            return raw("ddget", o, i) if False else self.default_get(o, i, st, node)
        has = self.simp(dict_has(d, i), st)
        if d.op == "dictv" or self.catching("KeyError"):
            self.raise_if(not_(has), "KeyError", st, node)
        r = self.simp(dict_index(d, i), st)
        if d.op != "dictv" and not _has_obj(r):
            return raw("ddslot", o, i)
        return r

    def slot(self, v, st):
        """the dictionary entry that v is the current value of"""
        return v if v.op == "ddslot" else None

    def default_get(self, o, i, st, node):
        # a look-up creates the entry
        self.put(o, "v", dict_op(self.get(o, "v", st), "extend", i, t.EMPTY), st, node)
        return raw("ddslot", o, i)

    # comprehension --------------------------------------------------------------------

    def e_ListComp(self, e, st):
        return self.mklist(self.comp(e, st, lambda x, s: t.unit(self.ev(e.elt, s))), e, st)

    def e_SetComp(self, e, st):
        return self.mklist(self.comp(e, st, lambda x, s: t.unit(self.ev(e.elt, s))), e, st, kind="set")

    def e_DictComp(self, e, st):
        seq = self.comp(e, st, lambda x, s: t.unit(t.tup([self.ev(e.key, s), self.ev(e.value, s)])))
        return self.alloc("dict", e, st, v=dict_from_pairs(seq))

    def e_GeneratorExp(self, e, st):
        # evaluated where it is consumed; the first iterable is evaluated here
        first = self.ev(e.generators[0].iter, st)
        gid = self.site(e, "!genexp")
        self.genexps[gid] = (e, self.frame, first)
        return raw("genexp", gid, first)

    @property
    def genexps(self):
        return self.__dict__.setdefault("_genexps", {})

    def comp(self, e, st, elt, frame=None, first=None):
        """list content of a comprehension"""
        acc = self.alloc("list", e, st, v=t.EMPTY, tag="comp")

        def body(x, s):
            v = elt(x, s)
            if not s.dead:
                self.put(acc, "v", t.cat("l", self.get(acc, "v", s), v), s)
            return NONE

        self.comp_iter(e, st, body, first)
        return self.get(acc, "v", st)

    def comp_iter(self, e, st, body, first=None):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        outer = self.frame
        sc = Scope(self.site(e, "/comp"), outer.scope, outer.module, names)
        fr = Frame(outer.name, sc, outer.module, outer.cls, outer.first, outer.node)
        fr.label = outer.label
        fr.loop = None
        fr.yield_cb = outer.yield_cb

        def level(i, s):
            if i >= len(e.generators):
                return body(None, s)
            g = e.generators[i]
            if i == 0 and first is not None:
                itv = first
            else:
                if i == 0:
                    cur, self.frame = self.frame, outer
                    itv = self.ev(g.iter, s)
                    self.frame = cur
                else:
                    itv = self.ev(g.iter, s)

            def each(x, s2):
                old = self.frame
                self.frame = fr
                try:
                    self.assign(g.target, x, s2)
                    conds = list(g.ifs)

                    def filt(j, s3):
                        if j >= len(conds):
                            level(i + 1, s3)
                            return None
                        c = self.ev_cond(conds[j], s3)
                        return self.branch(c, s3, lambda y: filt(j + 1, y), lambda y: None)

                    filt(0, s2)
                finally:
                    self.frame = old

            self.iterate(itv, s, each, g.iter)

        self.frame = fr
        try:
            level(0, st)
        finally:
            self.frame = outer

    # ------------------------------------------------------------------ iteration

    def s_For(self, s, st):
        itv = self.ev(s.iter, st)
        if st.dead:
            return
        fr = self.frame
        label = object()

        def body(x, s2):
            cur = self.frame
            self.frame = fr
            old = getattr(fr, "loop", None)
            fr.loop = label
            try:
                ex = self.region(s2, lambda s3: (self.assign(s.target, x, s3), self.block(s.body, s3)))
            finally:
                fr.loop = old
                self.frame = cur
            conts = [] if s2.dead else [(s2.copy(), None)]
            for e in ex:
                if e.kind == "continue" and e.label is label:
                    conts.append((e.st, None))
                else:
                    self.collect[-1].append(e)
            m, _ = self.merge_n(conts)
            if m is None:
                s2.pc = FALSE
            else:
                s2.become(m)

        def run(x):
            self.iterate(itv, x, body, s)
            if s.orelse and not x.dead:
                old = getattr(fr, "loop", None)
                self.block(s.orelse, x)

        self.finish_loop(st, run, label)

    def finish_loop(self, st, run, label):
        ex = self.region(st, run)
        after = [] if st.dead else [(st.copy(), None)]
        for e in ex:
            if e.kind == "break" and e.label is label:
                after.append((e.st, None))
            else:
                self.collect[-1].append(e)
        m, _ = self.merge_n(after)
        if m is None:
            st.pc = FALSE
        else:
            st.become(m)

    def s_While(self, s, st):
        fr = self.frame
        label = object()
        brk = object()

        def body(k, s2):
            cur = self.frame
            self.frame = fr
            old = getattr(fr, "loop", None)
            fr.loop = label
            try:
                def inner(s3):
                    c = self.ev_cond(s.test, s3)
                    c = self.simp(c, s3)
                    if c is not TRUE:
                        s4 = s3.copy()
                        s4.pc = and_(s3.pc, not_(c))
                        if not s4.dead:
                            self.collect[-1].append(Exit("break", s4, None, brk, self.here(s)))
                        s3.pc = and_(s3.pc, c)
                    if not s3.dead:
                        self.block(s.body, s3)
                ex = self.region(s2, inner)
            finally:
                fr.loop = old
                self.frame = cur
            conts = [] if s2.dead else [(s2.copy(), None)]
            for e in ex:
                if e.kind == "continue" and e.label is label:
                    conts.append((e.st, None))
                else:
                    self.collect[-1].append(e)
            m, _ = self.merge_n(conts)
            if m is None:
                s2.pc = FALSE
            else:
                s2.become(m)

        def run(x):
            # try to unroll loops whose condition is decided at every iteration
            if self.unroll_while(s, x, body, brk):
                pass
            else:
                self.sym_loop(x, INF, body, s, brk=brk)
            if s.orelse and not x.dead:
                self.block(s.orelse, x)

        def run2(x):
            # the normal exit of the condition is a break to brk
            ex = self.region(x, lambda y: run_inner(y))
            after = [] if x.dead else [(x.copy(), None)]
            for e in ex:
                if e.kind == "break" and e.label is brk:
                    after.append((e.st, None))
                else:
                    self.collect[-1].append(e)
            m, _ = self.merge_n(after)
            if m is None:
                x.pc = FALSE
            else:
                x.become(m)
            if s.orelse and not x.dead:
                self.block(s.orelse, x)

        def run_inner(x):
            if not self.unroll_while(s, x, body, brk):
                self.sym_loop(x, INF, body, s, brk=brk)

        self.finish_loop(st, run2, label)

    def unroll_while(self, s, st, body, brk):
        """concrete unrolling as long as every iteration's exits are decided"""
        trial = st.copy()
        mark = len(self.events)
        imp = len(self.imprecise)
        outer = []
        for i in range(40):
            self.path.append("#%d" % i)
            ex = self.region(trial, lambda x: body(None, x))
            self.path.pop()
            if any(e.kind == "break" and e.label is brk for e in ex) and not trial.dead:
                break
            outer += ex
            if trial.dead:
                if any(e.kind == "break" and e.label is brk for e in ex) and len(ex) > 0:
                    for e in outer:
                        self.collect[-1].append(e)
                    st.pc = FALSE
                    return True
                for e in outer:
                    self.collect[-1].append(e)
                st.pc = FALSE
                return True
        del self.events[mark:]
        del self.imprecise[imp:]
        return False

    def range_len(self, r):
        a, b, s = r.args
        if t.is_int_const(s) and cv(s) < 0:
            n = t.ceildiv(t.sub(a, b), const(-cv(s)))
        else:
            n = t.ceildiv(t.sub(b, a), s)
        return n

    def as_iter(self, v, st, node):
        """-> (n, elem(k)->T, concrete items or None) for sequence-like values"""
        if v.op == "range":
            a, b, s = v.args
            if all(t.is_int_const(x) for x in v.args):
                r = range(cv(a), cv(b), cv(s))
                if len(r) <= 300:
                    return None, None, [const(i) for i in r]
            n = self.range_len(v)
            return n, (lambda k: t.add(a, t.mul(s, k))), None
        if v.op == "obj":
            k = self.kind(v)
            if k in ("list", "set", "deque", "bytearray"):
                x = self.get(v, "v", st)
                return self.as_iter(t.rebuild("uniq", [x]) if k == "set" else x, st, node)
            if k == "dict":
                d = self.get(v, "v", st)
                if d.op == "dictv":
                    return None, None, list(d.args[::2])
                return self.as_iter(raw("dkeys", d), st, node)
            if k in ("bytesio", "stringio", "file", "absstream", "textio", "std"):
                return "lines", None, None
            c = self.ocls(v)
            if isinstance(c, Class) and c.dataclass == "namedtuple":
                return None, None, [self.get(v, f, st) for f in c.fields]
        if v.op == "tuple":
            return None, None, list(v.args)
        if v.op == "setof":
            return self.as_iter(t.rebuild("uniq", [v.args[0]]), st, node)
        if is_const(v) and isinstance(cv(v), (str, bytes)) and len(cv(v)) <= 128:
            return None, None, [const(x) for x in cv(v)]
        if v.op == "cat" and all(p.op == "unit" for p in v.args[1:]) and v.args[0] == "l":
            return None, None, [p.args[0] for p in v.args[1:]]
        if v.op == "unknown":
            self.warn("iteration over unknown value", node)
        return t.length(v), (lambda k: t.index(v, k)), None

    def iterate(self, v, st, body, node, again=False):
        """run body(elem, state) for every element of v"""
        if not again:
            v = self.simp(v, st)
        if v.op == "ite" and any(x.op in self.SPECIAL + ("tuple", "cat", "mapcat", "undef") for x in t.leaves(v)):
            a, hi, lo = v.args
            if hi.op == "undef":
                return self.iterate(lo, st, body, node, True)
            if lo.op == "undef":
                return self.iterate(hi, st, body, node, True)
            self.branch(a, st, lambda s: self.iterate(t.assume(hi, a, True), s, body, node, True),
                        lambda s: self.iterate(t.assume(lo, a, False), s, body, node, True))
            return
        if v.op == "inst":
            v = self.thaw(v, node, st)
        if v.op == "obj" and self.kind(v) in ("list", "set", "deque"):
            c = self.get(v, "v", st)
            if c.op == "ite":
                return self.iterate(c, st, body, node)
            if _has_filter(c):
                return self.iterate_mapcat(c, st, body, node)
        if v.op == "mapcat" and v.args[0] == "l" and _has_filter(v):
            return self.iterate_mapcat(v, st, body, node)
        if v.op == "obj" and self.kind(v) == "inst":
            m = self.find_method(v, "__iter__")
            if m is not None:
                r = self.call(m, [], {}, st, node)
                if r is not v:
                    return self.iterate(r, st, body, node)
            r = self.lib.iter_lines(self, v, st, node, body)
            if r:
                return
        if v.op == "gen":
            fn, args, kwargs = self._gens[v.args[0]]

            def cb(x, s):
                body(x, s)
                return NONE

            self.call_func(fn, args, kwargs, st, node, yield_cb=cb)
            return
        if v.op == "genexp":
            e, fr, first = self.genexps[v.args[0]]
            cur = self.frame

            def each(_, s):
                x = self.ev(e.elt, s)
                old = self.frame
                self.frame = cur
                try:
                    if not s.dead:
                        body(x, s)
                finally:
                    self.frame = old
                return NONE

            self.frame = fr
            try:
                self.comp_iter(e, st, each, v.args[1] if len(v.args) > 1 else first)
            finally:
                self.frame = cur
            return
        if v.op == "enumerate":
            inner, start = v.args
            cnt = self.alloc("cell", node, st, tag="enum", v=start)

            def each(x, s):
                i = self.get(cnt, "v", s)
                self.put(cnt, "v", t.add(i, const(1)), s)
                body(t.tup([i, x]), s)

            return self.iterate(inner, st, each, node)
        if v.op == "zip":
            return self.iter_zip(v, st, body, node)
        if v.op == "mapiter":
            f = v.args[0]

            def each(x, s):
                y = self.call(f, [x], {}, s, node)
                if not s.dead:
                    body(y, s)

            return self.iterate(v.args[1], st, each, node)
        if v.op == "filteriter":
            f = v.args[0]

            def each(x, s):
                y = x if f is NONE else self.call(f, [x], {}, s, node)
                if not s.dead:
                    self.branch(self.truth(y, s), s, lambda z: body(x, z), lambda z: None)

            return self.iterate(v.args[1], st, each, node)
        if v.op == "chainiter":
            for x in v.args:
                if not st.dead:
                    self.iterate(x, st, body, node)
            return
        if v.op == "chainseq":
            return self.iterate(v.args[0], st, lambda x, s: self.iterate(x, s, body, node), node)
        if v.op == "iter":
            return self.iterate(v.args[0], st, body, node)
        if v.op == "sentinel":
            # iter(callable, sentinel)
            f, sent = v.args
            brk = object()

            def each(k, s):
                x = self.call(f, [], {}, s, node)
                c = self.eq(x, sent, s, node)
                c = self.simp(c, s)
                s4 = s.copy()
                s4.pc = and_(s.pc, c)
                if not s4.dead:
                    self.collect[-1].append(Exit("break", s4, None, brk, self.here(node)))
                s.pc = and_(s.pc, not_(c))
                if not s.dead:
                    body(x, s)

            self.finish_loop(st, lambda x: self.sym_loop(x, INF, each, node, brk=brk), brk)
            return
        if v.op == "countiter":
            start, step = v.args
            return self.sym_loop(st, INF, lambda k, s: body(t.add(start, t.mul(step, k)), s), node)
        if v.op == "reviter":
            n, el, items = self.as_iter(v.args[0], st, node)
            if items is not None:
                return self.iterate(t.tup(items[::-1]), st, body, node)
            return self.sym_loop(st, n, lambda k, s: body(el(t.sub(t.sub(n, const(1)), k)), s), node)
        n, el, items = self.as_iter(v, st, node)
        if isinstance(n, str):
            return self.lib.iter_lines(self, v, st, node, body)
        if items is not None:
            for i, x in enumerate(items):
                if st.dead:
                    return
                self.path.append("#%d" % i)
                try:
                    body(x, st)
                finally:
                    self.path.pop()
            return
        if n.op == "ite":
            a = n.args[0]
            # the length is a choice: keep it symbolic unless small
        self.sym_loop(st, n, lambda k, s: body(el(k), s), node)

    def iterate_mapcat(self, c, st, body, node):
        """iterate over a (filtered) comprehension by fusing with its own loop"""
        parts = list(c.args[1:]) if c.op == "cat" else [c]
        for p in parts:
            if st.dead:
                return
            if p.op == "unit":
                body(p.args[0], st)
            elif p.op == "mapcat":
                kind, n, lam = p.args

                def each(k, s, lam=lam):
                    e = t.open_(lam, k)

                    def leafs(x, s2):
                        if x.op == "ite":
                            return self.branch(x.args[0], s2, lambda y: leafs(x.args[1], y),
                                               lambda y: leafs(x.args[2], y))
                        if x is t.EMPTY:
                            return None
                        if x.op == "unit":
                            body(x.args[0], s2)
                        elif x.op == "cat":
                            for q in x.args[1:]:
                                if not s2.dead:
                                    leafs(q, s2)
                        else:
                            self.iterate(x, s2, body, node)
                        return None

                    leafs(e, s)

                self.sym_loop(st, n, each, node)
            elif p.op == "ite":
                self.iterate(p, st, body, node)
            else:
                self.iterate(p, st, body, node)

    def iter_zip(self, v, st, body, node):
        its = []
        for x in v.args:
            if x.op in ("gen", "genexp", "enumerate", "zip", "mapiter", "filteriter", "chainiter", "chainseq"):
                x = self.to_seq(x, st, node)
            if x.op == "countiter":
                its.append(("count", x))
                continue
            its.append(("seq", self.as_iter(self.simp(x, st), st, node)))
        seqs = [x for k, x in its if k == "seq"]
        if any(isinstance(x[0], str) for x in seqs) or not seqs:
            self.warn("zip over a stream", node)
            return
        if all(x[2] is not None for x in seqs):
            n = min(len(x[2]) for x in seqs)
            for i in range(n):
                if st.dead:
                    return
                vals = [x[2][i] if k == "seq" else t.add(x.args[0], t.mul(x.args[1], const(i))) for k, x in its]
                self.path.append("#%d" % i)
                body(t.tup(vals), st)
                self.path.pop()
            return
        lens = [const(len(x[2])) if x[2] is not None else x[0] for x in seqs]
        n = lens[0]
        for m in lens[1:]:
            if m is not n:
                n = ite(t.ge(n, m), m, n)

        def el(k, x, kd):
            if kd == "count":
                return t.add(x.args[0], t.mul(x.args[1], k))
            if x[2] is not None:
                return t.index(t.tup(x[2]), k)
            return x[1](k)

        self.sym_loop(st, n, lambda k, s: body(t.tup([el(k, x, kd) for kd, x in its]), s), node)

    def to_seq(self, v, st, node):
        """force an iterable value into a list term"""
        v = self.simp(v, st)
        if v.op == "ddslot":
            v = self.entry(v, st)
        if v.op == "obj" and self.kind(v) == "set":
            return t.rebuild("uniq", [self.get(v, "v", st)])
        if v.op == "obj" and self.kind(v) in ("list", "deque", "bytearray"):
            return self.get(v, "v", st)
        if v.op in ("cat", "mapcat", "slice") or is_const(v) and isinstance(cv(v), (str, bytes)):
            return v
        if v.op == "tuple":
            return t.mklist(v.args)
        if v.op == "setof":
            return t.rebuild("uniq", [v.args[0]])
        if v.op == "unknown":
            return v
        if v.op == "ite" and not any(x.op in self.SPECIAL for x in t.leaves(v)):
            return v
        if v.op == "range":
            n, el, items = self.as_iter(v, st, node)
            if items is not None:
                return t.mklist(items)
            k = t.newk()
            return t.mapcat("l", n, k, t.unit(el(k)))
        if v.op in self.SPECIAL or v.op in ("mapiter", "filteriter", "chainiter", "chainseq", "sentinel", "ite"):
            acc = self.alloc("list", node or ast.Constant(0), st, v=t.EMPTY, tag="seq")

            def body(x, s):
                self.put(acc, "v", t.cat("l", self.get(acc, "v", s), t.unit(x)), s)

            self.iterate(v, st, body, node)
            return self.get(acc, "v", st)
        return v

    def list_extend(self, lst, v, st, node):
        if self.isobj(lst, "bytearray"):
            if v.op == "obj":
                v = self.content(v, st)
            self.put(lst, "v", t.cat("b", self.get(lst, "v", st), self.lib.tobytes(self, v, st, node)), st, node)
            return
        seq = self.to_seq(v, st, node)
        self.put(lst, "v", t.cat("l", self.get(lst, "v", st), as_list(seq)), st, node)

    # ------------------------------------------------------------------ symbolic loops

    def sym_loop(self, st, n, body, node, brk=None):
        """analyse a loop of n iterations (INF for while); body(k, state)"""
        n0 = n
        if n.op == "ite":
            pass
        if t.is_int_const(n) and cv(n) <= 0:
            return
        if t.BOUND is not None and t.is_int_const(n) and cv(n) <= 8:
            for i in range(cv(n)):
                if st.dead:
                    return
                self.path.append("#%d" % i)
                try:
                    body(const(i), st)
                finally:
                    self.path.pop()
            return
        k = t.newk()
        lvs = {}
        start = st.loc
        mark = len(self.events)
        imp = len(self.imprecise)
        depth = 0
        carriers = {}
        while True:
            depth += 1
            if depth > 12:
                self.warn("loop analysis does not stabilise", node)
                return
            del self.events[mark:]
            del self.imprecise[imp:]
            s = State(dict(start), TRUE)
            for loc, lv in lvs.items():
                s.loc[loc] = lv
            self.pcs.append(st.pc)
            self.loops.append((n, k))
            try:
                ex = self.region(s, lambda x: body(k, x))
            finally:
                self.loops.pop()
                self.pcs.pop()
            # reify objects allocated in this iteration that survive into the next one
            new = set()
            if not s.dead:
                cand = [loc for loc, v in s.loc.items() if loc not in carriers and loc in start and self.isobj(start[loc], "list")
                        and v.op == "ite" and start[loc].args[0] not in self.global_objs and self.rebound_list(v, start[loc])]
                if cand:
                    # a variable that names one list now and another one in the next iteration:
                    # give it a list of its own whose content is carried
                    start = dict(start)
                    for loc in cand:
                        b = start[loc]
                        oid = "carrier:%s:%s" % (self.site(node), "/".join(str(x) for x in loc))
                        self.meta[oid] = ("list", None)
                        start[("h", oid, "v")] = start[("h", b.args[0], "v")]
                        start[loc] = raw("obj", oid)
                        if any(b in _objs(v) for v in start.values()):
                            imp += 1
                            self.imprecise.insert(imp - 1, "list rebound in a loop is aliased")
                        carriers[loc] = oid
                    st.loc = start
                    lvs = {}
                    continue
                for loc, oid in carriers.items():
                    self.settle_carrier(loc, oid, s, node)
                born = {x[1] for x in s.loc if x[0] == "h"} - {x[1] for x in start if x[0] == "h"}
                for loc, v in list(s.loc.items()):
                    if loc[0] == "h" and loc[1] in born:
                        continue
                    if _has_obj(v) and any(r.args[0] in born for r in _objs(v)):
                        s.loc[loc] = self.reify(v, s, born)
                for loc in list(s.loc):
                    if loc[0] == "h" and loc[1] in born:
                        continue
                    a, b = s.loc[loc], start.get(loc)
                    cur = lvs.get(loc)
                    if cur is None and (b is None or a is not b):
                        new.add(loc)
            if not new:
                # the assumed types of the carried values have to be those of what the body leaves in them
                for loc, lv in lvs.items():
                    v = s.loc.get(loc) if not s.dead else None
                    if v is not None and v is not lv and lv.args[2] is not None:
                        tn = ty(v)
                        if tn != lv.args[2] and not (lv.args[2] in ("i", "bool") and tn in ("i", "bool")) and not (lv.args[2][0] == "l" and (tn or "")[:1] == "l"):
                            lvs[loc] = t.newlv(str(loc[-1]), None)
                            new.add(loc)
                if not new:
                    break
                continue
            for loc in new:
                b = start.get(loc)
                tp = ty(b) if b is not None and b.op != "undef" else None
                tn = ty(s.loc[loc])
                if b is not None and b.op == "cat" and b.args[0] == "l":
                    tp = "l"
                if tp is None or b is None:
                    tp = tn
                elif tn != tp:
                    if not (tp in ("i", "bool") and tn in ("i", "bool")) and not (tp[0] == "l" and (tn or "")[:1] == "l"):
                        tp = None
                if tp == "none":
                    tp = None
                if tp and tp.startswith("l"):
                    tp = "l"
                lvs[loc] = t.newlv(str(loc[-1]), tp)
        events = self.events[mark:]
        del self.events[mark:]
        self.close_loop(st, n, k, lvs, s, ex, events, node, brk, mark)

    def rebound_list(self, v, b):
        lv = [x for x in t.leaves(v) if x.op != "undef"]
        return any(x is not b for x in lv) and all(self.isobj(x, "list") or (x.op != "obj" and (ty(x) or "")[:1] == "l") for x in lv)

    def settle_carrier(self, loc, oid, s, node):
        me = raw("obj", oid)
        v = s.loc.get(loc, UNDEF)
        if v is me:
            return
        others = {x for x in _objs(v) if x is not me}
        for o, x in list(s.loc.items()):
            if o == loc or not _has_obj(x):
                continue
            if any(r in others for r in _objs(x)) and not (o[0] == "h" and raw("obj", o[1]) in others):
                self.warn("list rebound in a loop is aliased", node)
            if me in _objs(x) and o != ("h", oid, "v"):
                s.loc[o] = self.reify(x, s, {oid})

        def leaf(x):
            if x.op == "undef":
                return x
            if self.isobj(x, "list"):
                return self.get(x, "v", s)
            if x.op == "obj" or (ty(x) or "")[:1] != "l":
                self.warn("list rebound in a loop to something else", node)
                return t.unknown("rebound list")
            return x
        s.loc[("h", oid, "v")] = t.lift(leaf, v)
        s.loc[loc] = me

    def close_loop(self, st, n, k, lvs, s, ex, events, node, brk, mark):
        start = st.loc
        dead_fall = s.dead
        nxt = {}
        init = {}
        for loc, lv in lvs.items():
            nxt[lv] = lv if dead_fall else s.loc.get(loc, UNDEF)
            init[lv] = start.get(loc, UNDEF)
        if not dead_fall:
            for lv in nxt:
                nxt[lv] = t.constrain(nxt[lv], s.pc) if nxt[lv].op == "ite" else nxt[lv]
        dom = (lambda x: x) if n is INF else (lambda x: t._dom_facts(n, k, x))
        # which carried values matter at all
        conds = [e.st.pc for e in ex]
        nxt = {lv: dom(x) for lv, x in nxt.items()}
        closed = solve(nxt, init, k)
        exc = []
        for e in ex:
            exc.append(dom(t.subst(e.st.pc, closed)))
        # while loops: turn a threshold exit into a bound
        if n is INF:
            for i, e in enumerate(ex):
                if e.kind == "break":
                    b, rest = threshold(exc[i], k)
                    if b is not None:
                        n = clamp0(b, start, self, st)
                        dom = lambda x: t._dom_facts(n, k, x)
                        nxt = {lv: dom(x) for lv, x in nxt.items()}
                        closed = solve(nxt, init, k)
                        bound_exit = i
                        exc = [dom(t.subst(e2.st.pc, closed)) for e2 in ex]
                        rest = t.subst(rest, closed)
                        exc[i] = dom(rest)
                        natural = i
                        break
            else:
                natural = None
        else:
            natural = None
        if n is INF and not ex:
            # never leaves
            st.pc = FALSE
            return
        exn = list(exc)
        anyx = or_(*exn) if exn else FALSE
        keep = not_(anyx) if anyx is not FALSE else TRUE
        if anyx is not FALSE:
            # while iteration j happened completely, no exit was taken in it
            kept = dom(not_(or_(*conds)))
            nxt = {lv: (t.constrain(x, kept) if x.op == "ite" else x) for lv, x in nxt.items()}
            closed2 = solve(dict(nxt), init, k, kept)
            if closed2 != closed:
                closed = closed2
                exn2 = []
                for i, e in enumerate(ex):
                    c = dom(t.subst(e.st.pc, closed))
                    exn2.append(c)
                if natural is not None:
                    b, rest = threshold(exn2[natural], k)
                    exn2[natural] = dom(rest) if b is not None else exn[natural]
                exn = exn2
                anyx = or_(*exn)
                keep = not_(anyx)
        loops_new = (n, k)
        # events of the body
        for ev in events:
            ev.args = [t.subst(a, closed) for a in ev.args]
            ev.pc = t.subst(ev.pc, closed)
            ev.loops = [(n, k) if lp[1] is k else (t.subst(lp[0], closed), lp[1]) for lp in ev.loops]
            self.events.append(ev)
        # normal completion
        whole = anyx
        if n is INF:
            some = TRUE  # a while loop that is left at all is left through one of its exits
        else:
            some = t.exists(n, k, whole)
        out = []
        base_pc = st.pc
        endk = {}
        if n is not INF and some is not TRUE:
            fin = State(dict(start), and_(base_pc, not_(some)))
            for loc, lv in lvs.items():
                v = closed[lv]
                v = at_end(v, k, n, nxt[lv], init[lv], closed)
                fin.loc[loc] = v
            if natural is not None:
                # leaving through the loop condition: the effects of evaluating it
                e = ex[natural]
                for loc, v in e.st.loc.items():
                    if loc in lvs or start.get(loc) is v:
                        continue
                    fin.loc[loc] = t.subst(t.subst(v, closed), {k: n})
                for loc, lv in lvs.items():
                    v = e.st.loc.get(loc)
                    if v is not None and v is not lv:
                        fin.loc[loc] = t.subst(t.subst(v, closed), {k: n})
                        if t.fv(fin.loc[loc]) & set(lvs.values()):
                            fin.loc[loc] = t.unknown("loop value")
            elif not dead_fall:
                for loc, v in s.loc.items():
                    if loc not in start and loc not in lvs:
                        fin.loc[loc] = t.unknown("loop local")
            out.append((fin, None))
        # exits in the first exiting iteration
        for e, c in zip(ex, exn):
            if c is FALSE:
                continue
            if n is INF:
                taken = raw_first_bool(n, k, whole, c)
            else:
                taken = and_(some, raw_first_bool(n, k, whole, c))
            x = State({}, and_(base_pc, taken))
            for loc, v in e.st.loc.items():
                if start.get(loc) is v:
                    x.loc[loc] = v
                    continue
                x.loc[loc] = first_value(n, k, whole, t.subst(v, closed), c)
            for loc, v in start.items():
                if loc not in x.loc:
                    x.loc[loc] = v
            val = e.val
            if val is not None:
                val = first_value(n, k, whole, t.subst(val, closed), c)
            ne = Exit(e.kind, x, val, e.label, e.site)
            self.collect[-1].append(ne)
        if out:
            st.become(out[0][0])
        else:
            st.pc = FALSE

    # ------------------------------------------------------------------ calls

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if not e.args:
                fr = self.frame
                return raw("superobj", fr.first, fr.cls)
            if len(e.args) == 2:
                c, o = self.ev(e.args[0], st), self.ev(e.args[1], st)
                return raw("superobj", o, c.args[0])
        f = self.ev(e.func, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                seq = self.to_seq(self.ev(a.value, st), st, a)
                if seq.op == "tuple":
                    args += list(seq.args)
                elif seq.op == "cat" and all(p.op == "unit" for p in seq.args[1:]):
                    args += [p.args[0] for p in seq.args[1:]]
                elif isinstance(e.func, ast.Name) or True:
                    args.append(raw("star", seq))
            else:
                args.append(self.ev(a, st))
        for kw in e.keywords:
            if kw.arg is None:
                d = self.ev(kw.value, st)
                dv = self.get(d, "v", st) if self.isobj(d, "dict") else d
                if dv.op == "dictv" and all(is_const(x) for x in dv.args[::2]):
                    for i in range(0, len(dv.args), 2):
                        kwargs[cv(dv.args[i])] = dv.args[i + 1]
                else:
                    self.warn("** argument", e)
            else:
                kwargs[kw.arg] = self.ev(kw.value, st)
        if st.dead:
            return NONE
        return self.call(f, args, kwargs, st, e)

    def call(self, f, args, kwargs, st, node):
        return self.cases(f, st, lambda x, s: self.call1(x, args, kwargs, s, node))

    def call_method(self, o, name, args, kwargs, st, node):
        return self.call(self.get_attr(o, name, st, node), args, kwargs, st, node)

    def call1(self, f, args, kwargs, st, node):
        o = f.op
        if o == "func":
            return self.call_func(self.funcs[f.args[0]], args, kwargs, st, node)
        if o == "bound":
            g = f.args[1]
            if g.op == "cmfunc":
                return self.make_cm(g.args[0], [f.args[0]] + list(args), kwargs, node)
            if g.op == "func":
                return self.call_func(self.funcs[g.args[0]], [f.args[0]] + list(args), kwargs, st, node)
            return self.call(g, [f.args[0]] + list(args), kwargs, st, node)
        if o == "cmfunc":
            return self.make_cm(f.args[0], list(args), kwargs, node)
        if o == "class":
            return self.instantiate(self.classes[f.args[0]], args, kwargs, st, node)
        if o == "ext":
            return self.lib.call(self, f.args[0], list(args), dict(kwargs), st, node)
        if o == "ebound":
            recv, name = f.args
            return self.lib.method(self, recv, name, list(args), dict(kwargs), st, node)
        if o == "partial":
            g = f.args[0]
            pos, kw = self._partials[f.args[1]]
            return self.call(g, list(pos) + list(args), {**kw, **kwargs}, st, node)
        if o == "staticm" or o == "classm":
            return self.call(f.args[0], args, kwargs, st, node)
        if o == "obj":
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kwargs, st, node)
        if o == "getter":
            kind, key = f.args
            if kind == "attr":
                return self.get_attr(args[0], cv(key), st, node)
            if kind == "item":
                return self.subscript(args[0], key, st, node)
            if kind == "method":
                return self.call_method(args[0], cv(key), [], {}, st, node)
        if o == "clickdeco":
            return self.lib.click_apply(self, f, args[0], node)
        if o == "unknown":
            self.warn("call of unknown value", node)
            return f
        if o == "undef":
            self.warn("call of undefined value", node)
            return t.unknown("undef call")
        return self.lib.call_value(self, f, list(args), dict(kwargs), st, node)

    @property
    def _partials(self):
        return self.__dict__.setdefault("__partials", {})

    @property
    def _gens(self):
        return self.__dict__.setdefault("__gens", {})

    @property
    def _gencms(self):
        return self.__dict__.setdefault("__gencms", {})

    def make_cm(self, f, args, kwargs, node):
        gid = self.site(node, "!cm")
        self._gencms[gid] = (self.funcs[f.args[0]], args, kwargs)
        return raw("gencm", gid)

    def bind_args(self, fn, args, kwargs, st, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        star = [x for x in args if isinstance(x, T) and x.op == "star"]
        if star:
            i = args.index(star[0])
            seq = star[0].args[0]
            rest = args[i + 1:]
            if not rest and len(names) > i and not a.vararg:
                need = [nm for nm in names[i:] if nm not in kwargs]
                nd = len(fn.defaults)
                req = [nm for nm in need if names.index(nm) < len(names) - nd]
                n = self.arity(seq)
                if n is None and len(req) < len(need):
                    self.warn("starred call arguments of unknown number", node)
                n = len(req) if n is None else n
                if n > len(need) or n < len(req):
                    self.warn("wrong number of arguments for %s" % fn.name, node)
                args = args[:i] + [t.index(seq, const(j)) for j in range(n)]
            elif a.vararg and len(names) <= i:
                args = args[:i]
                extra = t.cat("l", *[t.unit(x) for x in args[len(names):]], as_list(seq))
                for nm, v in zip(names, args):
                    env[nm] = v
                env[a.vararg.arg] = extra
                args = None
            else:
                self.warn("starred call arguments", node)
                args = args[:i]
        if args is not None:
            for nm, v in zip(names, args):
                env[nm] = v
            if a.vararg:
                env[a.vararg.arg] = t.tup(args[len(names):])
            elif len(args) > len(names):
                self.warn("too many arguments for %s" % fn.name, node)
        kw = {}
        for nm, v in kwargs.items():
            if nm in names or nm in [x.arg for x in a.kwonlyargs]:
                env[nm] = v
            else:
                kw[nm] = v
        if a.kwarg:
            d = raw("dictv", *[y for nm, v in kw.items() for y in (const(nm), v)])
            env[a.kwarg.arg] = self.alloc("dict", node, st, tag="kw", v=d)
        elif kw:
            self.warn("unexpected keyword arguments %s for %s" % (sorted(kw), fn.name), node)
        for nm, d in zip(names[len(names) - len(fn.defaults):], fn.defaults):
            env.setdefault(nm, d)
        for nm, d in fn.kwdefaults.items():
            env.setdefault(nm, d)
        for nm in names:
            if nm not in env:
                self.warn("missing argument %s for %s" % (nm, fn.name), node)
                env[nm] = t.unknown("missing argument")
        return env

    def arity(self, seq):
        """number of elements of an opaque result, from the annotations of the methods of that name"""
        if seq.op not in ("mcall", "call") or not isinstance(seq.args[0], str):
            return None
        name = seq.args[0].split(".")[-1]
        found = set()
        for c in self.classes.values():
            m = c.attrs.get(name)
            while m is not None and m.op in ("staticm", "classm"):
                m = m.args[0]
            if m is not None and m.op == "func":
                r = self.funcs[m.args[0]].node.returns
                if isinstance(r, ast.Subscript) and (getattr(r.value, "attr", None) or getattr(r.value, "id", None)) in ("Tuple", "tuple") and isinstance(r.slice, ast.Tuple):
                    found.add(None if any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in r.slice.elts) else len(r.slice.elts))
                elif r is not None:
                    found.add(None)
        return found.pop() if len(found) == 1 else None

    MAXDEPTH = 7

    def call_func(self, fn, args, kwargs, st, node, yield_cb=None):
        if fn.qual in self.stubs:
            # the scenario says what this function returns
            return self.call(self.lookup(self.stubs[fn.qual]), [], {}, st, node)
        if fn.qual in self.opaque and yield_cb is None:
            return self.opaque_call(fn.qual, fn, args, kwargs, st, node)
        if fn.is_gen and yield_cb is None:
            gid = self.site(node, "!gen")
            if gid in self._gens and self._gens[gid][0] is not fn:
                gid += "'" + fn.fid
            self._gens[gid] = (fn, args, kwargs)
            return raw("gen", gid, *[x for x in args if isinstance(x, T)])
        q = fn.qual
        if fn.cached and not self.loading and yield_cb is None:
            # the result of an earlier call with the same arguments
            self.event("<cached-call>", [const(q)], st, node)
            key = [self.reify(x, st) for x in args] + [raw("kw", k, self.reify(x, st)) for k, x in sorted(kwargs.items())]
            mk = ("v", "memo", fn.fid + ":" + ",".join(str(id(x)) for x in key))
            self._memokeys.append(key)
            old = st.loc.get(mk)
            if old is not None and all(x.op != "undef" for x in t.leaves(old)):
                return old
            if old is not None:
                self.warn("result of %s is remembered on some paths only" % q, node)
            fn.cached = False
            try:
                v = self.call_func(fn, args, kwargs, st, node)
            finally:
                fn.cached = True
            if not st.dead:
                st.loc[mk] = v
            return v
        if self.callcount.get(fn.fid, 0) >= self.MAXDEPTH:
            self.warn("recursion too deep in %s" % fn.name, node)
            return t.unknown("recursion")
        self.functions_seen.add(q)
        env = self.bind_args(fn, args, kwargs, st, node)
        if fn.names is None:
            fn.names = local_names(fn.node)
        names, glob, nonl = fn.names
        site = self.site(node)
        sid = "%s>%s" % (_short(site), _short(fn.fid))
        sc = Scope(sid, fn.scope if fn.scope.id[0] != "c" else fn.scope.parent, fn.module, names, glob, nonl)
        if fn.scope.names is None:
            sc.parent = None
        first = None
        a = fn.node.args
        pos = a.posonlyargs + a.args
        if pos:
            first = env.get(pos[0].arg)
        fr = Frame(fn.name, sc, fn.module, fn.cls, first, fn.node)
        fr.yield_cb = yield_cb
        fr.loop = None
        # a re-entered scope (loop body, unrolled loop) starts clean
        for kx in [kx for kx in st.loc if kx[0] == "v" and kx[1] == sid]:
            del st.loc[kx]
        for nm, v in env.items():
            st.loc[("v", sid, nm)] = v
        saved = (self.frame, self.path)
        self.callcount[fn.fid] = self.callcount.get(fn.fid, 0) + 1
        self.stack.append(self.here(node))
        self.frame = fr
        self.path = []
        self.pcs.append(st.pc)
        base = st.pc
        st.pc = TRUE
        try:
            if isinstance(fn.node, ast.Lambda):
                val = []
                ex = self.region(st, lambda x: val.append(self.ev(fn.node.body, x)))
                if not st.dead:
                    ex.append(Exit("return", st.copy(), val[0], fr.label))
            else:
                ex = self.region(st, lambda x: self.block(fn.node.body, x))
                if not st.dead:
                    ex.append(Exit("return", st.copy(), NONE, fr.label))
        finally:
            self.frame, self.path = saved
            self.stack.pop()
            self.pcs.pop()
            self.callcount[fn.fid] -= 1
        rets = []
        for e in ex:
            if e.kind == "return" and e.label is fr.label:
                rets.append((e.st, e.val))
            else:
                e.st.pc = and_(base, e.st.pc)
                self.cleanup(e.st, sid, fn)
                if not e.st.dead:
                    self.collect[-1].append(e)
        m, v = self.merge_n(rets)
        if m is None:
            st.pc = FALSE
            return NONE
        self.cleanup(m, sid, fn)
        m.pc = and_(base, m.pc)
        st.become(m)
        return v

    def cleanup(self, st, sid, fn):
        if _has_nested(fn.node):
            return
        for kx in [kx for kx in st.loc if kx[0] == "v" and kx[1] == sid]:
            del st.loc[kx]

    def opaque_call(self, q, fn, args, kwargs, st, node):
        a = fn.node.args
        if fn.cls and args and args[0].op in ("class",):
            pass
        env = self.bind_args(fn, args, kwargs, st, node)
        vals = []
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            v = self.reify(env.get(x.arg, NONE), st)
            vals.append(t.bag(v) if (q, i) in self.bags else v)
        r = raw("call", q, *vals)
        self.event(q, vals, st, node)
        self.lib.maybe_raise(self, q, r, st, node)
        return r

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        cb = self.frame.yield_cb
        if cb is None:
            return self.unk("yield outside of a consumed generator", e)
        if st.dead:
            return NONE
        fr = self.frame
        cb(v, st)
        self.frame = fr
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        cb = self.frame.yield_cb
        if cb is None:
            return self.unk("yield from", e)
        fr = self.frame

        def body(x, s):
            cb(x, s)
            self.frame = fr

        self.iterate(v, st, body, e)
        return NONE

    def e_Await(self, e, st):
        return self.unk("await", e)

    def instantiate(self, c, args, kwargs, st, node):
        if c.qual in self.opaque:
            vals = [self.reify(x, st) for x in args] + [self.reify(kwargs[x], st) for x in sorted(kwargs)]
            r = raw("call", c.qual, *vals)
            self.event(c.qual, vals, st, node)
            return r
        if any(b.split(".")[-1] in t.EXC_PARENT or b.split(".")[-1] in ("Exception", "BaseException")
               for b in self.ext_bases(c)) and self.class_attr(c, "__init__") is None:
            return self.alloc("inst", node, st, cls=c, tag="!" + c.qual, args=t.tup([self.reify(a, st) for a in args]))
        if c.enum:
            return self.unk("enum call", node)
        o = self.alloc("inst", node, st, cls=c, tag="!" + c.qual)
        oid = o.args[0]
        new = self.class_attr(c, "__new__")
        if new is not None:
            self.warn("__new__", node)
        for b in self.ext_bases(c):
            self.lib.init_base(self, o, b, st, node)
        init = self.class_attr(c, "__init__")
        if init is not None:
            self.call(raw("bound", o, init), args, kwargs, st, node)
        elif c.dataclass:
            vals = {}
            for f, v in zip(c.fields, args):
                vals[f] = v
            vals.update(kwargs)
            for f in c.fields:
                if f in vals:
                    self.put(o, f, vals[f], st)
                elif f in c.attrs:
                    d = c.attrs[f]
                    if d.op == "dcfield":
                        d = self.call(d.args[0], [], {}, st, node)
                    self.put(o, f, d, st)
            p = self.class_attr(c, "__post_init__")
            if p is not None:
                self.call(raw("bound", o, p), [], {}, st, node)
        elif args or kwargs:
            if not self.ext_bases(c):
                self.warn("arguments to a class without __init__", node)
        return o

    def isinstance_(self, v, cls, st, node):
        if cls.op == "tuple":
            return or_(*[self.isinstance_(v, c, st, node) for c in cls.args])

        def leaf(x, c, s):
            if c.op == "tuple":
                return self.isinstance_(x, c, s, node)
            return self.lib.isinstance_(self, x, c, s, node)

        return self.cases2(v, cls, st, leaf)

    # ------------------------------------------------------------------ entry points

    def start(self, module="age.file"):
        st = State(dict(self.base.loc), TRUE)
        self.loading = False
        sc = Scope("top", None, module, None)
        self.frame = Frame("<check>", sc, module)
        self.frame.loop = None
        return st

    def run(self, fn, st):
        """run fn(state)->value; returns (exits, value)"""
        val = []
        ex = self.region(st, lambda x: val.append(fn(x)))
        return ex, (val[0] if val else NONE)


# ---------------------------------------------------------------------- helpers


def _short(site):
    # keep scope ids short but unique
    if len(site) < 60:
        return site
    import hashlib

    return hashlib.md5(site.encode()).hexdigest()[:12]


def _has_nested(node):
    for n in ast.walk(node):
        if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            return True
    return False


def _uses_exc(h):
    return any(isinstance(n, ast.Raise) for b in h.body for n in ast.walk(b))


_objmemo = {}


def _objs(v):
    r = _objmemo.get(v)
    if r is None:
        if v.op == "obj":
            r = frozenset([v])
        else:
            r = frozenset()
            for a in v.args:
                if isinstance(a, T):
                    o = _objs(a)
                    if o:
                        r = r | o
        _objmemo[v] = r
    return r


def _has_obj(v):
    return bool(_objs(v))


def _has_filter(c):
    """a comprehension whose body is not exactly one element"""
    if c.op == "mapcat" and c.args[0] == "l":
        return c.args[2].args[1].op != "unit"
    if c.op == "cat" and c.args[0] == "l":
        return len(c.args) > 2 and any(p.op == "mapcat" for p in c.args[1:]) or any(p.op == "ite" for p in c.args[1:])
    return False


def as_list(v):
    if v.op == "tuple":
        return t.mklist(v.args)
    if v.op == "ite":
        return ite(v.args[0], as_list(v.args[1]), as_list(v.args[2]))
    return v


def drop_undef(v):
    if v.op != "ite":
        return v
    a, hi, lo = v.args
    hi, lo = drop_undef(hi), drop_undef(lo)
    if hi.op == "undef":
        return lo
    if lo.op == "undef":
        return hi
    return ite(a, hi, lo)


def upd_last(seq, v):
    """sequence with its last element replaced"""
    def leaf(s):
        if s.op == "cat" and len(s.args) > 1 and s.args[-1].op == "unit":
            return raw("cat", "l", *(s.args[1:-1] + (t.unit(v),)))
        if s.op == "upd":
            return raw("upd", s.args[0], v)
        return raw("upd", s, v)

    return t.lift(leaf, seq)


def _inst_set(e, name, v):
    args = list(e.args)
    for i in range(2, len(args), 2):
        if cv(args[i]) == name:
            args[i + 1] = v
            return t.rebuild("inst", args)
    return t.rebuild("inst", args + [const(name), v])


# dictionaries: dictv(k1, v1, ...) with pairwise different constant-like keys, else dictlog(ops)


dict_set, dict_log, dict_op = t.dict_set, t.dict_log, t.dict_op


def dict_from_pairs(seq):
    if seq.op == "cat" and all(p.op == "unit" and p.args[0].op == "tuple" for p in seq.args[1:]):
        d = raw("dictv")
        for p in seq.args[1:]:
            d = dict_set(d, p.args[0].args[0], p.args[0].args[1])
        return d
    return raw("dictlog", raw("pairs", seq))


def dict_has(d, k):
    if d.op == "ite":
        return ite(d.args[0], dict_has(d.args[1], k), dict_has(d.args[2], k))
    if d.op == "dictv":
        return or_(*[t.eq(k, x) for x in d.args[::2]])
    return t.in_(k, d)


def dict_index(d, k):
    if d.op == "ite":
        return ite(d.args[0], dict_index(d.args[1], k), dict_index(d.args[2], k))
    if d.op == "dictv":
        if t._keylike(k):
            for i in range(0, len(d.args), 2):
                if d.args[i] is k:
                    return d.args[i + 1]
        out = None
        for i in range(len(d.args) - 2, -1, -2):
            out = d.args[i + 1] if out is None else ite(t.eq(k, d.args[i]), d.args[i + 1], out)
        return out if out is not None else raw("index", d, k)
    return t.index(d, k)


def dict_truth(d):
    if d.op == "ite":
        return ite(d.args[0], dict_truth(d.args[1]), dict_truth(d.args[2]))
    if d.op == "dictv":
        return TRUE if d.args else FALSE
    return raw("truth", d)


# ---------------------------------------------------------------------- loop closing


def raw_first_bool(n, k, cond, c):
    """condition c holds in the first iteration with cond"""
    if c is cond:
        return TRUE
    c2 = t._assume_all(t.constrain(c, cond), cond)
    if c2 is TRUE or c2 is FALSE:
        return c2
    return t.atfirst(n, k, cond, c2)


def first_value(n, k, cond, v, c):
    """v in the first iteration with cond, when that exit condition is c"""
    if k not in t.fv(v):
        return v
    v = t.constrain(v, c) if v.op == "ite" else v
    v = t._assume_all(v, c)
    return t.atfirst(n, k, cond, v)


def threshold(c, k):
    """c as (k >= B) or rest(k): returns (B, rest) or (None, c)"""
    def lit(a):
        """condition atom -> (bound, polarity) with  atom==polarity <=> k >= bound"""
        if a.op != "ge":
            return None
        L, b = a.args
        cc, d = t._lin_parts(L)
        co = d.get(k)
        if co is None:
            return None
        rest = {x: y for x, y in d.items() if x is not k}
        if any(k in t.fv(x) for x in rest):
            return None
        if any(x.op == "lv" for x in rest):
            return None
        R = t._mk_lin(cc, rest)
        if co > 0:
            # co*k + R >= b  <=> k >= ceil((b-R)/co)
            return t.ceildiv(t.sub(const(b), R), const(co)), True
        # -m k + R >= b <=> k <= floor((R-b)/m); false <=> k >= floor((R-b)/m)+1
        m = -co
        return t.add(t.floordiv(t.sub(R, const(b)), const(m)), const(1)), False

    def eqlit(a):
        if a.op != "ieq":
            return None
        return None

    if t.is_atom(c):
        r = lit(c)
        if r is not None and r[1]:
            return r[0], FALSE
        return None, c
    if c.op != "ite":
        return None, c
    for a in sorted(_tree_atoms(c), key=t.dkey):
        r = lit(a)
        if r is None:
            continue
        pos = t.assume(c, a, r[1])
        if pos is TRUE:
            return r[0], t.assume(c, a, not r[1])
    return None, c


def _tree_atoms(c):
    s = set()
    while_ = [c]
    while while_:
        x = while_.pop()
        if x.op == "ite":
            s.add(x.args[0])
            while_ += [x.args[1], x.args[2]]
        elif t.is_atom(x):
            s.add(x)
    return s


def clamp0(b, start, interp, st):
    return b


def at_end(v, k, n, nxt, init, closed):
    v2 = t.subst(v, {k: n})
    # value carried out of the last iteration: simplify  "k >= 1" using the bound itself
    return v2


def solve(nxt, init, k, keep=TRUE):
    """closed forms (in k) of the loop carried variables"""
    closed = {}
    todo = dict(nxt)
    progress = True
    pend = set(todo)

    def prev(x):
        return t.subst(x, {k: t.sub(k, const(1))})

    def kept(x):
        if keep is TRUE:
            return x
        kp = t.subst(keep, closed)
        return t.constrain(t._assume_all(x, kp), kp) if x.op == "ite" or t.is_atom(x) else x

    while pend:
        progress = False
        for lv in sorted(pend, key=lambda x: x.args[0]):
            x = t.subst(todo[lv], closed)
            x = kept(x)
            free = {y for y in t.fv(x) if y.op == "lv" and y in nxt}
            c = None
            if not free:
                c = last_value(x, init[lv], k, prev)
            elif free == {lv}:
                c = self_rec(lv, x, init[lv], k)
            if c is not None:
                closed[lv] = c
                pend.discard(lv)
                progress = True
        if progress or not pend:
            continue
        # general recursion: a fold over the smallest groups of variables that depend on each other
        upd = {x: kept(t.subst(todo[x], closed)) for x in pend}
        reach = {}
        for x in pend:
            seen, work = set(), [x]
            while work:
                for y in t.fv(upd[work.pop()]):
                    if y in upd and y not in seen:
                        seen.add(y)
                        work.append(y)
            reach[x] = seen
        ready = [x for x in pend if all(x in reach[y] for y in reach[x])]
        for lv in ready:
            closed[lv] = general(lv, {x: upd[x] for x in reach[lv] | {lv}}, init, k)
        pend -= set(ready)
    # resolve forms that mention each other
    for _ in range(3):
        ch = False
        for lv in closed:
            v = t.subst(closed[lv], {a: b for a, b in closed.items() if a is not lv})
            if v is not closed[lv]:
                closed[lv] = v
                ch = True
        if not ch:
            break
    return closed


def last_value(x, init, k, prev):
    g = prev(x)
    if init.op == "undef":
        return g
    g0 = t.subst(g, {k: const(0)})
    if g0 is init:
        return g
    if g is init:
        return g
    return ite(t.ge(k, const(1)), g, init)


def self_rec(lv, x, init, k):
    if x is lv:
        return init
    j = t.newk()
    # accumulation by concatenation
    tp = lv.args[2]
    suf = suffix(x, lv, tp)
    if suf is not None and lv not in t.fv(suf[1]):
        kind, s = suf
        return t.cat(kind, init, t.mapcat(kind, k, j, t.subst(s, {k: j})))
    pre = prefix(x, lv, tp)
    if pre is not None and lv not in t.fv(pre[1]):
        kind, s = pre
        # later elements come first
        return t.cat(kind, t.mapcat(kind, k, j, t.subst(s, {k: t.sub(t.sub(k, const(1)), j)})), init)
    # a list of a dictionary that grows
    if x.op == "dictlog" and x.args[0].op == "cat" and len(x.args[0].args) == 3:
        u, e = [p.args[0].args if p.op == "unit" else () for p in x.args[0].args[1:]]
        if len(u) == 2 and u[1] is lv and len(e) == 3 and e[0] is const("extend") and e[2] is not t.EMPTY:
            if not ({k, lv} & t.fv(e[1])) and lv not in t.fv(e[2]):
                r = dict_op(init, "extend", e[1], t.mapcat("l", k, j, t.subst(e[2], {k: j})))
                return r if t.dict_last(init, e[1]) else ite(t.ge(k, const(1)), r, init)
    # linear induction
    if tp in ("i", "bool") or t.is_int_const(init):
        d = t.sub(x, lv) if x.op != "ite" else delta(x, lv)
        if d is not None and lv not in t.fv(d):
            if k not in t.fv(d):
                return t.add(init, t.mul(d, k))
            (lam,) = t.close(j, t.subst(d, {k: j}))
            return t.add(init, raw("sum", k, lam))
    # consuming a sequence from the front
    if x.op == "slice" and x.args[0] is lv and x.args[2] is NONE and k not in t.fv(x.args[1]) and lv not in t.fv(x.args[1]):
        if not (t.is_int_const(x.args[1]) and cv(x.args[1]) < 0):
            return t.slice_(init, t.mul(x.args[1], k), NONE)
    if x.op == "dropl" and x.args[0] is lv and k not in t.fv(x.args[1]):
        return t.rebuild("dropl", [init, t.mul(x.args[1], k)])
    # flag: ite(c(k), CONST, lv)
    if x.op == "ite" or t.is_atom(x):
        f = flag(x, lv)
        if f is not None:
            c, v = f
            if lv not in t.fv(c) and lv not in t.fv(v) and k not in t.fv(v):
                return ite(t.exists(k, j, t.subst(c, {k: j})), v, init)
            # first hit: guarded by the initial value still being there
        g = first_hit(x, lv, init, k)
        if g is not None:
            return g
    return None


def first_hit(x, lv, init, k):
    """found = None; if found is None and c(k): found = v(k)"""
    if init is not NONE and not (t.is_const(init) and cv(init) is False):
        return None
    at0 = t.subst(x, {lv: init})
    f = at0
    # value once set must be stable: x == lv when lv is not init
    for probe in ("s", "b", "i", None):
        pass
    some = raw("param", "\0probe", "p:x")
    if init is NONE:
        stable = t.subst(x, {lv: some})
        if stable is not some:
            return None
    else:
        stable = t.subst(x, {lv: TRUE})
        if stable is not TRUE:
            return None
    c = FALSE
    v = None

    def walk(y, cond):
        nonlocal c, v
        if y.op == "ite":
            walk(y.args[1], and_(cond, y.args[0]))
            walk(y.args[2], and_(cond, not_(y.args[0])))
        elif y is not init:
            c = or_(c, cond)

    walk(at0, TRUE)
    if c is FALSE or lv in t.fv(at0):
        return None
    j = t.newk()
    cj, vj = t.subst(c, {k: j}), t.subst(t.constrain(at0, c), {k: j})
    return ite(t.exists(k, j, cj), t.atfirst(k, j, cj, vj), init)


def delta(x, lv):
    if x.op == "ite":
        a, b = delta(x.args[1], lv), delta(x.args[2], lv)
        if a is None or b is None:
            return None
        return ite(x.args[0], a, b)
    d = t.sub(x, lv)
    return d if lv not in t.fv(d) else None


def suffix(x, lv, tp):
    """x == lv ++ s : returns (kind, s)"""
    kind = tp if tp in ("b", "s", "l") else None

    def go(y):
        nonlocal kind
        if y is lv:
            return "e"
        if y.op == "cat" and len(y.args) > 1 and y.args[1] is lv:
            kind = kind or y.args[0]
            return t.cat(y.args[0], *y.args[2:])
        if y.op == "ite":
            a, b = go(y.args[1]), go(y.args[2])
            if a is None or b is None:
                return None
            if kind is None:
                return None
            a = t.empty(kind) if a == "e" else a
            b = t.empty(kind) if b == "e" else b
            return ite(y.args[0], a, b)
        return None

    r = go(x)
    if r is None or kind is None:
        return None
    return kind, (t.empty(kind) if isinstance(r, str) else r)


def prefix(x, lv, tp):
    if x.op == "cat" and len(x.args) > 1 and x.args[-1] is lv:
        return x.args[0], t.cat(x.args[0], *x.args[1:-1])
    return None


def flag(x, lv):
    """x == ite(c, v, lv)"""
    vals = {y for y in t.leaves(x) if y is not lv}
    if t.is_atom(x):
        if x is lv:
            return None
        return None
    if x.op == "ite" and lv.args[2] == "bool" and x.args[0] is lv:
        pass
    if len(vals) != 1:
        return None
    (v,) = vals

    def cond(y):
        if y is lv:
            return FALSE
        if y.op == "ite":
            return ite(y.args[0], cond(y.args[1]), cond(y.args[2]))
        return TRUE

    return cond(x), v


def general(lv, upd, init, k):
    """fold term for lv: depends on the mutually recursive variables in upd"""
    order = []

    def visit(v):
        if v in order:
            return
        order.append(v)
        x = upd[v]
        seen = []
        _lv_order(x, upd, seen, set())
        for y in seen:
            visit(y)

    visit(lv)
    i = t.newk()
    bodies = [t.subst(upd[v], {k: i}) for v in order]
    vs = list(order) + [i]
    lams = t.close(vs, *bodies)
    typ = lv.args[2]
    if typ == "l" and t._length(init[lv]) is const(0):
        et = elemtypes(upd[lv])
        if len(et) == 1 and None not in et:
            typ = "l:" + next(iter(et))
    return t._fold(typ, k, t.tup([init[v] if init[v].op != "undef" else UNDEF for v in order]), *lams)


def elemtypes(x):
    """types of the elements appended in a list-valued step"""
    out = set()
    for l in t.leaves(x):
        for p in (l.args[1:] if l.op == "cat" else (l,)):
            if p.op == "unit":
                e = p.args[0]
                out.add("o:" + cv(e.args[1]) if e.op == "inst" else ty(e))
            elif p.op == "upd" and p.args[0].op == "lv" or p.op == "lv":
                pass
            else:
                out.add(None)
    return out


def _lv_order(x, upd, out, seen):
    if x in seen:
        return
    seen.add(x)
    if x.op == "lv":
        if x in upd and x not in out:
            out.append(x)
        return
    if not t.fv(x):
        return
    for a in x.args:
        if isinstance(a, T):
            _lv_order(a, upd, out, seen)


