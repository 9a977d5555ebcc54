"""Deciding whether the analysed package agrees with a reference summary."""
import copy
import time

from . import terms as t
from .terms import FALSE, NONE, TRUE, and_, ite, not_, raw

# operations that are different spellings of things other code says differently; a value that uses one
# of them where the reference does not is not proof of a difference
SOFT = {
    "find", "rfind", "index_of", "partition", "rpartition", "rsplit", "split", "splitlines", "join", "count", "sum",
    "fmt", "textwrap", "re", "subset", "setof", "sorted", "foldv", "whl", "lv", "getattr", "map", "filter",
    "removeprefix", "removesuffix", "expandtabs", "ljust", "rjust", "zfill", "translate", "title", "center",
    "upd", "dictv", "dictlog", "max", "min", "sort", "inf", "gen", "iter", "zip", "reversed", "xor", "band", "bor", "shl",
    "shr", "mod", "pow", "bitlen", "ord", "chr", "hex", "toint", "content", "closure", "bound", "func", "unpack", "dictval", "<apply>",
}


def vocab(x, _memo=None):
    seen = set()
    out = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        out.add(y.op)
        if y.op in ("call", "mcall"):
            n = y.args[0]
            out.add(n if isinstance(n, str) else "?")
        todo += [a for a in y.args if isinstance(a, t.T)]
    return out


def pinned(x):
    """a small remainder of something that varies from item to item: no other spelling of it is in sight"""
    c = x.args[1]
    if not t.is_int_const(c) or not 1 < int(t.cv(c)) < 128:
        return False
    return t.hasvar(x.args[0])


def nodes(x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y not in seen:
            seen.add(y)
            todo += [a for a in y.args if isinstance(a, t.T)]
    return seen


def soft_names(x):
    out = set()
    rem = [y for y in nodes(x) if y.op in ("band", "mod")]
    names = vocab(x)
    for op in ("band", "mod"):
        ys = [y for y in rem if y.op == op]
        if ys and all(pinned(y) for y in ys):
            names.discard(op)
    for n in names:
        base = n.split(".")[-1]
        if base in SOFT or n.startswith(("re.", "builtins.", "textwrap.", "itertools.", "functools.", "operator.", "pathlib.", "string.", "collections.")):
            out.add(base)
    if "foldv" in names:  # what a loop carries along: another choice of it is another formulation
        out |= {"foldv of " + ", ".join(t.ty(i) or "?" for i in y.args[2].args) for y in nodes(x) if y.op == "foldv"}
    return out


def raises_atoms(x):
    return {a for a in t.atoms(x) if a.op == "raises" and not t.hasvar(a)}


class Diff:
    def __init__(self, aspect, got, want, why=""):
        self.aspect, self.got, self.want, self.why = aspect, got, want, why

    def text(self):
        d = t.diff(self.got, self.want) if self.got is not None and self.want is not None else None
        if d is None:
            return "%s: %s" % (self.aspect, self.why)
        a, b = d
        f = lambda x: (t.show(x, 7) if isinstance(x, t.T) else repr(x))[:700]
        return "%s: found %s, required %s" % (self.aspect, f(a), f(b))


def _canon2(a, b):
    return t.canon_fresh(a), t.canon_fresh(b)


def norm(s, aspects, drop, ren):
    """tuple of the compared aspects of a summary; `drop`: raises-atoms assumed not to happen"""
    ok = s.ok
    out = {}

    def low(x):
        for a in drop:
            x = t.assume(x, a, False)
        return x

    ok = low(ok)
    for a in aspects:
        if a == "ok":
            out[a] = ok
        elif a == "ret":
            out[a] = guard(ok, low(s.ret))
        elif a.startswith("out:"):
            v = s.outs.get(a[4:])
            out[a] = guard(ok, low(v)) if v is not None else NONE
        elif a.startswith("rest:"):
            v = s.rests.get(a[5:])
            out[a] = guard(ok, low(v)) if v is not None else NONE
        elif a.startswith("closed:"):
            v = s.closed.get(a[7:])
            out[a] = guard(ok, low(v)) if v is not None else NONE
        elif a.startswith("errout:"):
            v = s.errouts.get(a[7:])
            out[a] = guard(low(s.err), low(v)) if v is not None else NONE
        elif a.startswith("quiet:"):
            # nothing at all is written to the stream, whether it completes or fails
            v, w = s.outs.get(a[6:]), s.errouts.get(a[6:])
            e = t.const("")
            out[a] = t.tup([ite(ok, low(v), e) if v is not None else e, ite(low(s.err), low(w), e) if w is not None else e])
        elif a.startswith("raise:"):
            names = a[6:].split("|")
            p = t.or_(*[pc for c, pc, _v, _w in s.raises if any(t.exc_sub(c, n) for n in names)])
            out[a] = low(p)
        elif a == "exit0":
            out[a] = low(t.or_(*[pc for c, pc, v, _w in s.raises if c == "SystemExit" and exit_code(v) in (0, None, False)]))
        elif a.startswith("event:"):
            out[a] = low(events_term(s, a[6:]))
        else:
            raise ValueError(a)
    return out


def exit_code(v):
    if v is not None and v.op == "excval" and len(v.args) > 1 and t.is_const(v.args[1]):
        return t.cv(v.args[1])
    return 1


def guard(ok, v):
    if ok is TRUE or ok is FALSE:
        return v if ok is TRUE else NONE
    return ite(ok, v, raw("na"))


def events_term(s, name):
    """condition under which the named call happens with given arguments, as one comparable term"""
    d = {}
    for e in s.events:
        if e.name != name or e.pc is FALSE:
            continue
        args, pc, ns = list(e.args), e.pc, []
        for depth, (n, k) in enumerate(e.loops):
            if all(k not in t.fv(x) for x in args + [pc] + [m for m, _ in e.loops[depth + 1:]]):
                pc = and_(pc, t.ge(n, t.const(1)))  # the same in every iteration
                continue
            m = {k: raw("k", -1 - len(ns))}
            ns.append(n)
            args, pc = [t.subst(x, m) for x in args], t.subst(pc, m)
            ns = [t.subst(x, m) for x in ns]
        key = (t.tup(args), t.tup(ns))
        d[key] = t.or_(d.get(key, FALSE), pc)
    items = [t.tup([*k, v]) for k, v in d.items()]
    items.sort(key=t.dkey)
    return t.tup(items)


SEARCH = {"find", "rfind", "index_of", "rpartition", "rsplit", "split", "re", "removeprefix", "removesuffix"}


def handed_over(x, name):
    """every use of the operation is inside an argument of a call of a package function"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y in seen or y.op == "call" and isinstance(y.args[0], str) and y.args[0].startswith("age."):
            continue
        seen.add(y)
        if y.op == name or y.op in ("mcall", "call") and y.args[0] == name:
            return False
        todo += [a for a in y.args if isinstance(a, t.T)]
    return True


def settle(x, memo=None):
    """a case distinction on a == b whose cases are the same once a and b are: none"""
    memo = {} if memo is None else memo
    if not isinstance(x, t.T) or not any(isinstance(a, t.T) for a in x.args) or x.op == "lam":
        return x
    r = memo.get(x)
    if r is not None:
        return r
    args = [settle(a, memo) for a in x.args]
    r = x if all(a is b for a, b in zip(args, x.args)) else t.rebuild(x.op, args)
    if r.op == "ite" and r.args[0].op == "eq":
        a, b = r.args[0].args
        for p, q in ((a, b), (b, a)):
            if t.is_const(p):
                continue
            hi, lo = t.subst(r.args[1], {p: q}), t.subst(r.args[2], {p: q})
            if hi is lo or settle(hi) is settle(lo):
                r = r.args[2]
                break
    memo[x] = r
    return r


def settled(s):
    """the summary without case distinctions that make no difference (of a remembered and a fresh result, say)"""
    s = copy.copy(s)
    s.stateful = []
    s.ok, s.ret, s.err = settle(s.ok), settle(s.ret), settle(s.err)
    s.outs, s.errouts, s.closed, s.rests = [{k: settle(v) for k, v in d.items()} for d in (s.outs, s.errouts, s.closed, s.rests)]
    s.raises = [(c, settle(pc), settle(v), w) for c, pc, v, w in s.raises]
    return s


def compare(s, refs, aspects):
    """-> ("equal"|"differs"|"undecided", [Diff], notes)"""
    best = None
    for r in refs:
        d, notes = compare1(s, r, aspects)
        if not d and s.stateful:
            return "undecided", [], notes + ["the first run agrees, but state that outlives it is changed: " + "; ".join(s.stateful[:3])]
        if not d:
            return "equal", [], notes
        if best is None or len(d) < len(best[0]):
            best = (d, notes, r)
    d, notes, r = best
    # can the difference be believed?
    if s.imprecise:
        return "undecided", d, notes + ["analysis not exact: " + "; ".join(s.imprecise[:4])]
    ref_soft = set()
    for q in refs:
        for a in aspects:
            for v in norm(q, [a], (), None).values():
                ref_soft |= soft_names(v)
    for x in d:
        if x.got is not None and t.has_unknown(x.got):
            return "undecided", d, notes + ["value not resolved in " + x.aspect]
        if x.got is not None:
            extra = soft_names(x.got) - ref_soft
            if extra == {"partition"} and not ref_soft & SEARCH and handed_over(x.got, "partition"):
                extra = set()  # a part of a text is handed to a function of the package that gets the whole of it
            if extra:
                case = small_case(s, refs, aspects, d, ref_soft)
                case = case or fixed_case(s, refs, aspects, ref_soft) or far_case(s, refs, aspects, ref_soft)
                if case:
                    return "differs", case[0], notes + [case[1]]
                return "undecided", d, notes + ["unfamiliar formulation (%s) in %s" % (", ".join(sorted(extra)), x.aspect)]
    return "differs", d, notes


COUNTED = ("param", "call", "mcall", "line", "text", "textdecode")


def counts(x):
    """numbers of items (of an input or of a result of a boundary) that loops run over"""
    out = set()
    for y in nodes(x):
        if y.op in ("mapcat", "foldv"):
            n = y.args[1]
        elif y.op in ("exists", "first", "sum"):
            n = y.args[0]
        else:
            continue
        for m in nodes(n):
            if m.op in ("len", "nlines") and m.args[0].op in COUNTED and t.ty(m.args[0]) not in ("s",) and not t.hasvar(m) or m.op == "nlines" and not t.hasvar(m):
                out.add(m)
    return out


def small_case(s, refs, aspects, diffs, ref_soft):
    """the same comparison for inputs of 1, 2, 3 items, where accumulations can be written out"""
    aspects = [a for a in aspects if not a.startswith("event:")]
    if not aspects or s.stateful:
        return None
    vals = [(norm(s, aspects, (), None), norm(r, aspects, (), None), getattr(r.interp, "opaque_raises", {})) for r in refs]
    ns = set()
    for x, y, _d in vals:
        for a in aspects:
            ns |= counts(x[a]) | counts(y[a])
    if not ns:
        return None
    for k in (1, 2, 3):
        t.unroll = 6
        try:
            m = {n: t.const(k) for n in ns}
            found = []
            for x, y, declared in vals:
                ps = {a: (t.subst(x[a], m), t.subst(y[a], m)) for a in aspects}
                # failures that only one of the two talks about are assumed not to happen
                ra, rb = set(), set()
                for p, q in ps.values():
                    ra |= raises_atoms(p)
                    rb |= raises_atoms(q)
                drop = [a for a in ra ^ rb if not (a in rb and a.args[0].op == "call" and a.args[0].args[0] in declared)]
                for a in aspects:
                    p, q = ps[a]
                    for d in drop:
                        p, q = t.assume(p, d, False), t.assume(q, d, False)
                    if t.equal(p, q) or t.has_unknown(p) or t.size(p) > 2000000:
                        continue
                    if not soft_names(p) - ref_soft - soft_names(q) and not loops_left(p) and relations(p) <= relations(q) and views(p) <= views(q):
                        found.append(Diff(a, p, q))
                        break
                else:
                    break  # agrees with this reference, or nothing can be said
            if len(found) == len(vals):
                return found[:1], "for inputs with %d item%s" % (k, "s" * (k > 1))
        finally:
            t.unroll = 0
    return None


SIZES = (0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 65, 127, 128, 65535, 65536, 65537, 65551, 65552, 65553, 65568, 65569)
NUMBERS = (0, 1, -1, 2, 16, 18, 19, 22, 23, 63, 64, 65, 82, 127, 128, 255, 256, 1 << 32, (1 << 32) + 18)


def numbers(x):
    """integers an input can be chosen to have: lengths of inputs, integer inputs, integers read from text"""
    out = {}
    for y in nodes(x):
        if t.hasvar(y):
            continue
        if y.op == "len" and y.args[0].op == "param" and t.ty(y.args[0]) in ("b", "s"):
            out[y] = SIZES
        elif y.op == "param" and t.ty(y) == "i" or y.op == "call" and y.args[0] == "builtins.int" and len(y.args) == 2:
            out[y] = NUMBERS
    return out


def given(x, m):
    """x when computing m does not fail"""
    for d in raises_atoms(x):
        if d.args[0] is m:
            x = t.assume(x, d, False)
    return x


def views(x):
    """the ways in which inputs of bytes or text are looked at: which of them agree for an input of known length is not known"""
    return {(y.args[0] if y.op == "call" else y.op, a) for y in nodes(x) for a in y.args
            if isinstance(a, t.T) and (a.op == "param" and t.ty(a) in ("b", "s") or t.is_const(a) and t.cv(a) in (b"", ""))}


def fixed_case(s, refs, aspects, ref_soft):
    """the same comparison with the length of one input, or one integer, fixed"""
    aspects = [a for a in aspects if not a.startswith("event:")]
    if not aspects or s.stateful:
        return None
    vals = [(norm(s, aspects, (), None), norm(r, aspects, (), None)) for r in refs]
    ms = {}
    end = time.time() + 30
    for x, y in vals:
        for a in aspects:
            ms.update(numbers(x[a]))
            ms.update(numbers(y[a]))
    if not ms or len(ms) > 4 or any(t.size(z[a]) > 20000 for x in vals for z in x for a in aspects):
        return None
    for m in sorted(ms, key=repr):
        for k in ms[m]:
            found = []
            if time.time() > end:
                return None
            for x, y in vals:
                for a in aspects:
                    at = {m: t.const(k)}
                    if k == 0 and m.op == "len":
                        at[m.args[0]] = t.const(b"" if t.ty(m.args[0]) == "b" else "")
                    p, q = (t.subst(given(z[a], m), at) for z in (x, y))
                    ra, rb = raises_atoms(p), raises_atoms(q)
                    for d in ra ^ rb:
                        p, q = t.assume(p, d, False), t.assume(q, d, False)
                    if t.equal(p, q) or t.has_unknown(p):
                        continue
                    if not soft_names(p) - ref_soft - soft_names(q) and not loops_left(p) and relations(p) <= relations(q) and views(p) <= views(q):
                        found.append(Diff(a, p, q))
                        break
                else:
                    break
            if len(found) == len(vals):
                return found[:1], "for %s = %d" % (t.show(m, 6)[:80], k)
    return None


POINTS = (0, 1, 255, 256, 65535, 65536)


def far_case(s, refs, aspects, ref_soft):
    """one item of a long accumulation, for inputs long enough to have it: where a counter is cut short, say"""
    aspects = [a for a in aspects if not a.startswith("event:")]
    if not aspects or s.stateful:
        return None
    vals = [(norm(s, aspects, (), None), norm(r, aspects, (), None)) for r in refs]
    sizes = set()
    for x, y in vals:
        for a in aspects:
            for z in (x[a], y[a]):
                sizes |= {m.args[1] for m in nodes(z) if m.op == "mapcat" and not t.hasvar(m.args[1])}
    for n in sorted(sizes, key=repr)[:3]:
        lens = {m for m in nodes(n) if m.op == "len" and m.args[0].op == "param"}
        if len(lens) != 1:
            continue
        m = lens.pop()
        for j in POINTS:
            k = long_enough(n, m, max(j + 2, 70))
            if k is None:
                break
            found = []
            for x, y in vals:
                for a in aspects:
                    d = item_diff(t.subst(x[a], {m: t.const(k)}), t.subst(y[a], {m: t.const(k)}), j)
                    if d and not t.has_unknown(d[0]) and not loops_left(d[0]) and not soft_names(d[0]) - ref_soft - soft_names(d[1]):
                        found.append(Diff(a, d[0], d[1]))
                        break
                else:
                    break
            if len(found) == len(vals):
                return found[:1], "in item %d of an input of length %d" % (j, k)
    return None


def long_enough(n, m, want):
    """the least length that makes the number of items reach `want`"""
    lo, hi = 0, 1
    size = lambda k: t.subst(n, {m: t.const(k)})
    while True:
        v = size(hi)
        if not t.is_int_const(v) or hi > 1 << 40:
            return None
        if int(t.cv(v)) >= want:
            break
        lo, hi = hi, 2 * hi
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if int(t.cv(size(mid))) >= want:
            hi = mid
        else:
            lo = mid
    return hi


def item_diff(p, q, j):
    """the one place where two values differ, followed into item j of an accumulation -> (got, required)"""
    inside = False
    while p is not q and not t.equal(p, q):
        if p.op == q.op == "mapcat" and p.args[0] is q.args[0] and p.args[1] is q.args[1] and t.is_int_const(p.args[1]):
            if inside or not 0 <= j < int(t.cv(p.args[1])):
                return None
            p, q = (t.open_(z.args[2], t.const(j)) for z in (p, q))
            inside = True
            if t.length(p) is not t.length(q):
                return None
            continue
        if p.op in ("ite", "guard", "tup", "cat") and p.op == q.op and len(p.args) == len(q.args):
            kids = [(u, v) for u, v in zip(p.args, q.args) if u is not v]
            if len(kids) == 1 and all(isinstance(z, t.T) for z in kids[0]) and (p.op != "ite" or p.args[0] is q.args[0]):
                p, q = kids[0]
                continue
        return (p, q) if inside else None
    return None


def relations(x):
    """comparisons between several sizes: which combinations of them are possible is not worked out"""
    return {y for y in nodes(x) if y.op in ("ge", "ieq") and y.args[0].op == "lin" and sum(isinstance(a, t.T) and not t.is_const(a) for a in lin_terms(y.args[0])) > 1}


def lin_terms(x):
    return [a for a in x.args if isinstance(a, t.T)] + [b for a in x.args if isinstance(a, tuple) for b in a if isinstance(b, t.T)]


def loops_left(x):
    """a loop whose number of rounds is not one of an input or of a boundary's result"""
    for y in nodes(x):
        n = y.args[1] if y.op in ("mapcat", "foldv", "whl") and len(y.args) > 1 else y.args[0] if y.op in ("exists", "first", "sum") else None
        if isinstance(n, t.T) and any(m.op in ("inf", "first", "whl", "lv") for m in nodes(n)):
            return True
    return False


def same(s, r, aspects):
    x, y = norm(s, aspects, (), None), norm(r, aspects, (), None)
    return t.equal(t.tup([x[a] for a in aspects]), t.tup([y[a] for a in aspects]))


def compare1(s, r, aspects):
    diffs, notes = [], []
    if same(s, r, aspects):
        return [], []
    ra, rb = raises_atoms_of(s, aspects), raises_atoms_of(r, aspects)
    # failures the reference does not talk about have to make the scenario fail
    for only, summ, who in ((ra - rb, s, "package"), (rb - ra, r, "reference")):
        for a in only:
            hit = t.assume(summ.ok, a, True)
            # reachable only if the call is made at all
            if hit is not FALSE and a in t.atoms(summ.ok) and who == "package":
                diffs.append(Diff("ok", hit, FALSE, "a failing %s does not make the operation fail" % t.show(a, 5)[:300]))
            notes.append("assumed not to happen: " + t.show(a, 5)[:160])
    # what a boundary function may raise is the scenario's own declaration: it has to matter in the same way
    declared = getattr(r.interp, "opaque_raises", {})
    drop = [a for a in ra ^ rb if not (a in rb and a.args[0].op == "call" and a.args[0].args[0] in declared)]
    x = norm(s, aspects, drop, None)
    y = norm(r, aspects, drop, None)
    for a in aspects:
        if not t.equal(x[a], y[a]):
            diffs.append(Diff(a, x[a], y[a]))
    # the relation between the random draws of different aspects has to agree as well
    if not diffs:
        xa = t.tup([x[a] for a in aspects])
        ya = t.tup([y[a] for a in aspects])
        if not t.equal(xa, ya):
            diffs.append(Diff("+".join(aspects), xa, ya))
    return diffs, notes


def raises_atoms_of(s, aspects):
    out = raises_atoms(s.ok)
    for a in aspects:
        if a == "ret":
            out |= raises_atoms(s.ret)
        elif a.startswith("out:") and a[4:] in s.outs:
            out |= raises_atoms(s.outs[a[4:]])
        elif a.startswith(("raise:", "errout:", "quiet:")):
            out |= raises_atoms(s.err)
    return out
