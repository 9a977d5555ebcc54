"""Hash-consed value terms and their normal form.

A term describes where a value comes from (which inputs, which library calls, under which
branch conditions).  Conditionals are kept as reduced ordered decision trees hoisted above every
strict operation, loops as comprehension-like binders in locally-nameless form, integer arithmetic
as linear forms and byte/str/list concatenation as flattened monoid terms.  Two pieces of source
that compute the same value in a different style get the same term, so "does this sink receive the
right value" is decided by comparing terms.  No term is ever evaluated on data.
"""
import hashlib
import time
import itertools
from math import gcd

_TABLE = {}
_uid = itertools.count()


class T:
    __slots__ = ("op", "args", "_dig", "_fv", "_hgt", "_atoms", "_size", "__weakref__")

    def __repr__(self):
        return show(self)


def _key(op, args):
    return (op,) + tuple((type(a).__name__, a) if not isinstance(a, T) else a for a in args)


def raw(op, *args):
    k = _key(op, args)
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t._dig = t._fv = t._hgt = t._atoms = t._size = None
        _TABLE[k] = t
        if DEADLINE is not None and not len(_TABLE) & 1023 and time.time() > DEADLINE:
            raise Slow()
    return t


DEADLINE = None


class Slow(Exception):
    """the time for this part of the analysis is over"""


def dig(t):
    """digest used for ordering; open loop variables all look alike in it"""
    if t._dig is None:
        h = hashlib.sha1(t.op.encode())
        args = t.args
        if t.op in ("k", "lv"):
            args = ()
        if t.op == "fresh":  # the site is not part of the order
            args = args[1:]
        for a in args:
            if isinstance(a, T):
                h.update(dig(a))
            else:
                h.update((type(a).__name__ + repr(a)).encode())
            h.update(b"|")
        t._dig = h.digest()
    return t._dig


_varseqmemo = {}


def _varseq(t):
    """open loop variables in the order in which they first appear"""
    r = _varseqmemo.get(t)
    if r is None:
        if t.op in VARS:
            r = (t.args[0],)
        else:
            r = ()
            for a in t.args:
                if isinstance(a, T) and fv(a):
                    r += tuple(x for x in _varseq(a) if x not in r)
        _varseqmemo[t] = r
    return r


def dkey(t):
    return (dig(t), _varseq(t) if fv(t) else ())


def okey(t):
    """order of condition atoms in decision trees: failures of calls come last"""
    if t.op in ("ge", "ieq"):  # thresholds of one quantity in ascending order
        if t.args[0].op == "lin":
            return (1, hasvar(t), dkey(t.args[0]), 0 if t.op == "ieq" else 1, t.args[1])
        return (1, hasvar(t), dkey(t.args[0]), 0 if t.op == "ge" else 1, t.args[1])
    return ({"raises": 3, "exists": 0, "isinst": -1}.get(t.op, 1), hasvar(t), dkey(t), 2, 0)


_loosememo = {}


def _loose(t):
    """binder heights of bound variables that are not bound inside t"""
    r = _loosememo.get(t)
    if r is None:
        x = set()
        if t.op == "bv":
            x.add(t.args[0])
        else:
            for a in t.args:
                if isinstance(a, T):
                    x |= _loose(a)
            if t.op == "lam":
                x.discard(t.args[0])
        r = _loosememo[t] = frozenset(x)
    return r


def hasvar(t):
    """depends on a loop variable"""
    return bool(fv(t)) or bool(_loose(t))


def size(t):
    if t._size is None:
        t._size = 1 + sum(size(a) for a in t.args if isinstance(a, T))
    return t._size


VARS = ("k", "lv")


def fv(t):
    """free loop variables"""
    if t._fv is None:
        if t.op in VARS:
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    f = fv(a)
                    if f:
                        s = s | f
            t._fv = s
    return t._fv


def hgt(t):
    if t._hgt is None:
        h = 0
        for a in t.args:
            if isinstance(a, T):
                h = max(h, hgt(a))
        if t.op == "lam":
            h = max(h, t.args[0])
        t._hgt = h
    return t._hgt


BOOL_OPS = {
    "eq", "ge", "truth", "isinst", "exists", "raises", "in", "is", "startswith", "endswith",
    "lt", "noncanon", "isdigest", "subset", "anybyte",
}


def is_atom(t):
    return t.op in BOOL_OPS or (t.op in ("call", "mcall") and ty(t) == "bool")


def atoms(t):
    """all condition atoms occurring anywhere in t"""
    if t._atoms is None:
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s |= atoms(a)
        if is_atom(t):
            s.add(t)
        t._atoms = frozenset(s)
    return t._atoms


# --------------------------------------------------------------------------- constants


def const(v):
    if isinstance(v, bytearray):
        v = bytes(v)
    if isinstance(v, tuple):
        return tup([const(x) for x in v])
    return raw("const", type(v).__name__, v)


def is_const(t):
    return t.op == "const"


def cv(t):
    return t.args[1]


TRUE, FALSE, NONE = const(True), const(False), const(None)


def is_int_const(t):
    return t.op == "const" and t.args[0] in ("int", "bool")


def tup(items):
    return raw("tuple", *items)


def unknown(reason):
    return raw("unknown", str(reason))


def has_unknown(t, _m=None):
    if _m is None:
        _m = {}
    if t in _m:
        return _m[t]
    r = t.op == "unknown" or any(has_unknown(a, _m) for a in t.args if isinstance(a, T))
    _m[t] = r
    return r


# --------------------------------------------------------------------------- types

RET = {}  # name of external -> type letter
MRET = {}  # method name -> type letter
ATTR = {}


FIELDS = {}


def ty(t):
    o = t.op
    if o == "const":
        return {"int": "i", "bool": "bool", "str": "s", "bytes": "b", "NoneType": "none"}.get(t.args[0])
    if o == "cat" or o == "mapcat" or o == "flat":
        return t.args[0]
    if o == "param":
        return t.args[1] or None
    if o in ("lin", "ceildiv", "len", "mul", "xor", "band", "bor", "shl", "shr", "mod", "be", "ord",
             "count", "sum", "toint", "bitlen", "first"):
        return "i"
    if o in ("fresh", "tobe", "content_b"):
        return "b"
    if o == "slice":
        return ty(t.args[0])
    if o in ("k",):
        return "i"
    if o == "bv":
        return t.args[2]
    if o == "lv":
        return t.args[2]
    if o in BOOL_OPS:
        return "bool"
    if o == "call":
        return RET.get(t.args[0])
    if o == "mcall":
        r = MRET.get(t.args[0])
        if r == "self":
            return ty(t.args[1])
        return r
    if o == "attr":
        b = ty(t.args[0])
        if isinstance(b, str) and b.startswith("o:") and (b[2:], t.args[1]) in FIELDS:
            return FIELDS[b[2:], t.args[1]]
        return ATTR.get(t.args[1])
    if o == "setf":
        return ty(t.args[0])
    if o == "inst":
        return "o:" + t.args[1].args[1]
    if o == "index":
        b = ty(t.args[0])
        if b == "s":
            return "s"
        if b == "b":
            return "i"
        if t.args[0].op in ("mcall", "lines", "bv") :
            if t.args[0].op == "lines":
                return t.args[0].args[0]
            n = t.args[0].args[0]
            if n in ("split", "splitlines", "partition", "rpartition", "rsplit"):
                return ty(t.args[0].args[1])
        if t.args[0].op == "bv" and isinstance(b, str) and b.startswith("l:"):
            return b[2:]
        if isinstance(b, str) and b.startswith("l:"):
            return b[2:]
        if isinstance(b, str) and b.startswith("t:("):
            its = b[3:-1].split(",")
            i = t.args[1]
            if is_int_const(i) and int(cv(i)) < len(its):
                return its[int(cv(i))] or None
        return None
    if o in ("fmt", "join", "upper", "lower"):
        return "s"
    if o == "ite":
        a, b = ty(t.args[1]), ty(t.args[2])
        return a if a == b else None
    if o == "foldv":
        return t.args[0]
    if o == "tuple":
        return "t"
    if o in ("upd", "setof"):
        return "l"
    if o == "uniq":
        return ty(t.args[0]) or "l"
    if o == "content":
        return t.args[1]
    if o == "add":
        return ty(t.args[0]) or ty(t.args[1])
    return None


SEQ = {"b", "s", "l"}


def seqty(t):
    x = ty(t)
    if isinstance(x, str) and (x in SEQ or x.startswith("l:")):
        return x[0]
    return None


# --------------------------------------------------------------------------- decision trees


def _top(t):
    if t.op == "ite":
        return t.args[0]
    if is_atom(t):
        return t
    return None


def _branch(t, atom):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1], t.args[2]
    if t is atom:
        return TRUE, FALSE
    return t, t


def _past_end(atom, hi, lo, facts):
    """given atom, every part that lo picks starts at or after the end of what it is taken from"""
    if lo is hi:
        return True
    if lo.op == "ite":
        c = lo.args[0]
        if len(facts) > 3:
            return False
        up = dn = facts
        if c.op == "ge":
            up, dn = facts + (sub(c.args[0], const(c.args[1])),), facts + (sub(const(c.args[1] - 1), c.args[0]),)
        return _past_end(atom, hi, lo.args[1], up) and _past_end(atom, hi, lo.args[2], dn)
    if lo.op != "slice" or ty(lo.args[1]) != "i":
        return False
    gap = sub(sub(lo.args[1], length(lo.args[0])), sub(atom.args[0], const(atom.args[1])))
    for f in (const(0),) + facts:
        r = sub(gap, f)
        if is_int_const(r) and int(cv(r)) >= 0:
            return True
    return False


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi.op == "mapcat" and atom.op == "ge" and is_const(lo) and lo is empty(hi.args[0]) and ge(hi.args[1], const(1)) is atom:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    if atom.op == "exists" and not is_const(hi) and not _shallow:
        f = raw("first", *atom.args)
        c = at_first(f)
        if tree_atoms(c) & atoms(hi):
            r = constrain(hi, c)
            new = tree_atoms(r) & tree_atoms(c) - atoms(hi)
            if new:  # tests hi does not have must not get into it
                for v in new:
                    c = or_(subst(c, {v: TRUE}), subst(c, {v: FALSE}))
                r = constrain(hi, c)
            hi = r
            if hi is lo:
                return hi
    # a test that makes no difference
    if not (hi is FALSE and lo is TRUE):
        if not is_const(hi) and assume(hi, atom, False) is lo:
            return hi
        if not is_const(lo) and assume(lo, atom, True) is hi:
            return lo
        if atom.op == "ge":
            r = _same_clipped(atom, hi, lo)
            if r is not None:
                return r
            if lo.op == "ite" and (hi is EMPTY or is_const(hi) and cv(hi) in ("", b"")) and _past_end(atom, hi, lo, ()):
                return lo
    if atom.op == "ge" and atom.args[0].op == "lin" and _top(hi) is not None:
        # below c, exactly c, above c
        L, c = atom.args
        up = ge(L, const(c + 1))
        if _top(hi) is up:
            above, at = _branch(hi, up)
            return ite(raw("ieq", L, c), assume(at, raw("ieq", L, c), True), assume(ite(up, above, lo), raw("ieq", L, c), False))
    if atom.op == "ge":
        r = _peel(atom, hi, lo)
        if r is not None:
            return r
    if atom.op == "in" and lo.op in ("dictlog", "ite") and any(x.op == "dictlog" for x in leaves(lo)):
        r = _dict_grow(atom, hi, lo)
        if r is not None:
            return r
    return raw("ite", atom, hi, lo)


def _slices(t):
    """slices with an upper end inside t"""
    r = _slicememo.get(t)
    if r is None:
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s |= _slices(a)
        if t.op == "slice" and not (is_int_const(t.args[1]) and t.args[2] is NONE):
            s.add(t)
        r = _slicememo[t] = frozenset(s)
    return r


_slicememo = {}
_clipmemo = {}


def _clip(x, L, c):
    """x, knowing L >= c: slices that reach the end of the sequence need no end"""
    k = (x, L, c)
    r = _clipmemo.get(k)
    if r is not None:
        return r

    def known(d):
        e = add(d, mulc(L, -1))
        return is_int_const(e) and c + int(cv(e)) >= 0

    m = {}
    for sl in _slices(x):
        s, a, b = sl.args
        if seqty(s) not in ("b", "s") or s.op == "ite":
            continue
        n = length(s)
        if n.op == "ite" or a.op == "ite" or b.op == "ite":
            continue
        if not is_int_const(a) and known(sub(a, n)):
            m[sl] = empty(seqty(s))
        elif b is not NONE and not is_int_const(b) and known(sub(b, n)):
            m[sl] = slice_(s, a, NONE)
    r = _clipmemo[k] = subst(x, m) if m else x
    return r


def _same_clipped(atom, hi, lo):
    L, c = atom.args
    if not isinstance(c, int) or not (_slices(hi) or _slices(lo)) or not _has_len(L):
        return None
    if not is_const(lo) and _slices(lo):
        x = assume(lo, atom, True)
        if x is not lo or True:
            y = _clip(x, L, c)
            if y is not x and y is _clip(hi, L, c):
                return lo
    if not is_const(hi) and _slices(hi):
        x = assume(hi, atom, False)
        M = mulc(L, -1)
        y = _clip(x, M, 1 - c)
        if y is not x and y is _clip(lo, M, 1 - c):
            return hi
    return None


def _has_len(L):
    return L.op == "len" or L.op == "lin" and any(isinstance(a, T) and a.op == "len" for a in L.args)


def _loops(t, n=None):
    """iteration counts of the concatenations inside t"""
    r = _loopmemo.get(t)
    if r is None:
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s |= _loops(a)
        if t.op == "mapcat":
            s.add(t.args[1])
        r = _loopmemo[t] = frozenset(s)
    return r


_loopmemo = {}


def _peel(atom, hi, lo):
    """one form for loops whose single-iteration or empty case is written separately"""
    for n in sorted(_loops(hi), key=dkey):
        if fv(n) or ge(n, const(1)) is not atom:
            continue
        two = ge(n, const(2))
        body = hi
        if hi.op == "ite" and hi.args[0] is two:
            body = hi.args[1]
            b0 = _single(body, n)
            if b0 is hi.args[2]:
                return _node(atom, body, lo)
            continue
        b0 = _single(body, n)
        if assume(b0, atom, False) is lo:
            return raw("ite", two, body, b0) if not (body is b0) else body
    return None


def _single(t, n):
    """t when the loops over n run exactly once"""
    m = {}

    def walk(x):
        if x.op == "mapcat" and x.args[1] is n:
            m[x] = open_(subst(x.args[2], {n: const(1)}), const(0))
        for a in x.args:
            if isinstance(a, T) and n in _loops(a):
                walk(a)

    walk(t)
    t = subst(subst(t, m), {n: const(1)})
    t = assume(t, ge(n, const(1)), True)
    return assume(t, ge(n, const(2)), False)


def implied(atom, val, other):
    """truth value of `other` given that `atom` has value `val`, or None"""
    if atom is other:
        return val
    ao, oo = atom.op, other.op
    if ao == "ge" and oo == "ge" and atom.args[0] is other.args[0]:
        c, d = atom.args[1], other.args[1]
        if val and d <= c:
            return True
        if not val and d >= c:
            return False
        return None
    if ao == "eq" and oo == "eq" and val:
        a, b = atom.args
        c, d = other.args
        # x == c1  =>  not x == c2
        if is_const(a) and is_const(c) and b is d and a is not c:
            return False
        if is_const(b) and is_const(d) and a is c and b is not d:
            return False
        if is_const(a) and is_const(d) and b is c and a is not d:
            return False
        if is_const(b) and is_const(c) and a is d and b is not c:
            return False
    if ao == "eqz" or oo == "eqz":
        pass
    if ao == "ieq" and oo == "ge" and val and atom.args[0] is other.args[0]:
        return atom.args[1] >= other.args[1]
    if ao == "ieq" and oo == "ieq" and val and atom.args[0] is other.args[0]:
        return atom.args[1] == other.args[1]
    if ao == "ge" and oo == "ieq" and atom.args[0] is other.args[0]:
        if val and other.args[1] < atom.args[1]:
            return False
        if not val and other.args[1] >= atom.args[1]:
            return False
    if ao == "is" and oo == "eq" and val and (NONE in atom.args):
        x = atom.args[0] if atom.args[1] is NONE else atom.args[1]
        if x in other.args:
            y = other.args[0] if other.args[1] is x else other.args[1]
            if is_const(y) and y is not NONE:
                return False
    if ao == "startswith" and oo == "startswith" and atom.args[0] is other.args[0]:
        p, q = atom.args[1], other.args[1]
        if is_const(p) and is_const(q):
            if val and cv(p).startswith(cv(q)):
                return True
            if val and not cv(q).startswith(cv(p)):
                return False
            if not val and cv(q).startswith(cv(p)):
                return False
    if ao == "raises" and oo == "raises" and atom.args[0] is other.args[0]:
        if val and exc_sub(atom.args[1], other.args[1]):
            return True
        if not val and exc_sub(other.args[1], atom.args[1]):
            return False
        if val and not exc_sub(other.args[1], atom.args[1]):
            return False
    if ao == "eq" and oo == "startswith" and val:
        a, b = atom.args
        if is_const(b) and other.args[0] is a and is_const(other.args[1]):
            return cv(b).startswith(cv(other.args[1]))
        if is_const(a) and other.args[0] is b and is_const(other.args[1]):
            return cv(a).startswith(cv(other.args[1]))
    if ao == "startswith" and oo == "eq" and val:
        r = implied(other, True, atom)
        if r is False:
            return False
    if ao == "isinst" and oo == "isinst" and atom.args[0] is other.args[0]:
        a, b = atom.args[1], other.args[1]
        if a.op == "class" and b.op == "class":
            a, b = a.args[0], b.args[0]
            if val and a in SUBCLASSES.get(b, ()):
                return True
            if val and a in SUBCLASSES and b in SUBCLASSES and not (SUBCLASSES[a] & SUBCLASSES[b]):
                return False
            if not val and b in SUBCLASSES.get(a, ()):
                return False
        return None
    if ao == "startswith" and oo == "in" and val and atom.args[0] is other.args[1]:
        p, q = atom.args[1], other.args[0]
        if is_const(p) and is_const(q) and isinstance(cv(p), (str, bytes)) and type(cv(p)) is type(cv(q)) and cv(q) in cv(p):
            return True
    if ao == "in" and oo == "ge" and val and ty(atom.args[1]) in ("s", "b"):
        L = other.args[0]
        if L.op == "len" and L.args[0] is atom.args[1] and is_const(atom.args[0]) and isinstance(cv(atom.args[0]), (str, bytes)):
            if other.args[1] <= len(cv(atom.args[0])):
                return True
    if ao == "startswith" and oo == "ge" and val:
        # x.startswith(p) => len(x) >= len(p)
        L = other.args[0]
        if L.op == "len" and L.args[0] is atom.args[0] and is_const(atom.args[1]):
            if other.args[1] <= len(cv(atom.args[1])):
                return True
    return None


BOOL_OPS.add("ieq")

EXC_PARENT = {}
SUBCLASSES = {}  # class of the package -> all its subclasses and itself


def exc_sub(a, b):
    """exception class a is b or a subclass of b (by name)"""
    seen = set()
    while a is not None and a not in seen:
        if a == b:
            return True
        seen.add(a)
        a = EXC_PARENT.get(a, "Exception" if a not in ("Exception", "BaseException") else
                           ("BaseException" if a == "Exception" else None))
    return False


_assume_memo = {}


_strops = {}
STROPS = ("partition", "split", "find", "index", "replace", "removeprefix")


def strops(t):
    """string searches inside of a term that a known prefix can decide"""
    r = _strops.get(t)
    if r is None:
        r = frozenset()
        for a in t.args:
            if isinstance(a, T):
                r |= strops(a)
        if t.op == "mcall" and t.args[0] in STROPS and len(t.args) >= 3:
            r |= {t}
        _strops[t] = r
    return r


def cut(x, sep):
    """x.partition(sep), for a separator known to be a non-empty text"""
    has = in_(sep, x)
    p = raw("mcall", "partition", x, sep)
    none = const(type(cv(sep))())
    return has, raw("index", p, const(0)), raw("index", p, const(2)), none


def _with_prefix(x, a, p):
    """value of the search `x` in `a` when `a` is known to start with `p`"""
    name, sep = x.args[0], x.args[2]
    if not is_const(sep) or not isinstance(cv(sep), type(p)) or not cv(sep):
        return None
    i = p.find(cv(sep))
    if i < 0:
        return None
    rest = slice_(a, const(i + len(cv(sep))), NONE)
    if name == "partition":
        return tup([const(p[:i]), sep, rest])
    if name in ("find", "index") and len(x.args) == 3:
        return const(i)
    if name == "replace" and len(x.args) == 5 and x.args[4] is const(1) and i == 0:
        return cat("s" if isinstance(p, str) else "b", x.args[3], rest)
    return None


def _assume_map(t, atom, val, deep=True):
    m = {}
    for a in atoms(t):
        r = implied(atom, val, a)
        if r is not None:
            m[a] = TRUE if r else FALSE
    if val and atom.op == "exists" and atom.args[0].op != "inf":
        g = ge(atom.args[0], const(1))
        if is_atom(g):
            for a in atoms(t):
                if implied(g, True, a) is not None:
                    m[a] = TRUE if implied(g, True, a) else FALSE
        n, lam = atom.args
        one = eq(n, const(1))
        x = open_(subst(lam, {n: const(1)}), const(0))
        if one is not FALSE and not is_const(x):
            x = assume(x, g, True) if is_atom(g) else x
            here = atoms(t)
            for a in tree_atoms(x):
                if a in here and a not in m:
                    v = constrain(a, x)
                    if v in (TRUE, FALSE):
                        m[a] = ite(one, v, a)
    if not val and atom.op == "exists":
        n, lam = atom.args
        if n.op != "inf":
            x = open_(lam, _add(n, const(-1)))
            nx = not_(x)
            here = atoms(t)
            for a in tree_atoms(x):
                if a in here:
                    v = constrain(a, nx)
                    if v in (TRUE, FALSE):
                        m[a] = ite(ge(n, const(1)), v, a)
            one = eq(n, const(1))
            x = open_(subst(lam, {n: const(1)}), const(0))
            if one is not FALSE and not is_const(x):
                x = assume(x, ge(n, const(1)), True) if is_atom(ge(n, const(1))) else x
                nx = not_(x)
                for a in tree_atoms(x):
                    if a in here and a not in m:
                        v = constrain(a, nx)
                        if v in (TRUE, FALSE):
                            m[a] = ite(one, v, a)
    for f in _firsts(atom) if atom.op != "exists" and deep and not _shallow else ():
        if f in _busy:
            continue
        c = at_first(f)
        ta = tree_atoms(c)
        _busy.add(f)
        try:
            m0 = _assume_map(c, atom, val, False)
            c = subst(c, m0) if m0 else c
        finally:
            _busy.discard(f)
        if not is_const(c):
            here = atoms(t)
            for a in ta:
                if a in here and a not in m and a is not atom:
                    v = constrain(a, c)
                    if v in (TRUE, FALSE):
                        m[a] = v
    if val and atom.op == "exists":
        c = at_first(raw("first", *atom.args))
        here = atoms(t)
        for a in tree_atoms(c):
            if a in here and a not in m:
                v = constrain(a, c)
                if v in (TRUE, FALSE):
                    m[a] = v
    if val and atom.op == "eq":
        a, b = atom.args
        if is_const(b) and not is_const(a):
            m[a] = b
        elif is_const(a) and not is_const(b):
            m[b] = a
    if val and atom.op == "startswith" and is_const(atom.args[1]) and isinstance(cv(atom.args[1]), (str, bytes)):
        a, p = atom.args[0], cv(atom.args[1])
        for x in strops(t):
            if x.args[1] is a and x not in m:
                r = _with_prefix(x, a, p)
                if r is not None:
                    m[x] = r
    if val and atom.op == "is" and NONE in atom.args:
        x = atom.args[0] if atom.args[1] is NONE else atom.args[1]
        if not is_const(x):
            m[x] = NONE
    if not val and atom.op == "ieq" and atom.args[0].op == "lin":
        L, c = atom.args
        up = raw("ge", L, c + 1)
        for a in atoms(t):
            if a.op == "ge" and a.args[0] is L and a.args[1] == c and a not in m:
                m[a] = up
    if val and atom.op == "ieq":
        L = atom.args[0]
        if L.op != "lin":
            m[L] = const(atom.args[1])
    if not val and atom.op == "ge" and atom.args[1] == 1 and atom.args[0].op == "len":
        x = atom.args[0].args[0]
        if ty(x) == "b":
            m[x] = const(b"")
        elif ty(x) == "s":
            m[x] = const("")
        elif seqty(x) == "l" and x.op not in ("cat", "tuple", "mapcat", "obj"):
            m[x] = empty("l")
    return m


_firstmemo = {}


def _firsts(t):
    """first-hit indices occurring in t, outside of binders"""
    r = _firstmemo.get(t)
    if r is None:
        x = set()
        if t.op == "first":
            x.add(t)
        elif t.op != "lam":
            for a in t.args:
                if isinstance(a, T):
                    x |= _firsts(a)
        r = _firstmemo[t] = frozenset(x)
    return r


_shallow = 0
_busy = set()
_atfirst = {}


def at_first(f):
    """the condition of a first hit, at that hit"""
    global _shallow
    r = _atfirst.get(f)
    if r is None:
        _shallow += 1
        try:
            r = open_(f.args[1], f)
        finally:
            _shallow -= 1
        _atfirst[f] = r
    return r


_assuming = set()
guarded = [0]


def assume(t, atom, val):
    k = (t, atom, val, _shallow > 0)
    r = _assume_memo.get(k)
    if r is None:
        r = t
        if not is_const(t):
            if k in _assuming:
                guarded[0] += 1
                return t  # going in circles: leave it as it is
            _assuming.add(k)
            try:
                for _ in range(4):
                    m = _assume_map(r, atom, val)
                    if not m:
                        break
                    r = subst(r, m)
                    if is_const(r) or atom not in atoms(r):
                        break  # else: it came back, out of another one
            finally:
                _assuming.discard(k)
        _assume_memo[k] = r
    return r


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b, _shallow > 0)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    if _top(c) is None:
        raise AssertionError("condition is not boolean: %s" % show(c))
    atom = min(tops, key=okey)
    c1, c0 = _branch(c, atom)
    a1, a0 = _branch(a, atom)
    b1, b0 = _branch(b, atom)
    hi = ite(assume(c1, atom, True), assume(a1, atom, True), assume(b1, atom, True))
    lo = ite(assume(c0, atom, False), assume(a0, atom, False), assume(b0, atom, False))
    r = _node(atom, hi, lo)
    _ite_memo[k] = r
    return r


def not_(a):
    return ite(a, FALSE, TRUE)


def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


_conmemo = {}


def constrain(f, c):
    """generalised cofactor: simplify f given that condition c holds"""
    if c is TRUE or c is FALSE or f.op not in ("ite",) and not is_atom(f):
        return f
    k = (f, c, _shallow > 0)
    r = _conmemo.get(k)
    if r is None:
        _conmemo[k] = f  # a cycle leaves f as it is
        r = _conmemo[k] = _constrain(f, c)
    return r


def _constrain(f, c):
    atom = _top(c)
    c1, c0 = _branch(c, atom)
    if c0 is FALSE:
        return constrain(assume(_branch(f, atom)[0] if _top(f) is atom else f, atom, True), c1)
    if c1 is FALSE:
        return constrain(assume(_branch(f, atom)[1] if _top(f) is atom else f, atom, False), c0)
    ft = _top(f)
    if ft is None:
        return f
    if okey(ft) < okey(atom):
        f1, f0 = _branch(f, ft)
        return ite(ft, constrain(f1, assume(c, ft, True)), constrain(f0, assume(c, ft, False)))
    f1, f0 = (assume(f, atom, True), assume(f, atom, False)) if ft is not atom else _branch(f, atom)
    return ite(atom, constrain(f1, c1), constrain(f0, c0))


def tree_atoms(c):
    """atoms tested by a condition"""
    s = set()
    seen = set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            s.add(x.args[0])
            walk(x.args[1])
            walk(x.args[2])
        elif is_atom(x):
            s.add(x)

    walk(c)
    return s


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) | leaves(t.args[2])
    return {t}


def leafcount(t, lim=600):
    if t.op == "ite":
        n = leafcount(t.args[1], lim)
        if n > lim:
            return n
        return n + leafcount(t.args[2], lim)
    return 1


LIMIT = 400


def lift(fn, *args):
    """apply a strict operation leafwise to decision-tree arguments"""
    tops = [a for a in args if isinstance(a, T) and a.op == "ite"]
    if not tops:
        return fn(*args)
    n = 1
    for a in tops:
        n *= leafcount(a)
    if n > LIMIT:
        return fn(*args)
    atom = min((a.args[0] for a in tops), key=okey)
    hi = [assume(_branch(a, atom)[0], atom, True) if isinstance(a, T) and a.op == "ite" and a.args[0] is atom
          else (assume(a, atom, True) if isinstance(a, T) else a) for a in args]
    lo = [assume(_branch(a, atom)[1], atom, False) if isinstance(a, T) and a.op == "ite" and a.args[0] is atom
          else (assume(a, atom, False) if isinstance(a, T) else a) for a in args]
    return ite(atom, lift(fn, *hi), lift(fn, *lo))


def strict(op, mk):
    """decorator-like: build a constructor that hoists ite and pushes into atfirst"""

    def build(*args):
        return lift(mk, *args)

    REBUILD[op] = build
    return build


REBUILD = {}

# --------------------------------------------------------------------------- variables, binders


def newk(hint=""):
    return raw("k", next(_uid))


def newlv(name, typ=None):
    return raw("lv", next(_uid), name, typ)


def bv(h, j, typ):
    return raw("bv", h, j, typ)


def close(var, *bodies):
    """bind one variable in several bodies, returns lam terms"""
    vars_ = var if isinstance(var, (list, tuple)) else [var]
    h = 1 + max([hgt(b) for b in bodies] + [0])
    m = {v: bv(h, j, ty(v)) for j, v in enumerate(vars_)}
    for _ in range(4):
        out = [subst(b, m) for b in bodies]
        h2 = 1 + max([hgt(b) for b in out] + [0])
        if h2 <= h:
            break
        h = h2
        m = {v: bv(h, j, ty(v)) for j, v in enumerate(vars_)}
    return [raw("lam", h, o) for o in out]


def open_(lam, *vals):
    h, body = lam.args
    m = {}
    for t in _bvs(body, h):
        m[t] = vals[t.args[1]]
    return subst(body, m) if m else body


_bvmemo = {}


def _bvs(t, h):
    k = (t, h)
    r = _bvmemo.get(k)
    if r is None:
        s = set()
        if t.op == "bv":
            if t.args[0] == h:
                s.add(t)
        elif not (t.op == "lam" and t.args[0] == h):
            for a in t.args:
                if isinstance(a, T):
                    s |= _bvs(a, h)
        r = frozenset(s)
        _bvmemo[k] = r
    return r


def subst(t, m, _memo=None):
    if not m:
        return t
    if _memo is None:
        _memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = _memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, T) for a in t.args):
        r = t
    elif t.op == "lam":
        b = t.args[1]
        nb = subst(b, m, _memo)
        if nb is b:
            r = t
        else:
            h = t.args[0]
            vs = sorted(_bvs(b, h), key=lambda x: x.args[1])
            nv = max([x.args[1] for x in vs] + [0]) + 1
            fresh = [newk() for _ in range(nv)]
            mm = dict(m)
            for x in vs:
                fresh[x.args[1]] = newk() if x.args[2] == "i" else newlv("_", x.args[2])
                mm[x] = fresh[x.args[1]]
            nb = subst(b, mm)
            (r,) = close(fresh, nb)
    else:
        na = [subst(a, m, _memo) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t.op, na)
    _memo[t] = r
    return r


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    if any(isinstance(a, T) and a.op == "ite" for a in args) and op not in ("lam",):
        return lift(lambda *a: raw(op, *a), *args)
    return raw(op, *args)


REBUILD["ite"] = lambda c, a, b: ite(c, a, b)


# --------------------------------------------------------------------------- linear arithmetic


def _lin_parts(t):
    """-> (const, {term: coef})"""
    if is_int_const(t):
        return int(cv(t)), {}
    if t.op == "lin":
        d = {}
        a = t.args
        for i in range(1, len(a), 2):
            d[a[i + 1]] = a[i]
        return a[0], d
    return 0, {t: 1}


def _mk_lin(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: dkey(p[0]))
    args = [c]
    for t, k in items:
        args += [k, t]
    return raw("lin", *args)


def _rebuild_lin(*args):
    acc = const(args[0])
    for i in range(1, len(args), 2):
        acc = add(acc, mulc(args[i + 1], args[i]))
    return acc


REBUILD["lin"] = _rebuild_lin


def _add(a, b):
    c1, d1 = _lin_parts(a)
    c2, d2 = _lin_parts(b)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return _mk_lin(c1 + c2, d)


add = strict("iadd", _add)


def _mulc(a, k):
    c, d = _lin_parts(a)
    return _mk_lin(c * k, {t: v * k for t, v in d.items()})


def mulc(a, k):
    return lift(lambda x: _mulc(x, k), a)


def sub(a, b):
    return add(a, mulc(b, -1))


def _mul(a, b):
    if is_int_const(a):
        return _mulc(b, int(cv(a)))
    if is_int_const(b):
        return _mulc(a, int(cv(b)))
    # distribute over linear forms
    if a.op == "lin" or b.op == "lin":
        c1, d1 = _lin_parts(a)
        c2, d2 = _lin_parts(b)
        acc = const(c1 * c2)
        for t, k in d1.items():
            acc = _add(acc, _mulc(t, k * c2))
        for t, k in d2.items():
            acc = _add(acc, _mulc(t, k * c1))
        for t, k in d1.items():
            for u, l in d2.items():
                acc = _add(acc, _mulc(_mul(t, u), k * l))
        return acc
    fs = []
    for x in (a, b):
        fs += list(x.args) if x.op == "mul" else [x]
    fs.sort(key=dkey)
    return raw("mul", *fs)


mul2 = strict("mul2", _mul)


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = mul2(r, x)
    return r


REBUILD["mul"] = mul


def _ceildiv(a, b):
    if is_int_const(b):
        m = int(cv(b))
        if m == 0:
            return raw("ceildiv", a, b)
        if m < 0:
            return _ceildiv(_mulc(a, -1), const(-m))
        if m == 1:
            return a
        c, d = _lin_parts(a)
        if not d:
            return const(-((-c) // m))
        q = const(0)
        rest = {}
        for t, k in d.items():
            if k % m == 0:
                q = _add(q, _mulc(t, k // m))
            else:
                rest[t] = k
        # normalise the constant into (-m, 0]
        qc = -((-c) // m)
        c -= qc * m
        q = _add(q, const(qc))
        if not rest:
            return q  # c in (-m, 0] -> ceil is 0
        lead = min(rest, key=dkey)
        if rest[lead] < 0 and all(k < 0 for k in rest.values()):
            # ceil((c - y)/m) = -floor((y - c)/m) = -ceil((y - c - m + 1)/m)
            return _add(q, _mulc(_ceildiv(_mk_lin(-c - m + 1, {u: -k for u, k in rest.items()}), b), -1))
        return _add(q, raw("ceildiv", _mk_lin(c, rest), b))
    return raw("ceildiv", a, b)


ceildiv = strict("ceildiv", _ceildiv)


def floordiv(a, b):
    # floor(a/b) = ceil((a-b+1)/b) for integers, b > 0
    return ceildiv(add(sub(a, b), const(1)), b)


def _mod(a, b):
    if is_int_const(a) and is_int_const(b) and int(cv(b)):
        return const(int(cv(a)) % int(cv(b)))
    if is_int_const(b):
        m = int(cv(b))
        if m > 0 and m & (m - 1) == 0:
            return _band(a, const(m - 1))
    return raw("mod", a, b)


def _bitop(op, pyf, unit):
    def leaf(a, b):
        xs = []
        for x in (a, b):
            xs += list(x.args) if x.op == op else [x]
        c = unit
        seen = []
        for x in xs:
            if is_int_const(x):
                c = pyf(c, int(cv(x))) if c is not None else int(cv(x))
            else:
                seen.append(x)
        if op == "xor":
            d = []
            for x in seen:
                if x in d:
                    d.remove(x)
                else:
                    d.append(x)
            seen = d
        elif op in ("band", "bor"):
            seen = list(dict.fromkeys(seen))
        if op == "band" and c == 0:
            return const(0)
        if op == "bor" and len(seen) == 1 and c is not None and c > 0:
            k, rest = _lin_parts(seen[0])
            m = 1 << c.bit_length()
            if not k % m and all(not q % m for q in rest.values()):
                return _add(seen[0], const(c))  # the bits below are free
        seen.sort(key=dkey)
        if not seen:
            return const(c if c is not None else 0)
        parts = seen[:]
        if c is not None and c != unit and not (op in ("xor", "bor") and c == 0) and not (op == "band" and c == -1):
            parts.append(const(c))
        if len(parts) == 1:
            return parts[0]
        return raw(op, *parts)

    f = strict(op + "2", leaf)

    def nary(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    REBUILD[op] = nary
    return nary, leaf


xor, _xor = _bitop("xor", lambda a, b: a ^ b, 0)
bor, _bor = _bitop("bor", lambda a, b: a | b, 0)
band, _band = _bitop("band", lambda a, b: a & b, -1)
mod = strict("mod", _mod)


def _shl(a, b):
    if is_int_const(b):
        return _mulc(a, 1 << int(cv(b))) if 0 <= int(cv(b)) < 10000 else raw("shl", a, b)
    return raw("shl", a, b)


def _shr(a, b):
    if is_int_const(b) and 0 <= int(cv(b)) < 10000:
        m = 1 << int(cv(b))
        if m == 1:
            return a
        c, d = _lin_parts(a)
        return _ceildiv(_add(a, const(1 - m)), const(m))
    return raw("shr", a, b)


shl = strict("shl", _shl)
shr = strict("shr", _shr)


def _pow(a, b):
    if is_int_const(a) and is_int_const(b) and 0 <= int(cv(b)) < 4096:
        return const(int(cv(a)) ** int(cv(b)))
    if is_int_const(a) and int(cv(a)) == 2:
        return _shl(const(1), b)
    return raw("pow", a, b)


pow_ = strict("pow", _pow)


# --------------------------------------------------------------------------- comparisons


def nonneg(t):
    """integer term that cannot be negative"""
    c, d = _lin_parts(t)
    return c >= 0 and all(k > 0 and _len_floor(u) for u, k in d.items())


def _len_floor(t):
    return t.op in ("len", "ceildiv", "k", "bv", "be", "ord", "count", "first")


def _ge0(t):
    """t >= 0 for integer-valued t"""
    c, d = _lin_parts(t)
    if not d:
        return TRUE if c >= 0 else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    lead = min(d, key=dkey)
    sgn = 1 if d[lead] > 0 else -1
    # sum d + c >= 0  <=> sum d/g >= ceil(-c/g)
    dd = {u: k // g for u, k in d.items()}
    bound = -((c) // g)  # ceil(-c/g)
    if sgn < 0:
        # -(S) >= bound <=> S <= -bound <=> not S >= -bound+1
        dd = {u: -k for u, k in dd.items()}
        return not_(_ge_atom(_mk_lin(0, dd), -bound + 1))
    return _ge_atom(_mk_lin(0, dd), bound)


def _counting(L):
    """(n, lam) when L counts: a sum of constants >= 0, or the length of a filtered list"""
    if L.op == "sum":
        v = newk()
        if all(is_int_const(x) and int(cv(x)) >= 0 for x in leaves(open_(L.args[1], v))):
            return L.args
    if L.op == "len" and L.args[0].op == "mapcat" and L.args[0].args[0] == "l":
        _, n, lam = L.args[0].args
        v = newk()
        b = open_(lam, v)
        if b.op == "ite" and leafcount(b) < 40 and all(x.op == "unit" or x.op == "cat" and all(y.op == "unit" for y in x.args[1:]) for x in leaves(b)):
            (lam,) = close(v, length(b))
            return n, lam
    return None


def _full_slice(L):
    """(sign, d, condition) when L is sign*(len(y[a:b]) - (b-a)) + d; condition: the slice is as long as asked for"""
    if L.op != "lin":
        return None
    c0, d = _lin_parts(L)
    for u, k in d.items():
        if u.op == "len" and u.args[0].op == "slice" and k in (1, -1):
            y, a, b = u.args[0].args
            if b is NONE or not nonneg(a) or not nonneg(b):
                continue
            w = _add(b, _mulc(a, -1))
            if is_int_const(w) or not nonneg(w):
                continue
            rest = _add(_add(L, _mulc(u, -k)), _mulc(w, k))
            if is_int_const(rest):
                n = length(y)
                return k, int(cv(rest)), or_(ge(n, b), and_(not_(ge(n, a)), eq(w, const(0))))
    return None


def _ge_atom(L, c):
    q = _full_slice(L)
    if q is not None:
        k, d, full = q
        e = c - d
        if k > 0 and e >= 0:
            return full if e == 0 else FALSE
        if k < 0 and e <= 1:
            return not_(full) if e == 1 else TRUE
    if L.op in ("len", "ord", "be", "count") and c <= 0:
        return TRUE
    if L.op in ("sum", "len"):
        q = _counting(L)
        if q is not None:
            n, lam = q
            if c <= 0:
                return TRUE
            if c == 1:
                v = newk()
                return exists(n, v, ge(open_(lam, v), const(1)))
            return raw("ge", raw("sum", n, lam), c)
    if L.op == "len":
        x = L.args[0]
        if c == 1:
            r = _nonempty_special(x)
            if r is not None:
                return r
        if x.op == "slice" and nonneg(x.args[1]) and c >= 1:
            # len(y[a:b]) >= c  <=>  len(y) - a >= c and b - a >= c
            y, a, b = x.args
            if b is NONE or nonneg(b):
                lo = ge(add(length(y), mulc(a, -1)), const(c))
                return lo if b is NONE else and_(lo, ge(add(b, mulc(a, -1)), const(c)))
    if L.op == "ceildiv" and is_int_const(L.args[1]) and int(cv(L.args[1])) > 0:
        # ceil(x/m) >= c <=> x >= (c-1)*m + 1
        m = int(cv(L.args[1]))
        return _ge0(_add(L.args[0], const(-((c - 1) * m + 1))))
    if L.op == "band" and len(L.args) == 2 and is_int_const(L.args[1]):
        m = int(cv(L.args[1]))
        if m >= 0 and c <= 0:
            return TRUE
        if m >= 0 and c > m:
            return FALSE
    return raw("ge", L, c)


REBUILD["ge"] = lambda L, c: ge(L, const(c)) if isinstance(L, T) else raw("ge", L, c)


def _nonempty_special(x):
    if x.op == "mapcat":
        kind, n, lam = x.args
        v = newk()
        b = open_(lam, v)
        return exists(n, v, truth(b))
    if x.op == "cat":
        return or_(*[truth(p) if p.op != "unit" else TRUE for p in x.args[1:]]) if len(x.args) > 1 else FALSE
    return None


def ge(a, b):
    return lift(lambda x, y: _cmp_push(x, y), a, b)


def _cmp_push(x, y):
    if is_const(x) and is_const(y):
        try:
            return TRUE if cv(x) >= cv(y) else FALSE
        except TypeError:
            return raw("lt", y, x)
    if ty(x) in ("s", "b") or ty(y) in ("s", "b"):
        return not_(raw("lt", x, y))
    return _ge0(_add(x, _mulc(y, -1)))


def lt(a, b):
    if (ty(a) in ("s", "b") or ty(b) in ("s", "b")):
        if is_const(a) and is_const(b) and type(cv(a)) is type(cv(b)):
            return TRUE if cv(a) < cv(b) else FALSE
        return lift(lambda x, y: raw("lt", x, y), a, b)
    return not_(ge(a, b))


REBUILD["lt"] = lt


def _ieq_atom(L, c):
    q = _full_slice(L)
    if q is not None:
        k, d, full = q
        e = (c - d) * k
        if e >= 0:
            return full if e == 0 else FALSE
    if L.op in ("len", "ord", "be", "count") and c < 0:
        return FALSE
    if L.op == "len" and c == 0:
        return not_(ge(L, const(1)))
    if L.op in ("sum", "len") and _counting(L) is not None:
        return FALSE if c < 0 else and_(ge(L, const(c)), not_(ge(L, const(c + 1))))
    if L.op == "len" and L.args[0].op == "slice" and nonneg(L.args[0].args[1]):
        y, a, b = L.args[0].args
        rest = add(length(y), mulc(a, -1))
        if b is NONE:
            return eq(rest, const(c))
        if nonneg(b):
            w = add(b, mulc(a, -1))
            if is_int_const(w):
                w = int(cv(w))
                return FALSE if c > w else (ge(rest, const(c)) if c == w else eq(rest, const(c)))
    if L.op == "band" and len(L.args) == 2 and is_int_const(L.args[1]):
        m = int(cv(L.args[1]))
        if c & ~m:
            return FALSE
    if L.op == "ceildiv" and is_int_const(L.args[1]) and int(cv(L.args[1])) > 0:
        return and_(ge(L, const(c)), not_(ge(L, const(c + 1))))
    return raw("ieq", L, c)


REBUILD["ieq"] = lambda L, c: eq(L, const(c))


def _eq(a, b):
    if a is b:
        if a.op not in ("unknown",):
            return TRUE
    if is_const(a) and is_const(b):
        try:
            return TRUE if cv(a) == cv(b) else FALSE
        except Exception:
            pass
    ta, tb = ty(a), ty(b)
    if (ta == "i" or tb == "i") and ta in ("i", None, "bool") and tb in ("i", None, "bool"):
        c, d = _lin_parts(_add(a, _mulc(b, -1)))
        if not d:
            return TRUE if c == 0 else FALSE
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        if c % g:
            return FALSE
        lead = min(d, key=dkey)
        s = 1 if d[lead] > 0 else -1
        return _ieq_atom(_mk_lin(0, {u: s * k // g for u, k in d.items()}), -s * c // g)
    if ta == "bool" and is_const(b) and isinstance(cv(b), bool):
        return a if cv(b) else not_(a)
    if tb == "bool" and is_const(a) and isinstance(cv(a), bool):
        return b if cv(a) else not_(b)
    for x, y in ((a, b), (b, a)):
        if is_const(y) and cv(y) in (b"", "") and ty(x) == ty(y):
            return not_(truth(x))
        if is_const(y) and isinstance(cv(y), bytes) and not any(cv(y)) and ty(x) == "b" and length(x) is const(len(cv(y))):
            return not_(anybyte(x))
    for x, y in ((a, b), (b, a)):
        if x.op == "cat" and is_const(y) and isinstance(cv(y), (str, bytes)) and ty(x) == ty(y):
            p, q = x.args[1], x.args[-1]
            if is_const(p) and not cv(y).startswith(cv(p)) or is_const(q) and not cv(y).endswith(cv(q)):
                return FALSE
            if is_const(p):
                return eq(cat(ty(x), *x.args[2:]), const(cv(y)[len(cv(p)):]))
            if is_const(q):
                return eq(cat(ty(x), *x.args[1:-1]), const(cv(y)[:len(cv(y)) - len(cv(q))]))
    if a.op == "cat" and b.op == "cat" and ta == tb and ta in ("s", "b"):
        # the same pieces at either end do not matter; constant ends that differ decide
        pa, pb = a.args[1], b.args[1]
        qa, qb = a.args[-1], b.args[-1]
        if pa is pb:
            return eq(cat(ta, *a.args[2:]), cat(ta, *b.args[2:]))
        if qa is qb:
            return eq(cat(ta, *a.args[1:-1]), cat(ta, *b.args[1:-1]))
        if is_const(pa) and is_const(pb) and not (cv(pa).startswith(cv(pb)) or cv(pb).startswith(cv(pa))):
            return FALSE
        if is_const(qa) and is_const(qb) and not (cv(qa).endswith(cv(qb)) or cv(qb).endswith(cv(qa))):
            return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if {a.op, b.op} <= {"const", "tuple", "class", "ext", "func"} and a is not b:
        if a.op != b.op or a.op in ("class", "func", "ext", "const"):
            return FALSE
    if ta is not None and tb is not None and ta != tb and ta[0] != tb[0]:
        known = {"s", "b", "none", "i", "bool"}
        if ta in known and tb in known and {ta, tb} != {"i", "bool"}:
            return FALSE
    # s[:len(p)] == p  <=>  s.startswith(p)
    for x, y in ((a, b), (b, a)):
        if is_const(y) and x.op == "slice" and x.args[1] is const(0) and ty(y) in ("s", "b") and is_int_const(x.args[2]):
            if int(cv(x.args[2])) == len(cv(y)):
                return startswith(x.args[0], y)
        # s[0] == c, s[-1] == c for a text s
        if is_const(y) and ty(y) == "s" and len(cv(y)) == 1 and x.op == "index" and ty(x.args[0]) == "s" and (
                x.args[1] is const(0) or x.args[1] is const(-1)):
            return (startswith if x.args[1] is const(0) else endswith)(x.args[0], y)
    if a.op == "call" and b.op == "call" and a.args[0] == b.args[0] and a.args[0] in INJECTIVE and len(a.args) == len(b.args):
        return and_(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == "mcall" and b.op == "mcall" and a.args[0] in ("upper", "lower") and a.args[0] == b.args[0] and len(a.args) == len(b.args) == 2:
        # one case of a text that has one case already: bech32 with a constant human-readable part
        x, y = a.args[1], b.args[1]
        if all(z.op == "call" and z.args[0] == "age.primitives.bech32.bech32_encode" and is_const(z.args[1]) and
               isinstance(cv(z.args[1]), str) and cv(z.args[1]).islower() for z in (x, y)):
            return eq(x, y)
    if dkey(a) > dkey(b):
        a, b = b, a
    return raw("eq", a, b)


# equal results only for equal arguments
INJECTIVE = {"age.primitives.bech32.bech32_encode"}


def eq(a, b):
    return lift(_eq, a, b)


REBUILD["eq"] = eq


def ne(a, b):
    return not_(eq(a, b))


def is_(a, b):
    def leaf(x, y):
        if x is y:
            return TRUE
        if x is NONE or y is NONE:
            z = y if x is NONE else x
            if z.op in ("const", "obj", "tuple", "func", "class", "cat", "mapcat", "lin", "inst", "bound", "ext", "lines", "slice", "content",
                        "closure", "set", "re", "dictv"):
                return FALSE
            if ty(z) is not None:
                return FALSE
        if x.op == "obj" and y.op == "obj":
            return FALSE
        if x.op in ("const", "class", "func") and y.op in ("const", "class", "func"):
            return FALSE if x is not y else TRUE
        if ty(x) == "bool" and y in (TRUE, FALSE):
            return x if y is TRUE else not_(x)
        if ty(y) == "bool" and x in (TRUE, FALSE):
            return y if x is TRUE else not_(y)
        if dkey(x) > dkey(y):
            x, y = y, x
        return raw("is", x, y)

    return lift(leaf, a, b)


REBUILD["is"] = is_


def _truth(t):
    if is_const(t):
        return TRUE if cv(t) else FALSE
    if is_atom(t):
        return t
    y = ty(t)
    if t.op in ("obj", "func", "class", "closure", "bound", "ext", "inst", "re") or t.op == "match" and t.args[0] == "prefix":
        return TRUE
    if t.op == "tuple":
        return TRUE if t.args else FALSE
    if t.op == "unit":
        return TRUE
    if y == "i":
        return not_(eq(t, const(0)))
    if seqty(t) or t.op == "lines":
        return ge(length(t), const(1))
    if t.op == "setof":
        return truth(t.args[0])
    if t.op == "dictv":
        return TRUE if len(t.args) else FALSE
    if y and y.startswith("?:"):
        return not_(is_(t, NONE))
    return raw("truth", t)


def truth(t):
    return lift(_truth, t)


REBUILD["truth"] = truth


def _re_isinst(x, c):
    return lift(lambda y: raw("isinst", y, c), x)


REBUILD["isinst"] = _re_isinst


def _startswith(a, p):
    if p.op == "tuple":
        return or_(*[startswith(a, x) for x in p.args])
    if is_const(a) and is_const(p):
        return TRUE if cv(a).startswith(cv(p)) else FALSE
    if is_const(p) and len(cv(p)) == 0:
        return TRUE
    if a.op == "cat" and len(a.args) > 1 and is_const(a.args[1]) and is_const(p):
        x = cv(a.args[1])
        if len(x) >= len(cv(p)):
            return TRUE if x.startswith(cv(p)) else FALSE
        if not cv(p).startswith(x):
            return FALSE
    return raw("startswith", a, p)


startswith = strict("startswith", _startswith)


def _endswith(a, p):
    if p.op == "tuple":
        return or_(*[endswith(a, x) for x in p.args])
    if is_const(a) and is_const(p):
        return TRUE if cv(a).endswith(cv(p)) else FALSE
    return raw("endswith", a, p)


endswith = strict("endswith", _endswith)


def _in(x, c):
    if c.op in ("tuple",):
        return or_(*[eq(x, y) for y in c.args])
    if c.op == "setof":
        return in_(x, c.args[0])
    if c.op == "dictlog" and dict_last(c, x) is not None:
        return TRUE
    if c.op == "dictlog" and closed_ops(c, x) is not None:
        return or_(*[eq(x, k) for k, _v in closed_ops(c, x)])
    if c.op == "cat" and c.args[0] == "l" and all(p.op == "unit" for p in c.args[1:]):
        return or_(*[eq(x, p.args[0]) for p in c.args[1:]])
    if c.op == "dictv":
        return or_(*[eq(x, c.args[i]) for i in range(0, len(c.args), 2)])
    if is_const(x) and is_const(c):
        try:
            return TRUE if cv(x) in cv(c) else FALSE
        except TypeError:
            pass
    if c.op == "mapcat" and c.args[0] == "l":
        v = newk()
        return exists(c.args[1], v, in_(x, open_(c.args[2], v)))
    return raw("in", x, c)


def in_(x, c):
    return lift(_in, x, c)


REBUILD["in"] = in_


# --------------------------------------------------------------------------- sequences


def unit(v):
    return raw("unit", v)


def _cat_leaf(kind, *parts):
    out = []
    for p in parts:
        if p.op == "cat" and p.args[0] == kind:
            ps = list(p.args[1:])
        else:
            ps = [p]
        for q in ps:
            if is_const(q) and kind in ("b", "s") and isinstance(cv(q), (bytes, str)):
                if len(cv(q)) == 0:
                    continue
                if out and is_const(out[-1]) and type(cv(out[-1])) is type(cv(q)):
                    out[-1] = const(cv(out[-1]) + cv(q))
                    continue
            # s[a:b] + s[b:c] = s[a:c]
            if out and q.op == "slice" and out[-1].op == "slice" and q.args[0] is out[-1].args[0] \
                    and out[-1].args[2] is q.args[1]:
                out[-1] = slice_(q.args[0], out[-1].args[1], q.args[2])
                continue
            out.append(q)
    if kind in ("b", "s"):
        if not out:
            return const(b"" if kind == "b" else "")
        if len(out) == 1:
            return out[0]
    elif len(out) == 1 and out[0].op != "unit":
        return out[0]
    return raw("cat", kind, *out)


def cat(kind, *parts):
    return lift(_cat_leaf, kind, *parts)


REBUILD["cat"] = cat
REBUILD["unit"] = lambda v: lift(unit, v)


def mklist(items):
    return cat("l", *[unit(x) for x in items])


EMPTY = raw("cat", "l")


def _bag_leaf(x):
    if x.op == "cat" and x.args[0] == "l":
        x = raw("cat", "l", *sorted(x.args[1:], key=dkey))
    return x if x.op == "bag" else raw("bag", x)


def bag(x):
    """a list whose order is left open"""
    return lift(_bag_leaf, x)


REBUILD["bag"] = bag


# dictionaries: dictv(k1, v1, ...) with pairwise different constant-like keys, else dictlog(operations);
# operations: (set, k, v), (extend, k, items): the list at k, empty unless present, grows; (update, d), ...


def uniq(s):
    """the items of s without repetitions (what iterating over a set of them or dict.fromkeys gives)"""
    if s.op == "uniq":
        return s
    if s.op == "unit":
        return s
    if s.op == "cat" and s.args[0] == "l" and all(p.op == "unit" for p in s.args[1:]):
        xs = list(dict.fromkeys(p.args[0] for p in s.args[1:]))
        obj = all((ty(x) or "").startswith("o:") for x in xs)  # compared by identity
        if obj or all(eq(x, y) is FALSE for i, x in enumerate(xs) for y in xs[:i]):
            return mklist(xs)
    return raw("uniq", s)


REBUILD["uniq"] = lambda s: lift(uniq, s)


def _keylike(k):
    return is_const(k) or k.op in ("class", "ext", "func")


def dict_set(d, k, v):
    if d.op == "dictv" and _keylike(k) and all(_keylike(x) for x in d.args[::2]):
        args = list(d.args)
        for i in range(0, len(args), 2):
            if args[i] is k:
                args[i + 1] = v
                return raw("dictv", *args)
        return raw("dictv", *args, k, v)
    return dict_op(d, "set", k, v)


def dict_log(d):
    if d.op == "dictlog":
        return d.args[0]
    if d.op == "dictv":
        return mklist([tup([const("set"), d.args[i], d.args[i + 1]]) for i in range(0, len(d.args), 2)])
    return unit(tup([const("update"), d]))


def closed_ops(d, k):
    """[(key, value)] of a dictionary filled in a few single steps outside of loops"""
    if hasvar(d) or hasvar(k) or d.args[0].op != "cat" or len(d.args[0].args) > 5:
        return None
    out = []
    for p in d.args[0].args[1:]:
        o = p.args[0] if p.op == "unit" else None
        if o is None or o.op != "tuple" or len(o.args) != 3 or o.args[0] is not const("set"):
            return None
        out.append((o.args[1], o.args[2]))
    return out


def dict_last(d, k):
    """the last operation on d, if it sets or extends the entry at k"""
    if d.op == "dictlog" and d.args[0].op == "cat" and d.args[0].args[-1].op == "unit":
        o = d.args[0].args[-1].args[0]
        if o.op == "tuple" and len(o.args) == 3 and o.args[1] is k and cv(o.args[0]) in ("set", "extend"):
            return o
    return None


def dict_op(d, op, k, v):
    if d.op == "ite":
        return ite(d.args[0], dict_op(d.args[1], op, k, v), dict_op(d.args[2], op, k, v))
    if op == "set" and v is index(d, k):
        return dict_op(d, "extend", k, EMPTY)
    if op == "set" and v.op == "cat" and v.args[0] == "l" and len(v.args) > 1:
        # d[k] = d[k] + items
        if v.args[1] is index(d, k):
            return dict_op(d, "extend", k, cat("l", *v.args[2:]))
    o = dict_last(d, k)
    if o is not None and op in ("set", "extend"):
        rest = cat("l", *d.args[0].args[1:-1])
        if op == "set":
            return raw("dictlog", cat("l", rest, unit(tup([const("set"), k, v]))))
        if o.args[0] is const("extend") or seqty(o.args[2]) == "l" and o.args[2].op != "obj":
            return raw("dictlog", cat("l", rest, unit(tup([o.args[0], k, cat("l", o.args[2], v)]))))
    return raw("dictlog", cat("l", dict_log(d), unit(tup([const(op), k, v]))))


def grown(d, k):
    """the entry at k, which the last operation on d sets or extends"""
    o = d.args[0].args[-1].args[0]
    if cv(o.args[0]) == "set":
        return o.args[2]
    ps = d.args[0].args[1:-1]
    d = _re_dictlog(cat("l", *ps)) if ps else raw("dictv")
    if len(ps) == 1 and ps[0].op == "unit" and len(ps[0].args[0].args) == 2:
        d = ps[0].args[0].args[1]
    return cat("l", ite(in_(k, d), index(d, k), EMPTY), o.args[2])


REBUILD["ddslot"] = lambda d, k: raw("ddslot", d, k) if d.op == "obj" else index(d, k)


def _re_dictlog(seq):
    ps = seq.args[1:] if seq.op == "cat" else (seq,)
    if all(p.op == "unit" and p.args[0].op == "tuple" and is_const(p.args[0].args[0]) for p in ps):
        d = raw("dictv")
        for i, p in enumerate(ps):
            o = p.args[0].args
            if i == 0 and cv(o[0]) == "update" and len(o) == 2:
                d = o[1]
            elif len(o) == 3:
                d = dict_set(d, o[1], o[2]) if cv(o[0]) == "set" else dict_op(d, cv(o[0]), o[1], o[2])
            else:
                break
        else:
            return d if d.op in ("dictlog", "ite") else raw("dictlog", dict_log(d))
    return raw("dictlog", seq)


REBUILD["dictlog"] = lambda seq: lift(_re_dictlog, seq)


def _dict_grow(atom, hi, lo):
    """d[k] grows or is made: one operation"""
    k, d = atom.args

    def made(x):
        if x.op == "ite":
            return ite(x.args[0], made(x.args[1]), made(x.args[2]))
        o = dict_last(x, k) if x.op == "dictlog" else None
        if o is None or o.args[0] is not const("set") or seqty(o.args[2]) != "l" or dict_set(d, k, o.args[2]) is not x:
            return x
        return dict_op(d, "extend", k, o.args[2])

    def agree(x, y):
        if x is y or x is d and y is dict_op(d, "extend", k, EMPTY):
            return True
        if x.op != "ite" and y.op != "ite":
            return False
        a = min([z.args[0] for z in (x, y) if z.op == "ite"], key=okey)
        (x1, x0), (y1, y0) = _branch(x, a), _branch(y, a)
        return agree(x1, y1) and agree(x0, y0)

    x = made(lo)
    if agree(hi, x):
        return x
    return raw("ite", atom, hi, x) if x is not lo else None


def empty(kind):
    return EMPTY if kind == "l" else const(b"" if kind == "b" else "")


unroll = 0  # rounds up to which accumulations are written out


def _fold(typ, n, init, *lams):
    """value of lams[0] after n rounds of the simultaneous updates lams"""
    if n.op == "ite":
        return ite(n.args[0], _fold(typ, n.args[1], init, *lams), _fold(typ, n.args[2], init, *lams))
    if n is const(0):
        return init.args[0]
    if unroll and is_int_const(n) and int(cv(n)) <= unroll:
        vs = list(init.args)
        for i in range(int(cv(n))):
            vs = [open_(l, *vs, const(i)) for l in lams]
        return vs[0]
    if n.op in ("first", "len", "lin", "param", "ceildiv"):
        c = len(lams)
        h = lams[0].args[0]
        tys = {}
        for l in lams:
            for x in _bvs(l.args[1], l.args[0]):
                tys[x.args[1]] = x.args[2]
        vs = [newlv("_", tys.get(j)) for j in range(c)] + [newk()]
        bodies = [open_(l, *vs) for l in lams]
        new = [_dom_facts(n, vs[-1], b) for b in bodies]
        if any(x is not y for x, y in zip(bodies, new)):
            lams = close(vs, *new)
    return raw("foldv", typ, n, init, *lams)


REBUILD["foldv"] = _fold


def _dom_facts(n, v, body):
    """simplify body knowing 0 <= v < n"""
    if n.op == "first":
        c = open_(n.args[1], v)
        if tree_atoms(c) & atoms(body):
            body = constrain(_assume_not(body, c), not_(c))
    for _ in range(3):
        m = {}
        for a in atoms(body):
            if a.op not in ("ge", "ieq"):
                continue
            r = _dom_atom(n, v, a)
            if r is not None and r is not a:
                m[a] = r
        if not m:
            break
        body = subst(body, m)
    return body


def islast(n, v):
    return eq(v, sub(n, const(1)))


def _dom_atom(n, v, a):
    L, c = a.args
    cc, d = _lin_parts(L)
    if v not in d:
        return None
    # express as  +-(v - n + j)
    cn, dn = _lin_parts(n)
    k = d[v]
    diff = _add(L, const(-c))  # atom: diff >= 0 or == 0
    last = _add(_add(v, _mulc(n, -1)), const(1))  # v - n + 1  (<= 0)
    if abs(k) >= 1:
        # case A: involves only v
        if set(d) == {v}:
            if a.op == "ge":
                # k*v >= c
                if k > 0 and c <= 0:
                    return TRUE
                if k < 0:  # -|k| v >= c  <=> v <= -c/|k|
                    if c > 0:
                        return FALSE
                if k == 1 and c == 1:
                    return not_(raw("ieq", v, 0)) if not (is_int_const(n)) else None
            if a.op == "ieq" and c % k == 0 and c // k < 0:
                return FALSE
            if is_int_const(n) and a.op == "ge" and k > 0 and c > k * (int(cv(n)) - 1):
                return FALSE
            return None
        # case B: v - n + j
        if not is_int_const(n):
            z = _add(diff, _mulc(last, -k))
            zc, zd = _lin_parts(z)
            if not zd:
                # diff = k*last + zc
                if a.op == "ge":
                    # k*last + zc >= 0 , last <= 0
                    if k > 0:
                        # last >= -zc/k
                        need = -(zc // k)  # ceil(-zc/k)
                        if need > 0:
                            return FALSE
                        if need == 0:
                            return eq(last, const(0)) if a is not eq(last, const(0)) else None
                        return None
                    else:
                        # |k| * (-last) >= -zc ; -last >= ceil(-zc/|k|)
                        need = -((zc) // (-k))
                        if need <= 0:
                            return TRUE
                        if need == 1:
                            return not_(eq(last, const(0)))
                        return None
                else:
                    if zc == 0:
                        return None
                    if k > 0 and zc < 0 or k < 0 and zc > 0:
                        return FALSE
                    return None
            # case C: n = ceildiv(X, m); diff = s*(m*v - X + r)
            base = n
            if base.op == "ceildiv" and is_int_const(base.args[1]):
                m = int(cv(base.args[1]))
                X = base.args[0]
                if abs(k) == m and a.op == "ge":
                    s = 1 if k > 0 else -1
                    y = _add(_mulc(v, m), _mulc(X, -1))
                    z = _add(diff, _mulc(y, -s))
                    zc, zd = _lin_parts(z)
                    if not zd:
                        # s=1: m v - X + zc >= 0  <=>  v >= (X - zc)/m  <=> v >= ceil((X-zc)/m)
                        #   zc == m: v >= ceil(X/m) - 1  <=> last ; 0<=... zc<=0: FALSE
                        if s == 1:
                            if zc <= 0:
                                return FALSE
                            if zc % m == 0 and zc == m:
                                return eq(last, const(0))
                        else:
                            # X - m v + zc >= 0 <=> v <= (X+zc)/m
                            # zc == -1: v < X/m: always true ; zc == -m-1 : m(v+1) < X <=> not last
                            if zc >= -1:
                                return TRUE
                            if zc == -m - 1:
                                return not_(eq(last, const(0)))
    return None


def _mapcat_leaf(kind, n, lam):
    if is_int_const(n):
        m = int(cv(n))
        if m <= 0:
            return empty(kind)
        if m <= 64:
            return cat(kind, *[open_(lam, const(i)) for i in range(m)])
    h, body = lam.args
    if body is empty(kind):
        return body
    # eta: mapcat(len(s), k. [s[k]]) = s
    if kind == "l" and body.op == "cat" and len(body.args) == 2 and body.args[1].op == "unit":
        body = body.args[1]
        lam = raw("lam", h, body)
    if kind == "l" and body.op == "unit":
        e = body.args[0]
        if e.op == "index" and e.args[1].op == "bv" and e.args[1].args[0] == h:
            s = e.args[0]
            if not _bvs(s, h) and n is length(s):
                return s
    if kind in ("b", "s") and body.op == "index" and kind == "s":
        e = body
        if e.args[1].op == "bv" and e.args[1].args[0] == h and not _bvs(e.args[0], h) and n is length(e.args[0]):
            return e.args[0]
    return raw("mapcat", kind, n, lam)


def mapcat(kind, n, var, body):
    """concatenation over var in [0, n) of the sequence body"""

    def leaf(nn):
        b = _dom_facts(nn, var, body)
        if nn is not n:
            pass
        (lam,) = close(var, b)
        return _mapcat_leaf(kind, nn, lam)

    if n.op == "ite":
        atom = n.args[0]
        return ite(atom, mapcat(kind, n.args[1], var, assume(body, atom, True)),
                   mapcat(kind, n.args[2], var, assume(body, atom, False)))
    return leaf(n)


def _re_mapcat(kind, n, lam):
    v = newk()
    return mapcat(kind, n, v, open_(lam, v))


REBUILD["mapcat"] = _re_mapcat


def exists(n, var, cond):
    if cond is FALSE:
        return FALSE
    if n.op == "ite":
        atom = n.args[0]
        return ite(atom, exists(n.args[1], var, assume(cond, atom, True)), exists(n.args[2], var, assume(cond, atom, False)))
    cond = _dom_facts(n, var, cond)
    if var not in fv(cond):
        return and_(ge(n, const(1)), cond)
    if cond.op == "ite" and var not in fv(cond.args[0]):
        return ite(cond.args[0], exists(n, var, cond.args[1]), exists(n, var, cond.args[2]))
    if cond.op == "ge" and cond.args[0] is var and cond.args[1] >= 0:
        return ge(n, const(cond.args[1] + 1))
    # some byte of x is not zero
    if cond.op == "ite" and cond.args[1] is FALSE and cond.args[2] is TRUE and cond.args[0].op == "ieq" and cond.args[0].args[1] == 0:
        x = cond.args[0].args[0]
        if x.op == "index" and x.args[1] is var and var not in fv(x.args[0]) and ty(x.args[0]) == "b" and n is length(x.args[0]):
            return anybyte(x.args[0])
    if is_int_const(n) and int(cv(n)) <= 64:
        return or_(*[subst(cond, {var: const(i)}) for i in range(int(cv(n)))])
    if n.op == "inf":
        n = n
    # the element equality  exists k. s[k] == x  is membership
    if cond.op == "eq":
        a, b = cond.args
        for x, y in ((a, b), (b, a)):
            if x.op == "index" and x.args[1] is var and var not in fv(x.args[0]) and var not in fv(y) and n is length(x.args[0]):
                return in_(y, x.args[0])
    (lam,) = close(var, cond)
    return raw("exists", n, lam)


def anybyte(x):
    def leaf(y):
        if is_const(y):
            return TRUE if any(cv(y)) else FALSE
        if y.op == "cat":
            return or_(*[anybyte(q) for q in y.args[1:]])
        return raw("anybyte", y)

    return lift(leaf, x)


REBUILD["anybyte"] = anybyte


def _re_exists(n, lam):
    v = newk()
    return exists(n, v, open_(lam, v))


REBUILD["exists"] = _re_exists


def first(n, var, cond):
    """the first var in [0,n) with cond (only meaningful when it exists)"""
    if cond is TRUE or n is const(1):
        return const(0)
    if n.op == "ite":
        atom = n.args[0]
        return ite(atom, first(n.args[1], var, assume(cond, atom, True)), first(n.args[2], var, assume(cond, atom, False)))
    cond = _dom_facts(n, var, cond)
    if var not in fv(cond):
        return const(0)
    if cond.op == "ite" and var not in fv(cond.args[0]):
        return ite(cond.args[0], first(n, var, cond.args[1]), first(n, var, cond.args[2]))
    (lam,) = close(var, cond)
    return raw("first", n, lam)


def _assume_not(val, c):
    """assume that none of the alternatives of c holds"""
    for a in tree_atoms(c):
        v = constrain(a, not_(c))
        if v is TRUE or v is FALSE:
            val = assume(val, a, v is TRUE)
    return val


def _re_first(n, lam):
    v = newk()
    return first(n, v, open_(lam, v))


REBUILD["first"] = _re_first


def atfirst(n, var, cond, val):
    """value of val at the first var in [0,n) with cond (only meaningful when it exists)"""
    val = constrain(val, cond) if val.op == "ite" or is_atom(val) else val
    val = _assume_all(val, cond)
    if var not in fv(val):
        return val
    return subst(val, {var: first(n, var, cond)})


def _assume_all(val, cond):
    """assume the top-level literals of a conjunction"""
    c = cond
    while c.op == "ite" or is_atom(c):
        if is_atom(c):
            return assume(val, c, True)
        a, hi, lo = c.args
        if lo is FALSE:
            val = assume(val, a, True)
            c = hi
        elif hi is FALSE:
            val = assume(val, a, False)
            c = lo
        else:
            break
    return val


CALL_LENGTH = None
BOUND = None  # number of items every list among the inputs has (None: any number)
MEMOS = (_varseqmemo, _loosememo, _slicememo, _clipmemo, _loopmemo, _assume_memo, _firstmemo, _atfirst, _ite_memo, _conmemo, _bvmemo)


def bound(k):
    """restrict the analysis to inputs with lists (and files with lines) of k items"""
    global BOUND, unroll
    BOUND = k
    unroll = 6 if k is not None else 0
    for m in MEMOS:
        m.clear()
    _assuming.clear()


def _length(s):
    if is_const(s) and isinstance(cv(s), (bytes, str)):
        return const(len(cv(s)))
    if s.op == "tuple":
        return const(len(s.args))
    if s.op == "dictv":
        return const(len(s.args) // 2)
    if s.op == "cat":
        acc = const(0)
        for p in s.args[1:]:
            acc = add(acc, const(1) if p.op == "unit" else length(p))
        return acc
    if s.op == "mapcat":
        kind, n, lam = s.args
        b = lam.args[1]
        if kind == "l" and b.op == "unit":
            return n
    if s.op == "fresh":
        return s.args[1]
    if s.op == "tobe":
        return s.args[1]
    if s.op == "slice" and seqty(s) in ("b", "s"):
        x, a, b = s.args
        L = length(x)
        if is_int_const(L) and is_int_const(a) and (b is NONE or is_int_const(b)):
            return const(len(range(int(cv(L)))[cv(a):cv(b)]))
    if s.op == "fmt" and s.args[1] is const("02x") and s.args[0].op == "index" and ty(s.args[0].args[0]) == "b":
        return const(2)
    if s.op in ("call", "mcall") and CALL_LENGTH is not None:
        r = CALL_LENGTH(s)
        if r is not None:
            return r
    if BOUND is not None and s.op in ("param", "call") and (ty(s) or "")[:1] == "l" and not hasvar(s):
        return const(BOUND)
    return raw("len", s)


def length(s):
    return lift(_length_push, s)


def _length_push(s):
    return _length(s)


REBUILD["len"] = length


def _norm_idx(s, i):
    if i is NONE:
        return NONE
    if is_int_const(i) and int(cv(i)) < 0:
        return raw("neg", -int(cv(i)))
    return i


def _cut(parts, x):
    """split a concatenation at offset x: (left, right), or None when x is not a recognisable boundary"""
    off = const(0)
    for i in range(len(parts) + 1):
        d = _add(x, _mulc(off, -1)) if x.op != "ite" else None
        if d is None or not is_int_const(d):
            d = None
        elif int(cv(d)) == 0:
            return parts[:i], parts[i:]
        if i == len(parts):
            return None
        l = length(parts[i])
        if l.op == "ite":
            return None
        if d is not None and is_int_const(l) and 0 < int(cv(d)) < int(cv(l)):
            return parts[:i] + [slice_(parts[i], const(0), d)], [slice_(parts[i], d, NONE)] + parts[i + 1:]
        off = add(off, l)
    return None


def _slice(s, a, b):
    if a is NONE:
        a = const(0)
    if b is NONE and a.op == "lin" or a is const(0) and b.op == "len":
        c, d = _lin_parts(a if b is NONE else b)
        if len(d) == 1:
            (u, f), = d.items()
            u = u.args[0] if u.op == "len" and f == 1 else NONE
            if u.op == "index" and u.args[1] is const(0) and u.args[0].op == "mcall" and u.args[0].args[0] == "partition":
                m = u.args[0]
                if m.args[1] is s and len(m.args) == 3 and is_const(m.args[2]):
                    if b is NONE and c == len(cv(m.args[2])):
                        return raw("index", m, const(2))
                    if b is not NONE and c == 0:
                        return u
    if s.op == "cat" and s.args[0] in ("b", "s") and a.op != "ite" and b.op != "ite" and not (is_int_const(a) and int(cv(a)) < 0) and not (is_int_const(b) and b is not NONE and int(cv(b)) < 0):
        parts = list(s.args[1:])
        if b is not NONE:
            r = _cut(parts, b)
            if r is not None:
                parts, b = r[0], NONE
        if a is not const(0):
            r = _cut(parts, a)
            if r is not None:
                b = b if b is NONE else add(b, mulc(a, -1))
                parts, a = r[1], const(0)
        if len(parts) != len(s.args) - 1 or any(x is not y for x, y in zip(parts, s.args[1:])):
            return slice_(cat(s.args[0], *parts), a, b)
    if a is const(0) and b is NONE and (seqty(s) in ("b", "s") or s.op == "content"):
        return s
    ints = lambda x: x is NONE or is_int_const(x)
    if is_const(s) and isinstance(cv(s), (bytes, str)) and ints(a) and ints(b):
        return const(cv(s)[cv(a):cv(b)])
    if s.op == "tuple" and ints(a) and ints(b):
        return tup(s.args[cv(a):cv(b)])
    if s.op == "cat" and s.args[0] == "l" and ints(a) and ints(b) and all(p.op == "unit" for p in s.args[1:]):
        return cat("l", *s.args[1:][cv(a):cv(b)])
    if is_const(s) and isinstance(cv(s), (bytes, str)) and len(cv(s)) == 0:
        return s
    neg = lambda x: is_int_const(x) and int(cv(x)) < 0
    # prefix/suffix of a concatenation with known-length parts
    if s.op == "cat" and s.args[0] in ("b", "s"):
        parts = list(s.args[1:])
        if is_int_const(a) and int(cv(a)) > 0:
            off = int(cv(a))
            i = 0
            while i < len(parts) and off > 0:
                l = length(parts[i])
                if not is_int_const(l) or int(cv(l)) > off:
                    if is_const(parts[i]):
                        parts[i] = const(cv(parts[i])[off:])
                        off = 0
                    break
                off -= int(cv(l))
                i += 1
            if off == 0:
                nb = b if b is NONE or neg(b) else add(b, mulc(a, -1))
                return slice_(cat(s.args[0], *parts[i:]), const(0), nb)
        if a is const(0) and is_int_const(b) and int(cv(b)) >= 0:
            left = int(cv(b))
            out = []
            ok = True
            for q in parts:
                l = length(q)
                if not is_int_const(l):
                    ok = False
                    break
                if int(cv(l)) <= left:
                    out.append(q)
                    left -= int(cv(l))
                    if left == 0:
                        break
                else:
                    out.append(slice_(q, const(0), const(left)))
                    left = 0
                    break
            if ok:
                return cat(s.args[0], *out)
    if s.op == "slice" and not neg(a) and not neg(s.args[1]):
        x, a0, b0 = s.args
        if b0 is NONE:
            if b is NONE:
                return slice_(x, add(a0, a), NONE)
            if not neg(b):
                return slice_(x, add(a0, a), add(a0, b))
        elif is_int_const(a) and is_int_const(b) and is_int_const(a0) and is_int_const(b0) and not neg(b) and not neg(b0):
            return slice_(x, add(a0, a), const(min(cv(b0), cv(a0) + cv(b))))
        elif b is NONE and not neg(b0) and is_int_const(a) and False:
            pass
    if a is const(0) and b is not NONE and b is length(s) and seqty(s) in ("b", "s"):
        return s
    if seqty(s) in ("b", "s") and (a is length(s) or a is b and not neg(a)):
        return const(b"" if seqty(s) == "b" else "")
    if seqty(s) in ("b", "s") and b is not NONE and is_int_const(b):
        L = length(s)
        if is_int_const(L):
            if int(cv(b)) >= int(cv(L)):
                b = NONE
                if a is const(0):
                    return s
            elif int(cv(b)) < 0 and int(cv(L)) + int(cv(b)) >= 0:
                b = const(int(cv(L)) + int(cv(b)))
            if is_int_const(a) and int(cv(a)) < 0 and int(cv(L)) + int(cv(a)) >= 0:
                a = const(int(cv(L)) + int(cv(a)))
    if b is not NONE and b is length(s):
        b = NONE
    return raw("slice", s, a, b)


def slice_(s, a, b):
    return lift(_slice, s, a, b)


REBUILD["slice"] = slice_


def _index(s, i):
    if s.op == "dictlog":
        o = dict_last(s, i)
        if o is not None:
            return grown(s, i)
        ops = closed_ops(s, i)
        if ops:
            r = raw("index", raw("dictv"), i)
            for k, v in ops:
                r = ite(eq(i, k), v, r)
            return r
    if is_int_const(i):
        n = int(cv(i))
        if s.op == "tuple":
            if -len(s.args) <= n < len(s.args):
                return s.args[n]
        if is_const(s) and isinstance(cv(s), (str, bytes)):
            if -len(cv(s)) <= n < len(cv(s)):
                return const(cv(s)[n])
        if s.op == "cat" and s.args[0] == "l":
            ps = s.args[1:]
            if n >= 0 and all(p.op == "unit" for p in ps[: n + 1]) and n < len(ps):
                return ps[n].args[0]
            if n < 0 and all(p.op == "unit" for p in ps[n:]) and -n <= len(ps):
                return ps[n].args[0]
        if s.op == "upd" and n == -1:
            return s.args[1]
    if s.op == "mapcat" and s.args[0] == "l" and s.args[2].args[1].op == "unit" and not (is_int_const(i) and int(cv(i)) < 0):
        return open_(s.args[2], i).args[0]
    if s.op == "unpack":
        r = _unpack_item(s, i)
        if r is not None:
            return r
    if s.op == "dictv":
        out = raw("index", s, i)
        for j in range(len(s.args) - 2, -1, -2):
            out = ite(eq(i, s.args[j]), s.args[j + 1], out)
        return out
    if s.op == "slice" and (is_int_const(i) and int(cv(i)) >= 0 or i.op in ("k", "bv")) and not (
            is_int_const(s.args[1]) and int(cv(s.args[1])) < 0):
        x, a, b = s.args
        if ty(s) == "b" and b is NONE:
            return raw("index", x, add(a, i))
        if all(is_int_const(y) for y in (a, b, i)) and int(cv(a)) + int(cv(i)) < int(cv(b)):
            return index(x, add(a, i))
    return raw("index", s, i)


def _unpack_item(s, i):
    fmt, data = s.args
    import struct

    if not (is_const(fmt) and is_int_const(i)):
        return None
    f = cv(fmt)
    if isinstance(f, bytes):
        f = f.decode()
    codes = f.lstrip(">!")
    if codes == "B":
        pass
    elif not (f.startswith(">") or f.startswith("!")):
        return None
    if not all(ch in "BHIQ" for ch in codes):
        return None
    off = 0
    for j, ch in enumerate(codes):
        w = struct.calcsize(">" + ch)
        if j == int(cv(i)):
            return be(data if len(codes) == 1 else slice_(data, const(off), const(off + w)))
        off += w
    return None


def index(s, i):
    return lift(_index, s, i)


REBUILD["index"] = index


def _attr(x, name):
    if x.op == "inst":
        for i in range(2, len(x.args), 2):
            if cv(x.args[i]) == name:
                return x.args[i + 1]
    if x.op == "setf":
        return x.args[2] if cv(x.args[1]) == name else attr(x.args[0], name)
    return raw("attr", x, name)


def attr(x, name):
    return lift(lambda y: _attr(y, name), x)


REBUILD["attr"] = attr


def _be(x):
    if is_const(x) and isinstance(cv(x), bytes):
        return const(int.from_bytes(cv(x), "big"))
    if x.op == "tobe":
        return x.args[0]
    if x.op == "cat" and len(x.args) == 3 and x.args[1].op == "tobe" and is_const(x.args[2]) and isinstance(cv(x.args[2]), bytes):
        return add(mulc(x.args[1].args[0], 256 ** len(cv(x.args[2]))), const(int.from_bytes(cv(x.args[2]), "big")))
    return raw("be", x)


be = strict("be", _be)


def _tobe(n, w):
    if is_int_const(n) and is_int_const(w):
        try:
            return const(int(cv(n)).to_bytes(int(cv(w)), "big"))
        except OverflowError:
            pass
    elif is_int_const(w) and n.op == "lin":
        c, rest = _lin_parts(n)
        j = 0
        while j + 1 < int(cv(w)) and all(not q % 256 ** (j + 1) for q in rest.values()):
            j += 1
        if j:
            m = 256 ** j
            return cat("b", _tobe(_mk_lin(c // m, {u: q // m for u, q in rest.items()}), const(int(cv(w)) - j)), const((c % m).to_bytes(j, "big")))
    return raw("tobe", n, w)


tobe = strict("tobe", _tobe)


# --------------------------------------------------------------------------- printing


def show(t, depth=9):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.args
    if o == "const":
        r = repr(a[1])
        return r if len(r) < 60 else r[:57] + "...'"
    if o == "param":
        return a[0]
    if o in ("call", "mcall"):
        if o == "mcall":
            return "%s.%s(%s)" % (s(a[1]), a[0], ", ".join(s(x) for x in a[2:]))
        return "%s(%s)" % (a[0].split(".")[-1], ", ".join(s(x) for x in a[1:]))
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "cat":
        if a[0] == "l":
            return "[" + ", ".join(s(x.args[0]) if x.op == "unit" else "*" + s(x) for x in a[1:]) + "]"
        return "(" + " ++ ".join(s(x) for x in a[1:]) + ")"
    if o == "mapcat":
        return "⟦%s for k%d<%s⟧" % (s(a[2].args[1]), a[2].args[0], s(a[1]))
    if o == "exists":
        return "∃k%d<%s: %s" % (a[1].args[0], s(a[0]), s(a[1].args[1]))
    if o == "first":
        return "first(k%d<%s: %s)" % (a[1].args[0], s(a[0]), s(a[1].args[1]))
    if o == "bv":
        return "k%d" % a[0] + ("_%d" % a[1] if a[1] else "")
    if o == "lin":
        out = []
        for i in range(1, len(a), 2):
            out.append(("%d*" % a[i] if a[i] != 1 else "") + s(a[i + 1]))
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if o == "ge":
        return "%s >= %d" % (s(a[0]), a[1])
    if o in ("eq", "is"):
        return "%s %s %s" % (s(a[0]), "==" if o == "eq" else "is", s(a[1]))
    if o == "ieq":
        return "%s == %d" % (s(a[0]), a[1])
    if o == "slice":
        return "%s[%s:%s]" % (s(a[0]), s(a[1]), "" if a[2] is NONE else s(a[2]))
    if o == "index":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "fresh":
        return "random#%s(%s)" % (hashlib.md5(str(a[0]).encode()).hexdigest()[:3], s(a[1]))
    if o == "ext":
        return a[0].split(".")[-1]
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ",)"
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# --------------------------------------------------------------------------- comparison


def canon_fresh(t):
    """rename the sites of random draws by order of first occurrence"""
    order = {}

    def walk(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x.op == "fresh":
            if x.args[0] not in order:
                order[x.args[0]] = "r%d" % len(order)
        for a in x.args:
            if isinstance(a, T):
                walk(a, seen)

    walk(t, set())
    memo = {}

    def ren(x):
        if x in memo:
            return memo[x]
        if not any(isinstance(a, T) for a in x.args):
            r = x
            if x.op == "fresh":
                r = raw("fresh", order[x.args[0]], *x.args[1:])
        else:
            args = [ren(a) if isinstance(a, T) else a for a in x.args]
            if x.op == "fresh":
                args[0] = order[x.args[0]]
            r = raw(x.op, *args)
        memo[x] = r
        return r

    return ren(t)


def equal(a, b):
    return a is b or canon_fresh(a) is canon_fresh(b)


def diff(a, b):
    """deepest pair of differing subterms"""
    a, b = canon_fresh(a), canon_fresh(b)
    while True:
        if a is b:
            return None
        if a.op != b.op or len(a.args) != len(b.args):
            return a, b
        d = [(x, y) for x, y in zip(a.args, b.args) if x is not y]
        if len(d) == 1 and isinstance(d[0][0], T) and isinstance(d[0][1], T):
            a, b = d[0]
            continue
        return a, b
