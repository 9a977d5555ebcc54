"""Models of the standard library and of the third-party packages used by the analysed code.

A library call is an opaque term `call(name, args...)`; only algebraic laws that identify different
spellings of the same operation are built in (argument defaults, codec pairs, key import/export,
streams, hash objects, ...).
"""
import ast
import builtins as _py
import re
import stat as _stat
import struct as _struct

from . import terms as t
from .terms import T, raw, const, TRUE, FALSE, NONE, ite, and_, or_, not_, is_const, cv, ty

BUILTINS = {n for n in dir(_py) if not n.startswith("__")} | {"__import__"}

# ---------------------------------------------------------------------- names

_C = "cryptography.hazmat.primitives."
PREFIX = [
    (_C + "asymmetric.x25519.", ""), (_C + "asymmetric.ed25519.", ""), (_C + "asymmetric.rsa.", "rsa."),
    (_C + "asymmetric.dsa.", "dsa."), (_C + "asymmetric.ec.", "ec."), (_C + "asymmetric.padding.", "padding."),
    (_C + "ciphers.aead.", ""), (_C + "ciphers.algorithms.", "alg."), (_C + "ciphers.modes.", "mode."),
    (_C + "ciphers.", "ciphers."), (_C + "hashes.", "hashes."), (_C + "hmac.", "chmac."),
    (_C + "kdf.hkdf.", ""), (_C + "kdf.scrypt.", ""), (_C + "serialization.", "ser."),
    ("cryptography.hazmat.primitives.asymmetric.", "asym."),
    ("cryptography.exceptions.", "cryptography.exceptions."), ("nacl.bindings.", "nacl."),
]
ALIAS = {
    "glob.iglob": "glob.glob",
    "posixpath": "os.path", "secrets.token_bytes": "os.urandom", "time.time_ns": "time.time_ns",
    "datetime.datetime": "datetime", "base64.standard_b64encode": "base64.b64encode",
    "base64.standard_b64decode": "base64.b64decode", "codecs.encode": "codecs.encode",
    "io.open": "builtins.open", "collections.abc": "typing", "os.path.expanduser": "os.path.expanduser",
    "secrets.compare_digest": "hmac.compare_digest", "builtins.IOError": "builtins.OSError",
    "builtins.EnvironmentError": "builtins.OSError",
    "cryptography.hazmat.primitives.constant_time.bytes_eq": "hmac.compare_digest",
    "typing_extensions": "typing",
}


def canon(n):
    n = ALIAS.get(n, n)
    for p, q in PREFIX:
        if n.startswith(p) or n + "." == p and q:
            n = q + n[len(p):] if n.startswith(p) else q.rstrip(".")
            break
    if n.startswith("asym."):
        n = n[5:]
        if n in ("x25519", "ed25519"):
            return "asym." + n
        for m in ("x25519.", "ed25519."):
            if n.startswith(m):
                n = n[len(m):]
    if n.startswith("collections.abc."):
        n = "typing." + n[16:]
    return ALIAS.get(n, n)


ONEARG = "x"
# parameter names of library callables whose keywords are put in positional order
SIG = {
    "base64.b64decode": ["s", "altchars", "validate"], "base64.b64encode": ["s", "altchars"],
    "HKDF": ["algorithm", "length", "salt", "info", "backend"],
    "Scrypt": ["salt", "length", "n", "r", "p", "backend"],
    "chmac.HMAC": ["key", "algorithm", "backend"],
    "hashes.Hash": ["algorithm", "backend"],
    "ChaCha20Poly1305": ["key"],
    "ciphers.Cipher": ["algorithm", "mode", "backend"],
    "padding.OAEP": ["mgf", "algorithm", "label"], "padding.MGF1": ["algorithm"],
    "rsa.RSAPublicNumbers": ["e", "n"],
    "rsa.RSAPrivateNumbers": ["p", "q", "d", "dmp1", "dmq1", "iqmp", "public_numbers"],
    "rsa.generate_private_key": ["public_exponent", "key_size", "backend"],
    "dsa.DSAParameterNumbers": ["p", "q", "g"], "dsa.DSAPublicNumbers": ["y", "parameter_numbers"],
    "dsa.DSAPrivateNumbers": ["x", "public_numbers"],
    "ec.EllipticCurvePrivateNumbers": ["private_value", "public_numbers"],
    "ec.EllipticCurvePublicKey.from_encoded_point": ["curve", "data"],
    "ser.load_pem_private_key": ["data", "password", "backend"],
    "ser.load_ssh_public_key": ["data", "backend"],
    "ser.load_ssh_private_key": ["data", "password", "backend"],
    "bcrypt.kdf": ["password", "salt", "desired_key_bytes", "rounds", "ignore_few_rounds"],
    "hashlib.scrypt": ["password", "salt", "n", "r", "p", "maxmem", "dklen"],
    "requests.get": ["url", "params"], "glob.glob": ["pathname"],
    "builtins.open": ["file", "mode", "buffering", "encoding", "errors", "newline"],
    "io.TextIOWrapper": ["buffer", "encoding", "errors", "newline", "line_buffering", "write_through"],
    "X25519PrivateKey.from_private_bytes": ["data"], "X25519PublicKey.from_public_bytes": ["data"],
    "Ed25519PrivateKey.from_private_bytes": ["data"], "Ed25519PublicKey.from_public_bytes": ["data"],
    "hmac.new": ["key", "msg", "digestmod"], "hmac.digest": ["key", "msg", "digest"],
    "textwrap.fill": ["text", "width"], "textwrap.wrap": ["text", "width"],
    "nacl.crypto_scalarmult": ["n", "p"], "nacl.crypto_scalarmult_base": ["n"],
    "click.prompt": ["text"], "builtins.int": ["x", "base"], "builtins.sum": ["x", "start"],
    "builtins.enumerate": ["iterable", "start"], "builtins.str": ["object", "encoding", "errors"],
    "builtins.bytes": ["source", "encoding"], "struct.unpack": ["format", "buffer"],
    "collections.namedtuple": ["typename", "field_names"],
    "builtins.int.from_bytes": ["bytes", "byteorder", "signed"], "re.match": ["pattern", "string", "flags"],
    "re.search": ["pattern", "string", "flags"], "re.fullmatch": ["pattern", "string", "flags"],
    "re.compile": ["pattern", "flags"],
}
DROP = {"backend"}
MSIG = {
    "encrypt": ["nonce", "data", "associated_data"], "decrypt": ["nonce", "data", "associated_data"],
    "public_bytes": ["encoding", "format"],
    "private_bytes": ["encoding", "format", "encryption_algorithm"],
    "to_bytes": ["length", "byteorder", "signed"], "decode": ["encoding", "errors"],
    "encode": ["encoding", "errors"], "split": ["sep", "maxsplit"], "rsplit": ["sep", "maxsplit"],
    "read": ["size"], "derive": ["key_material"], "verify": ["signature"], "splitlines": ["keepends"],
}

t.RET.update({
    "builtins.str": "s", "builtins.repr": "s", "builtins.hex": "s", "builtins.bin": "s", "builtins.chr": "s",
    "builtins.oct": "s", "builtins.ascii": "s", "builtins.format": "s",
    "builtins.hash": "i", "builtins.int": "i", "builtins.ord": "i", "builtins.abs": "i", "builtins.bytes": "b",
    "builtins.round": "i",
    "os.path.expanduser": "s", "os.path.join": "s", "os.path.isfile": "bool", "os.path.exists": "bool",
    "os.path.isdir": "bool", "os.path.basename": "s", "os.path.dirname": "s", "os.path.abspath": "s",
    "glob.glob": "l:s", "os.listdir": "l:s", "base64.b64encode": "b", "base64.b64decode": "b",
    "base64.urlsafe_b64encode": "b", "base64.urlsafe_b64decode": "b", "base64.b16encode": "b",
    "base64.b32encode": "b", "base64.b32decode": "b",
    "hkdf": "b", "scrypt": "b", "hmac": "b", "hash": "b", "cipher": "b", "bcrypt.kdf": "b",
    "nacl.crypto_scalarmult": "b", "nacl.crypto_scalarmult_base": "b",
    "nacl.crypto_core_ed25519_scalar_reduce": "b", "nacl.crypto_sign_ed25519_pk_to_curve25519": "b",
    "nacl.crypto_sign_ed25519_sk_to_curve25519": "b", "click.prompt": "s", "builtins.input": "s",
    "getpass.getpass": "s", "text.wrap": "s", "open.text": "s", "open.bytes": "b", "textdecode": "s",
    "rsa.rsa_crt_dmp1": "i", "rsa.rsa_crt_dmq1": "i", "rsa.rsa_crt_iqmp": "i", "line": None,
    "re.group": "s", "re.sub": "s", "os.getenv": "s", "builtins.sorted": "l", "textwrap.wrap": "l:s",
    "textwrap.fill": "s", "fill_at_hyphens": "s", "fill_whole_words": "s", "json.dumps": "s", "aead.encrypt": "b", "aead.decrypt": "b", "rsa.encrypt": "b", "rsa.decrypt": "b",
    "re.findall": "l:s", "re.split": "l:s", "os.stat": "t:i", "stream.read": "b", "isatty": "bool",
})
t.MRET.update({
    "strip": "self", "lstrip": "self", "rstrip": "self", "lower": "self", "upper": "self", "replace": "self",
    "encode": "b", "decode": "s", "hex": "s", "title": "self", "casefold": "self", "swapcase": "self",
    "join": "self", "format": "s", "zfill": "self", "ljust": "self", "rjust": "self", "center": "self",
    "removeprefix": "self", "removesuffix": "self", "translate": "self", "capitalize": "self",
    "expandtabs": "self", "find": "i", "rfind": "i", "index": "i", "rindex": "i", "count": "i",
    "isdigit": "bool", "isalpha": "bool", "isalnum": "bool", "isspace": "bool", "isupper": "bool",
    "islower": "bool", "isascii": "bool", "isdecimal": "bool", "isnumeric": "bool", "isprintable": "bool",
    "split": "l", "rsplit": "l", "splitlines": "l", "partition": "l", "rpartition": "l",
    "public_bytes": "b", "private_bytes": "b", "bit_length": "i", "fileno": "i", "isatty": "bool",
    "binary_encoding": "b", "public_string": "s", "fingerprint": "s", "private_string": "s",
})
t.ATTR.update({"text": "s", "key_size": "i"})

t.EXC_PARENT.update({
    "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "EOFError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "MemoryError": "Exception",
    "NameError": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError",
    "PermissionError": "OSError", "IsADirectoryError": "OSError", "BlockingIOError": "OSError",
    "BrokenPipeError": "OSError", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "StopIteration": "Exception", "TypeError": "Exception",
    "ValueError": "Exception", "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError",
    "UnicodeEncodeError": "UnicodeError", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "GeneratorExit": "BaseException", "InvalidTag": "Exception",
    "InvalidSignature": "Exception", "InvalidKey": "Exception", "UnsupportedAlgorithm": "Exception",
    "AlreadyFinalized": "Exception", "error": "Exception", "Error": "ValueError",
    "UnsupportedOperation": "OSError", "HTTPError": "RequestException", "RequestException": "OSError",
    "Timeout": "RequestException", "ClickException": "Exception", "UsageError": "ClickException",
    "BadParameter": "UsageError", "Abort": "RuntimeError", "Exit": "RuntimeError", "Warning": "Exception",
})

# exceptions of library calls: always part of the behaviour
ALWAYS = {
    "aead.decrypt": ["InvalidTag"], "rsa.decrypt": ["ValueError"],
    "nacl.crypto_scalarmult": ["RuntimeError"],  # a point of low order
}
# exceptions that matter only below a handler that catches them
EXC = {
    "base64.b64decode": ["Error"], "builtins.int": ["ValueError"],
    "ser.load_pem_private_key": ["ValueError", "TypeError", "UnsupportedAlgorithm"],
    "ser.load_ssh_public_key": ["ValueError", "UnsupportedAlgorithm"],
    "ser.load_ssh_private_key": ["ValueError", "TypeError", "UnsupportedAlgorithm"],
    "X25519PublicKey.from_public_bytes": ["ValueError"], "X25519PrivateKey.from_private_bytes": ["ValueError"],
    "Ed25519PrivateKey.from_private_bytes": ["ValueError"],
    "requests.get": ["RequestException"], "decode": ["UnicodeDecodeError"], "encode": ["UnicodeEncodeError"],
    "open": ["OSError"], "fileno": ["UnsupportedOperation"], "os.stat": ["OSError"],
    "nacl.crypto_scalarmult": ["TypeError"], "bcrypt.kdf": ["ValueError"],
    "aead.decrypt": [], "rsa.decrypt": [], "private_key": ["ValueError"],
    "ec.EllipticCurvePublicKey.from_encoded_point": ["ValueError"],
    "click.prompt": ["Abort"],
}

PURE = {"hkdf", "scrypt", "hmac", "hash", "cipher", "os.path.expanduser", "os.path.join", "os.path.isfile", "glob.glob"}


def sha(x):
    """canonical hash name"""
    if x.op == "call" and x.args[0].startswith("hashes."):
        return const(x.args[0].split(".")[-1].lower())
    if x.op == "ext":
        return const(x.args[0].split(".")[-1].lower())
    if is_const(x) and isinstance(cv(x), str):
        return const(cv(x).lower().replace("-", ""))
    return x


def normalise(name, args, kwargs, sig=SIG):
    """keywords into positional order; returns (args, leftover kwargs)"""
    s = sig.get(name)
    kwargs = {k: v for k, v in kwargs.items() if k not in DROP}
    if s is None:
        return list(args), kwargs
    args = list(args)
    n = [p for p in s if p in kwargs]
    if n:
        hi = max(s.index(p) for p in n)
        for i in range(len(args), hi + 1):
            args.append(kwargs.pop(s[i], None))
    return args, kwargs


def trim(args, defaults):
    """drop trailing default arguments"""
    args = [d if a is None else a for a, d in zip(args, list(defaults) + [NONE] * len(args))]
    while args and len(args) <= len(defaults) and args[-1] is defaults[len(args) - 1] and defaults[len(args) - 1] is not _REQ:
        args.pop()
    return args


_REQ = raw("required")


# ---------------------------------------------------------------------- exceptions


def raises(callterm, exc):
    return raw("raises", callterm, exc)


def maybe_raise(interp, name, callterm, st, node):
    for e in ALWAYS.get(name, ()):
        interp.raise_if(t.lift(lambda c: raises(c, e), callterm), e, st, node)
    lst = getattr(interp, "opaque_raises", {}).get(name)
    if lst is None:
        lst = EXC.get(name, ())
    for e in lst:
        sure = e.startswith("!")  # followed whether or not somebody catches it
        e = e.lstrip("!")
        if sure or interp.catches(e):
            interp.raise_if(t.lift(lambda c, e=e: raises(c, e), callterm), e, st, node)


# ---------------------------------------------------------------------- text


def fmt(v, spec):
    if is_const(v) and is_const(spec):
        try:
            return const(format(cv(v), cv(spec)))
        except Exception:
            pass
    if spec is const("") and ty(v) == "s":
        return v
    return t.lift(lambda a, b: raw("fmt", a, b), v, spec)


def str_of(v):
    if ty(v) == "s":
        return v
    if is_const(v):
        return const(str(cv(v)))
    if v.op == "call" and v.args[0] == "builtins.str":
        return v
    return t.lift(lambda x: x if ty(x) == "s" else raw("call", "builtins.str", x), v)


def repr_of(v):
    if is_const(v):
        return const(repr(cv(v)))
    return t.lift(lambda x: raw("call", "builtins.repr", x), v)


def percent(interp, a, b, st, node):
    if not is_const(a) or ty(a) != "s":
        if is_const(a) and is_const(b):
            try:
                return const(cv(a) % cv(b))
            except Exception:
                pass
        return raw("call", "percent", interp.reify(a, st), interp.reify(b, st))
    items = list(b.args) if b.op == "tuple" else [b]
    out, s, i, k = [], cv(a), 0, 0
    while i < len(s):
        j = s.find("%", i)
        if j < 0:
            out.append(const(s[i:]))
            break
        out.append(const(s[i:j]))
        m = j + 1
        while m < len(s) and s[m] in "0123456789.-+# ":
            m += 1
        c = s[m]
        spec = s[j + 1:m]
        if c == "%":
            out.append(const("%"))
        else:
            v = items[k] if k < len(items) else t.unknown("format")
            k += 1
            if c == "s" and not spec:
                out.append(interp.str_(v, st, node))
            elif c == "r" and not spec:
                out.append(interp.repr_(v, st, node))
            elif c in "di" and not spec:
                out.append(str_of(v))
            else:
                out.append(fmt(interp.reify(v, st), const(spec + c)))
        i = m + 1
    return t.cat("s", *out)


def str_format(interp, s, args, kwargs, st, node):
    import string

    out = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError:
        return interp.unk("format string", node)
    for lit, name, spec, conv in fields:
        out.append(const(lit))
        if name is None:
            continue
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        elif name in kwargs:
            v = kwargs[name]
        else:
            return interp.unk("format field", node)
        if conv == "r":
            v = interp.repr_(v, st, node)
        out.append(interp.format_(v, const(spec) if spec else None, st, node))
    return t.cat("s", *out)


def codec(x):
    if is_const(x):
        c = cv(x).lower().replace("_", "-")
        return const({"utf8": "utf-8", "us-ascii": "ascii", "latin1": "latin-1", "iso-8859-1": "latin-1"}.get(c, c))
    return x


def _asciib(v):
    """bytes term known to be ASCII"""
    if is_const(v):
        return isinstance(cv(v), bytes) and all(c < 128 for c in cv(v))
    if v.op == "call":
        return v.args[0] in ("base64.b64encode", "base64.b16encode", "base64.b32encode")
    if v.op == "mcall" and v.args[0] in ("rstrip", "strip", "lstrip", "replace", "lower", "upper"):
        return all(_asciib(a) for a in v.args[1:])
    if v.op in ("slice",):
        return _asciib(v.args[0])
    if v.op == "cat":
        return all(_asciib(a) for a in v.args[1:])
    return False


def _asciis(v):
    if is_const(v):
        return isinstance(cv(v), str) and cv(v).isascii()
    if v.op == "mcall" and v.args[0] == "decode":
        return _asciib(v.args[1]) or (len(v.args) > 2 and v.args[2] is const("ascii"))
    if v.op == "mcall" and v.args[0] in ("rstrip", "strip", "lstrip", "replace", "lower", "upper"):
        return all(_asciis(a) for a in v.args[1:])
    if v.op == "slice":
        return _asciis(v.args[0])
    if v.op == "cat":
        return all(_asciis(a) for a in v.args[1:])
    if v.op == "mapcat":
        return all(_asciis(x) for x in t.leaves(v.args[2].args[1]))
    if v.op == "call" and v.args[0] == "builtins.str":
        return ty(v.args[1]) in ("i", "bool")
    return False


def decode(v, enc, errors=None):
    def leaf(x):
        e = enc
        if is_const(x) and is_const(e) and errors is None:
            try:
                return const(cv(x).decode(cv(e)))
            except Exception:
                pass
        if is_const(x) and cv(x) == b"":
            return const("")
        if errors is None:
            if e in (const("utf-8"), const("ascii")) and _asciib(x):
                e = const("ascii")
            if x.op == "mcall" and x.args[0] == "encode" and (x.args[2] is enc or x.args[2] is e):
                return x.args[1]
            if x.op == "mcall" and x.args[0] in ("rstrip", "lstrip", "replace") and len(x.args) > 2 and all(
                    is_const(a) and _asciib(a) for a in x.args[2:]):
                return strmethod(x.args[0], decode(x.args[1], e), [const(cv(a).decode()) for a in x.args[2:]])
            if x.op == "slice" and e is const("ascii"):
                return t.slice_(decode(x.args[0], e), x.args[1], x.args[2])
            return raw("mcall", "decode", x, e)
        return raw("mcall", "decode", x, e, errors)

    p = t.lift(leaf, v)
    return p


def encode(v, enc, errors=None):
    def leaf(x):
        e = enc
        if is_const(x) and is_const(e) and errors is None:
            try:
                return const(cv(x).encode(cv(e)))
            except Exception:
                pass
        if errors is None:
            if x.op == "cat" and x.args[0] == "s":
                return t.cat("b", *[encode(p, enc) for p in x.args[1:]])
            if x.op == "mapcat" and x.args[0] == "s":
                k = t.newk()
                return t.mapcat("b", x.args[1], k, encode(t.open_(x.args[2], k), enc))
            if x.op == "mcall" and x.args[0] == "decode" and len(x.args) == 3 and (
                    x.args[2] is enc or x.args[2] is const("ascii") and enc is const("utf-8")):
                return x.args[1]
            if e is const("utf-8") and _asciis(x):
                e = const("ascii")
            if e is const("ascii") and x.op == "slice":
                return t.slice_(encode(x.args[0], e), x.args[1], x.args[2])
            if x.op == "mcall" and x.args[0] in ("rstrip", "lstrip", "replace") and e is const("ascii") and len(x.args) > 2 and all(
                    is_const(a) and _asciis(a) for a in x.args[2:]):
                return strmethod(x.args[0], encode(x.args[1], e), [const(cv(a).encode()) for a in x.args[2:]])
            return raw("mcall", "encode", x, e)
        return raw("mcall", "encode", x, e, errors)

    return t.lift(leaf, v)


HASHLEN = {"sha256": 32, "sha512": 64, "sha1": 20, "md5": 16, "sha384": 48, "sha224": 28}


def call_length(s):
    """length of the result of a library call, or None"""
    n = s.args[0]
    a = s.args[1:]
    if s.op == "call":
        if n == "hkdf":
            return a[1]
        if n == "scrypt":
            return a[1]
        if n in ("hash", "hmac") and is_const(a[0]) and cv(a[0]) in HASHLEN:
            return const(HASHLEN[cv(a[0])])
        if n in ("nacl.crypto_scalarmult", "nacl.crypto_scalarmult_base", "nacl.crypto_core_ed25519_scalar_reduce",
                 "nacl.crypto_sign_ed25519_pk_to_curve25519", "nacl.crypto_sign_ed25519_sk_to_curve25519"):
            return const(32)
        if n == "aead.encrypt" and len(a) > 2:
            return t.add(t.length(a[2]), const(16))
        if n == "aead.decrypt" and len(a) > 2:
            return t.sub(t.length(a[2]), const(16))
        if n == "base64.b64encode":
            return t.mul(const(4), t._ceildiv(t.length(a[0]), const(3)))
        if n == "rsa.encrypt":
            return None
        if n == "cipher" and len(a) == 4:
            return t.length(a[3])
    if s.op == "mcall":
        if n == "rstrip" and len(a) == 2 and a[1] in (const(b"="), const("=")):
            x = a[0]
            if x.op == "mcall" and x.args[0] == "decode":
                x = x.args[1]
            if x.op == "call" and x.args[0] == "base64.b64encode":
                m = t.length(x.args[1])
                if t.is_int_const(m):
                    m = cv(m)
                    return const(4 * (m // 3) + {0: 0, 1: 2, 2: 3}[m % 3])
        if n == "decode" and _asciib(a[0]):
            return t.length(a[0])
        if n == "encode" and _asciis(a[0]):
            return t.length(a[0])
        if n in ("public_bytes", "private_bytes") and len(a) > 1 and a[1] is raw("ext", "ser.Encoding.Raw"):
            return const(32)
        if n in ("rstrip", "lstrip", "replace", "strip") and ty(s) == "s" and _asciis(s) and not is_const(a[0]):
            e = encode(s, const("ascii"))
            if e.op == "mcall" and e.args[0] == n:
                return raw("len", e)
    return None


t.CALL_LENGTH = call_length

FOLD = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "startswith", "endswith", "find", "rfind", "index",
        "hex", "isupper", "islower", "isdigit", "count", "zfill", "ljust", "rjust", "title", "casefold", "isascii",
        "removeprefix", "removesuffix"}


def under_prefix(interp, r, st):
    """a text search, given what the path says about the prefix of the text"""
    for pc in [st.pc] + list(interp.pcs):
        if is_const(pc):
            continue
        for a in t.tree_atoms(pc):
            if a.op == "startswith" and is_const(a.args[1]) and t.assume(pc, a, False) is FALSE:
                r = t.assume(r, a, True)
    return r


def _solid(x, i):
    """a text part whose first (last) character is known not to be white space"""
    if is_const(x) and cv(x):
        return bool(cv(x)[i:][:1].strip())
    return x.op == "fmt" and _lowered(x)


def _lowered(x):
    """lower-case ASCII hexadecimal digits and the like"""
    if x.op == "fmt" and is_const(x.args[1]) and isinstance(cv(x.args[1]), str):
        return bool(re.fullmatch(r"0?\d*[xdo]", cv(x.args[1]))) and ty(x.args[0]) in ("i", "bool")
    return x.op == "mcall" and x.args[0] in ("hex", "lower") and len(x.args) == 2


def strmethod(name, recv, args):
    """pure method of a str/bytes value"""

    def leaf(x, *a):
        if is_const(x) and all(is_const(y) for y in a):
            if name in FOLD:
                try:
                    return const(getattr(cv(x), name)(*[cv(y) for y in a]))
                except Exception:
                    pass
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                try:
                    r = getattr(cv(x), name)(*[cv(y) for y in a])
                    items = [const(y) for y in r]
                    return t.tup(items) if name.endswith("partition") else t.mklist(items)
                except Exception:
                    pass
        if name in ("strip", "rstrip", "lstrip") and not a or (a and a[0] is NONE and name in ("strip", "rstrip", "lstrip")):
            a = ()
            if x.op == "mcall" and x.args[0] in ("strip", name) and len(x.args) == 2:
                return x
            if x.op == "mcall" and x.args[0] in ("lstrip", "rstrip") and len(x.args) == 2:
                if name == "strip" or x.args[0] != name:
                    return raw("mcall", "strip", x.args[1])
        if name in ("strip", "rstrip", "lstrip") and not a and x.op == "cat" and len(x.args) > 1:
            left = name == "rstrip" or _solid(x.args[1], 0)
            right = name == "lstrip" or _solid(x.args[-1], -1)
            if left and right:
                return x
            if left or right:
                name_ = "rstrip" if left else "lstrip"
                return x if name_ != name and name != "strip" else raw("mcall", name_, x)
        if name in ("lower", "upper") and x.op == "mcall" and x.args[0] in ("lower", "upper") and x.args[0] == name:
            return x
        if name == "lower" and not a and _lowered(x):
            return x
        if name in ("lower", "upper") and not a and x.op == "cat" and all(_asciis(p) or _asciib(p) or _lowered(p) for p in x.args[1:]):
            return t.cat(x.args[0], *[strmethod(name, p, []) for p in x.args[1:]])
        if name == "hex" and len(a) <= 1 and ty(x) == "b" and (not a or is_const(a[0])):
            n = t.length(x)
            if is_const(n) and 0 < cv(n) <= 64:
                sep = cv(a[0]) if a else ""
                sep = sep.decode("latin-1") if isinstance(sep, bytes) else sep
                if isinstance(sep, str):
                    parts = []
                    for i in range(cv(n)):
                        parts += ([const(sep)] if i and sep else []) + [fmt(t.index(x, const(i)), const("02x"))]
                    return t.cat("s", *parts)
        if name in ("split", "rsplit") and not [z for z in a if z is not NONE]:
            if x.op == "mcall" and x.args[0] in ("strip", "lstrip", "rstrip") and len(x.args) == 2:
                x = x.args[1]
            return raw("mcall", "split", x)
        if a and is_const(a[0]) and isinstance(cv(a[0]), (str, bytes)) and cv(a[0]) and t.ty(x) == t.ty(a[0]):
            one = len(a) == 2 and a[1] is const(1)
            if name == "partition" and len(a) == 1 or name == "split" and one or name == "find" and len(a) == 1:
                if not (x.op == "cat" and name == "split"):
                    has, left, right, none = t.cut(x, a[0])
                    if name == "partition":
                        return t.tup([ite(has, left, x), ite(has, a[0], none), ite(has, right, none)])
                    if name == "split":
                        return ite(has, t.mklist([left, right]), t.mklist([x]))
                    return ite(has, t.length(left), const(-1))
        if name in ("strip", "replace") and a and is_const(a[0]) and cv(a[0]) in ("=", b"="):
            b = x.args[1] if x.op == "mcall" and x.args[0] == "decode" else x
            if b.op == "call" and b.args[0] == "base64.b64encode" and len(b.args) == 2:  # padding stands at the end only
                if name == "strip" or len(a) == 2 and is_const(a[1]) and cv(a[1]) in ("", b""):
                    return strmethod("rstrip", x, [a[0]])
        if name == "casefold" and _asciis(x):
            return strmethod("lower", x, [])
        if name == "removeprefix":
            return ite(t.startswith(x, a[0]), t.slice_(x, t.length(a[0]), NONE), x)
        if name == "removesuffix" and is_const(a[0]) and cv(a[0]):
            return ite(t.endswith(x, a[0]), t.slice_(x, const(0), const(-len(cv(a[0])))), x)
        return raw("mcall", name, x, *a)

    return t.lift(leaf, recv, *args)


for _n in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "split"):
    pass


def _re_mcall(name, *args):
    if name == "decode":
        return decode(args[0], args[1], args[2] if len(args) > 2 else None)
    if name == "encode":
        return encode(args[0], args[1], args[2] if len(args) > 2 else None)
    if name in FOLD or name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        return strmethod(name, args[0], list(args[1:]))
    if name == "join":
        return join(args[0], args[1])
    return t.lift(lambda *a: raw("mcall", name, *a), *args)


t.REBUILD["mcall"] = _re_mcall


def _re_call(name, *args):
    f = RECALL.get(name)
    if f is not None:
        return f(*args)
    return t.lift(lambda *a: raw("call", name, *a), *args)


t.REBUILD["call"] = _re_call


def join(sep, seq):
    kind = ty(sep) or "s"

    def sepat(k):
        return ite(t.eq(k, const(0)), t.empty(kind), sep)

    def each(x, before):
        """the elements of x, each with the separator before or after it"""
        def one(y):
            if y.op == "unit":
                return t.cat(kind, sep, y.args[0]) if before else t.cat(kind, y.args[0], sep)
            if y.op == "cat":
                return t.cat(kind, *[each(p, before) for p in y.args[1:]])
            if y.op == "mapcat":
                k = t.newk()
                return t.mapcat(kind, y.args[1], k, each(t.open_(y.args[2], k), before))
            n, k = t.length(y), t.newk()
            e = t.index(y, k)
            return t.mapcat(kind, n, k, t.cat(kind, sep, e) if before else t.cat(kind, e, sep))

        return t.lift(one, x)

    def leaf(s):
        if s.op == "tuple":
            s = t.mklist(s.args)
        if s.op == "cat" and s.args[0] == "l":
            if all(p.op == "unit" for p in s.args[1:]):
                out = []
                for i, p in enumerate(s.args[1:]):
                    if i:
                        out.append(sep)
                    out.append(p.args[0])
                return t.cat(kind, *out)
            if is_const(sep) and len(cv(sep)) == 0:
                return t.cat(kind, *[p.args[0] if p.op == "unit" else join(sep, p) for p in s.args[1:]])
            ps = list(s.args[1:])
            if ps[-1].op == "unit":
                return t.cat(kind, *[each(p, False) for p in ps[:-1]], ps[-1].args[0])
            if ps[0].op == "unit":
                return t.cat(kind, ps[0].args[0], *[each(p, True) for p in ps[1:]])
            return raw("mcall", "join", sep, s)
        if s.op == "mapcat" and s.args[0] == "l":
            empty = is_const(sep) and len(cv(sep)) == 0
            k = t.newk()
            b = t.open_(s.args[2], k)
            if b.op == "unit" or empty:
                def flat(x):
                    if x.op == "unit":
                        return x.args[0]
                    if x is t.EMPTY:
                        return t.empty(kind)
                    return join(sep, x)
                e = t.lift(flat, b) if empty else t.cat(kind, sepat(k), b.args[0])
                return t.mapcat(kind, s.args[1], k, e)
            return raw("mcall", "join", sep, s)
        if ty(s) in ("s",) and s.op != "ite":
            k = t.newk()
            if is_const(sep) and len(cv(sep)) == 0:
                return s
            return t.mapcat(kind, t.length(s), k, t.cat(kind, sepat(k), t.index(s, k)))
        if ty(s) in ("l",) or (isinstance(ty(s), str) and ty(s).startswith("l:")) or s.op in ("slice", "param", "index", "bv", "lv"):
            k = t.newk()
            return t.mapcat(kind, t.length(s), k, t.cat(kind, sepat(k), t.index(s, k)))
        return raw("mcall", "join", sep, s)

    return t.lift(leaf, seq)


def chunks(x, w, sep, kind="s"):
    k = t.newk()
    n = t.ceildiv(t.length(x), w)
    lo = t.mul(w, k)
    return t.mapcat(kind, n, k, t.cat(kind, ite(t.eq(k, const(0)), t.empty(kind), const(sep)),
                                      t.slice_(x, lo, t.add(lo, w))))


# ---------------------------------------------------------------------- streams


def line(R, i):
    return t.rebuild("line", [R, i])


def _line(R, i):
    def leaf(r, j):
        if r.op == "dropl":
            return _line(r.args[0], t.add(r.args[1], j))
        if t.BOUND is not None and t.is_int_const(j) and bounded(r) and cv(j) >= t.BOUND:
            return t.empty(t.ty(r) or "b")
        return raw("line", r, j)

    return t.lift(leaf, R, i)


def dropl(R, n):
    def leaf(r, j):
        if t.is_int_const(j) and cv(j) == 0:
            return r
        if r.op == "dropl":
            return dropl(r.args[0], t.add(r.args[1], j))
        if j is nlines(r):
            return t.empty(t.ty(r) or "b")
        return raw("dropl", r, j)

    return t.lift(leaf, R, n)


def bounded(r):
    return r.op in ("param", "call", "attr", "text", "textdecode") and not t.hasvar(r)


def nlines(R):
    def leaf(r):
        if r.op == "dropl":
            return t.sub(nlines(r.args[0]), r.args[1])
        if is_const(r):
            return const(len(cv(r).splitlines(True)))
        if t.BOUND is not None and bounded(r):
            return const(t.BOUND)
        return raw("nlines", r)

    return t.lift(leaf, R)


t.REBUILD["line"] = _line
t.REBUILD["dropl"] = dropl
t.REBUILD["nlines"] = nlines
_oldty = t.ty


def _ty(x):
    o = x.op
    if o in ("line", "dropl", "rev", "stepslice"):
        return t.ty(x.args[0])
    if o == "nlines":
        return "i"
    if o == "ddslot":
        return None
    return _oldty(x)


t.ty = _ty

STD = ("sys.stdin", "sys.stdout", "sys.stderr", "sys.stdin.buffer", "sys.stdout.buffer", "sys.stderr.buffer")


def init(interp):
    """pre-allocate the process streams"""
    for n in STD:
        interp.meta[n] = ("std", None)
        k = "b" if n.endswith("buffer") else "s"
        interp.base.loc[("h", n, "out")] = t.empty(k)
        interp.base.loc[("h", n, "rest")] = raw("param", n, k)
        interp.base.loc[("h", n, "#closed")] = FALSE


def new_stream(interp, name, st, kind="b", readable=True, writable=True):
    """abstract caller-supplied stream"""
    oid = "stream:" + name
    interp.meta[oid] = ("absstream", None)
    st.loc[("h", oid, "rest")] = raw("param", name, kind) if readable else t.empty(kind)
    st.loc[("h", oid, "out")] = t.empty(kind)
    st.loc[("h", oid, "#closed")] = FALSE
    return raw("obj", oid)


STREAMS = ("std", "absstream", "bytesio", "stringio", "file", "textio", "wfile")


def skind(interp, o, st):
    v = interp.get(o, "out", st)
    if v is None:
        v = interp.get(o, "rest", st)
    return t.ty(v) or "b"


def stream_write(interp, o, data, st, node):
    k = interp.kind(o)
    data = interp.content(data, st) if data.op == "obj" else data
    if k in ("bytesio", "stringio"):
        d, rest = interp.get(o, "data", st), interp.get(o, "rest", st)
        if is_const(rest) and not cv(rest):
            interp.put(o, "data", t.cat("b" if k == "bytesio" else "s", d, data), st, node)
        elif rest is d and is_const(d) and not cv(d):
            interp.put(o, "data", data, st, node)
        else:
            interp.warn("overwriting part of an in-memory stream", node)
        return t.length(data)
    kd = skind(interp, o, st)
    interp.event("<write>", [o, data], st, node)
    if k == "textio":
        interp.put(o, "pend", t.cat("s", interp.get(o, "pend", st), data), st, node)
        return t.length(data)
    interp.put(o, "out", t.cat(kd, interp.get(o, "out", st), data), st, node)
    return t.length(data)


def text_flush(interp, o, st, node):
    inner = interp.get(o, "inner", st)
    pend = interp.get(o, "pend", st)
    enc = interp.get(o, "enc", st)
    interp.put(o, "pend", const(""), st, node)
    if is_const(pend) and cv(pend) == "":
        return
    data = encode(pend, enc)

    def go(x, s):
        if x.op == "obj" and interp.kind(x) in STREAMS:
            stream_write(interp, x, data, s, node)
        else:
            interp.call_method(x, "write", [data], {}, s, node)
        return NONE

    interp.cases(inner, st, go)


def stream_method(interp, o, name, args, kwargs, st, node):
    k = interp.kind(o)
    args, kwargs = normalise(name, args, kwargs, MSIG)
    if name in ("write",):
        return stream_write(interp, o, args[0], st, node)
    if name == "writelines":
        interp.iterate(args[0], st, lambda x, s: stream_write(interp, o, x, s, node), node)
        return NONE
    if name in ("read", "readall", "read1"):
        if k == "textio" and False:
            pass
        rest = interp.get(o, "rest", st)
        kd = t.ty(rest) or "b"
        if not args or args[0] is NONE or args[0] is const(-1):
            interp.put(o, "rest", t.empty(kd), st, node)
            interp.event("<read>", [o, NONE], st, node)
            return rest
        n = args[0]
        interp.event("<read>", [o, n], st, node)

        def leaf(r, m):
            if m is const(-1) or m is NONE:
                return r
            return t.ite(t.ge(m, const(0)), t.slice_(r, const(0), m), r)  # negative: everything

        def leaf2(r, m):
            if m is const(-1) or m is NONE:
                return t.empty(kd)
            return t.ite(t.ge(m, const(0)), t.slice_(r, m, NONE), t.empty(kd))

        interp.put(o, "rest", t.lift(leaf2, rest, n), st, node)
        return t.lift(leaf, rest, n)
    if name == "readline":
        rest = interp.get(o, "rest", st)
        interp.put(o, "rest", dropl(rest, const(1)), st, node)
        return line(rest, const(0))
    if name == "readlines":
        rest = interp.get(o, "rest", st)
        kd = t.ty(rest)
        interp.put(o, "rest", t.empty(kd or "b"), st, node)
        j = t.newk()
        return interp.mklist(t.mapcat("l", nlines(rest), j, t.unit(line(rest, j))), node, st)
    if name == "close":
        if k == "textio":
            text_flush(interp, o, st, node)
            inner = interp.get(o, "inner", st)
            interp.put(o, "#closed", TRUE, st, node)
            interp.cases(inner, st, lambda x, s: interp.call_method(x, "close", [], {}, s, node))
            return NONE
        interp.event("<close>", [o], st, node)
        interp.put(o, "#closed", TRUE, st, node)
        return NONE
    if name == "flush":
        interp.event("<flush>", [o], st, node)
        if k == "textio":
            text_flush(interp, o, st, node)
        return NONE
    if name == "detach" and k == "textio":
        text_flush(interp, o, st, node)
        interp.put(o, "#detached", TRUE, st, node)
        return interp.get(o, "inner", st)
    if name in ("getvalue", "getbuffer"):
        return interp.get(o, "data", st)
    if name == "seek":
        d = interp.get(o, "data", st)
        if d is not None and args and args[0] is const(0) and (len(args) == 1 or args[1] is const(0)):
            interp.put(o, "rest", d, st, node)
            return const(0)
        if d is not None and len(args) == 2 and args[0] is const(0):
            interp.put(o, "rest", t.empty(t.ty(d)), st, node)
            return t.length(d)
        if d is not None and len(args) == 1:
            interp.put(o, "rest", t.slice_(d, args[0], NONE), st, node)
            return args[0]
        interp.warn("seek on a stream", node)
        return NONE
    if name == "tell":
        d = interp.get(o, "data", st)
        if d is not None:
            r = interp.get(o, "rest", st)
            if r.op == "slice" and r.args[0] is d and r.args[2] is NONE:
                return r.args[1]
            return t.sub(t.length(d), t.length(r))
        return interp.unk("tell", node)
    if name in ("readable", "writable", "seekable"):
        return TRUE
    if name == "isatty":
        return raw("call", "isatty", raw("std", o.args[0]))
    if name == "fileno":
        r = raw("mcall", "fileno", raw("std", o.args[0]))
        maybe_raise(interp, "fileno", r, st, node)
        return r
    if name in ("__enter__",):
        return o
    if name == "__exit__":
        return stream_method(interp, o, "close", [], {}, st, node)
    if name == "reconfigure":
        return NONE
    return interp.unk("stream method " + name, node)


def iter_lines(interp, v, st, node, body):
    if not (v.op == "obj" and interp.get(v, "rest", st) is not None):
        if v.op == "obj":
            interp.warn("iteration over an object", node)
            return True
        return False
    R = interp.get(v, "rest", st)
    if R.op == "ite":
        def go(r):
            def f(s):
                interp.put(v, "rest", r, s, node)
                iter_lines(interp, v, s, node, body)
                return None
            return f
        interp.branch(R.args[0], st, go(t.assume(R.args[1], R.args[0], True)), go(t.assume(R.args[2], R.args[0], False)))
        return True
    n = nlines(R)

    def each(k, s):
        interp.put(v, "rest", dropl(R, t.add(k, const(1))), s, node)
        body(line(R, k), s)

    interp.sym_loop(st, n, each, node)
    return True


# ---------------------------------------------------------------------- attributes


def ext_attr(interp, name, st, node):
    if name in STD:
        return raw("obj", name)
    if name.startswith("stat.") and hasattr(_stat, name[5:]) and isinstance(getattr(_stat, name[5:]), int):
        return const(getattr(_stat, name[5:]))
    if name == "os.linesep":
        return const("\n")
    if name in ("string.ascii_lowercase", "string.ascii_uppercase", "string.digits", "string.hexdigits", "string.ascii_letters"):
        import string
        return const(getattr(string, name[7:]))
    if name in ("re.I", "re.IGNORECASE", "re.M", "re.MULTILINE", "re.ASCII", "re.A", "re.DOTALL", "re.S", "re.VERBOSE", "re.X"):
        import re
        return const(int(getattr(re, name[3:])))
    if name == "os.sep":
        return const("/")
    if name == "io.SEEK_SET" or name == "os.SEEK_SET":
        return const(0)
    if name == "io.SEEK_END" or name == "os.SEEK_END":
        return const(2)
    return None


def obj_attr(interp, o, name, st, node):
    k = interp.kind(o)
    if name == "closed":
        return interp.get(o, "#closed", st, FALSE)
    if k == "std" and name == "buffer" and o.args[0] + ".buffer" in STD:
        return raw("obj", o.args[0] + ".buffer")
    if k == "textio" and name == "buffer":
        return interp.get(o, "inner", st)
    if name == "args" and k == "inst":
        return interp.get(o, "args", st, t.tup([]))
    if name == "encoding":
        return const("utf-8")
    if k == "std" and name in ("name", "mode"):
        return raw("attr", raw("std", o.args[0]), name)
    return None


VALUE_ATTRS = {"text", "key_size", "st_mode", "ok", "content", "status_code", "curve", "name", "errno", "strerror", "public_numbers_"}


def value_attr(interp, o, name, st, node):
    if name == "ok" and o.op == "call" and o.args[0] == "requests.get":
        return not_(raises(raw("mcall", "raise_for_status", o), "HTTPError"))
    if name == "st_mode":
        return t.index(o, const(0))
    if name in VALUE_ATTRS:
        return t.attr(o, name)
    if name == "__class__":
        return raw("attr", o, name)
    y = ty(o)
    if isinstance(y, str) and y.startswith("o:") and (y[2:], name) in t.FIELDS:
        return t.attr(o, name)
    if o.op in ("param", "index", "bv", "lv", "k", "call", "attr") and t.ty(o) is None and name not in KNOWN_METHODS and not isinstance(
            getattr(node, "_called", None), bool):
        # plain data attribute of an opaque object, unless it is called
        if not _is_called(interp, node):
            return t.attr(o, name)
    return None


def _is_called(interp, node):
    if not hasattr(interp, "_calledattrs"):
        interp._calledattrs = set()
        for m in interp.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    interp._calledattrs.add(id(n.func))
    return id(node) in interp._calledattrs


KNOWN_METHODS = {
    "strip", "split", "decode", "encode", "read", "write", "group", "public_bytes", "private_bytes",
}


def match_group(o, i):
    return raw("call", "re.group", o, i)


# ---------------------------------------------------------------------- conversions


def tobytes(interp, v, st, node):
    if v.op == "obj":
        v = interp.content(v, st)
    if v.op in ("gen", "genexp", "range", "zip", "mapiter", "chainiter", "enumerate"):
        v = interp.to_seq(v, st, node)

    def leaf(x):
        if ty(x) == "b":
            return x
        if t.is_int_const(x):
            return const(bytes(cv(x))) if cv(x) < 100000 else raw("call", "builtins.bytes", x)
        if x.op == "tuple":
            x = t.mklist(x.args)
        if x.op == "cat" and x.args[0] == "l":
            out = []
            for p in x.args[1:]:
                if p.op == "unit":
                    out.append(t.tobe(p.args[0], const(1)))
                else:
                    out.append(leaf(p))
            return t.cat("b", *out)
        if x.op == "mapcat" and x.args[0] == "l":
            k = t.newk()
            return t.mapcat("b", x.args[1], k, t.lift(leaf, t.open_(x.args[2], k)))
        if x.op == "unit":
            return t.tobe(x.args[0], const(1))
        return raw("call", "builtins.bytes", x)

    return t.lift(leaf, v)


def unpack(fmt, data):
    if is_const(fmt):
        f = cv(fmt)
        f = f.decode() if isinstance(f, bytes) else f
        codes = f.lstrip(">!<=@")
        if all(c in "BHIQ" for c in codes) and (f[:1] in ">!" or codes == "B"):
            if codes == "B" * len(codes) and f[:1] not in ">!":
                fmt = const(">" + codes)
            return t.lift(lambda d: t.tup([t.index(raw("unpack", fmt, d), const(i)) for i in range(len(codes))]), data)
    return t.lift(lambda f, d: raw("unpack", f, d), fmt, data)


def pack(interp, fmt, args):
    if is_const(fmt):
        f = cv(fmt)
        f = f.decode() if isinstance(f, bytes) else f
        codes = f.lstrip(">!<=@")
        if all(c in "BHIQ" for c in codes) and (f[:1] in ">!" or set(codes) == {"B"}) and len(codes) == len(args):
            return t.cat("b", *[t.tobe(a, const(_struct.calcsize(">" + c))) for a, c in zip(args, codes)])
        if codes == "?" and len(args) == 1:
            return ite(t.truth(args[0]), const(b"\1"), const(b"\0"))
    return raw("call", "struct.pack", fmt, *args)


# ---------------------------------------------------------------------- isinstance

RETCLS = {
    "X25519PrivateKey.from_private_bytes": "X25519PrivateKey", "X25519PublicKey.from_public_bytes": "X25519PublicKey",
    "Ed25519PrivateKey.from_private_bytes": "Ed25519PrivateKey",
    "Ed25519PublicKey.from_public_bytes": "Ed25519PublicKey", "X25519PrivateKey.generate": "X25519PrivateKey",
    "Ed25519PrivateKey.generate": "Ed25519PrivateKey", "rsa.generate_private_key": "rsa.RSAPrivateKey",
    "rsa.private": "rsa.RSAPrivateKey", "rsa.public": "rsa.RSAPublicKey",
    "X25519PrivateKey.public_key": "X25519PublicKey", "Ed25519PrivateKey.public_key": "Ed25519PublicKey",
}
PYT = {"b": "bytes", "s": "str", "i": "int", "bool": "bool", "none": "NoneType", "t": "tuple", "l": "list"}


def cls_of(x):
    """library class of a value, when known"""
    y = ty(x)
    if isinstance(y, str) and y.startswith("o:"):
        return y[2:]
    if x.op == "call":
        return RETCLS.get(x.args[0])
    if x.op == "mcall" and x.args[0] == "public_key":
        c = cls_of(x.args[1])
        return c.replace("Private", "Public") if c else None
    return None


def isinstance_(interp, x, cls, st, node):
    if x.op == "ite":
        return ite(x.args[0], isinstance_(interp, x.args[1], cls, st, node), isinstance_(interp, x.args[2], cls, st, node))
    if x.op == "inst":
        x = interp.thaw(x, node, st)
    so = interp.symobj(x, st)
    if so is not None:
        x = so
    if cls.op == "class":
        q = cls.args[0]
        if x.op == "obj":
            c = interp.ocls(x)
            if hasattr(c, "qual"):
                return TRUE if interp.issub(c, q) else FALSE
            return FALSE
        if x.op in ("const", "cat", "tuple", "mapcat", "lin", "slice") or ty(x) is not None and not str(ty(x)).startswith("o:"):
            return FALSE
        k = cls_of(x)
        if k is not None and k not in interp.classes:
            return FALSE
        y = ty(x)
        if isinstance(y, str) and y[2:] in interp.classes:
            if interp.issub(interp.classes[y[2:]], q):
                return TRUE
            if not any(interp.issub(c, q) and interp.issub(c, y[2:]) for c in interp.class_order):
                return FALSE
        return raw("isinst", x, cls)
    if cls.op == "ext":
        n = cls.args[0]
        short = n.split(".")[-1]
        if n == "builtins.object":
            return TRUE
        if x.op == "obj":
            kd = interp.kind(x)
            c = interp.ocls(x)
            if kd in ("list", "dict", "set", "bytearray"):
                return TRUE if n == "builtins." + kd or short in ("Iterable", "Collection", "Sequence", "Mapping") else FALSE
            if kd in STREAMS:
                return TRUE if short in ("BytesIO", "RawIOBase", "IOBase", "TextIOBase", "BinaryIO") else FALSE
            if hasattr(c, "qual"):
                return TRUE if any(b.split(".")[-1] == short for b in interp.ext_bases(c)) else FALSE
            return FALSE
        k = cls_of(x)
        if k is not None:
            return TRUE if k == n else FALSE
        y = ty(x)
        if isinstance(y, str) and (y in PYT or y.startswith("l:")):
            p = PYT.get(y, "list")
            if n.startswith("builtins."):
                if p == "bool" and short == "int":
                    return TRUE
                return TRUE if short == p else FALSE
            if short in ("Iterable", "Sequence", "Collection", "Sized"):
                return TRUE if p in ("bytes", "str", "list", "tuple") else FALSE
            return FALSE
        return raw("isinst", x, raw("ext", n))
    if cls.op == "unknown":
        return raw("isinst", x, cls)
    return raw("isinst", x, interp.reify(cls, st))


def init_base(interp, o, base, st, node):
    if base.startswith("io."):
        st.loc[("h", o.args[0], "#closed")] = FALSE


# ---------------------------------------------------------------------- calls


def shown(interp, args, st):
    return [interp.reify(a, st) for a in args]


RECALL = {}


def plaincall(interp, name, args, kwargs, st, node, record=True):
    args, kwargs = normalise(name, args, kwargs)
    args = [NONE if a is None else a for a in args]
    while args and args[-1] is NONE and name in SIG and len(args) > 1:
        args.pop()
    a = shown(interp, args, st)
    for k in sorted(kwargs):
        a.append(raw("kw", k, interp.reify(kwargs[k], st)))
    r = t.rebuild("call", [name] + a)
    if record:
        interp.event(name, a, st, node)
    if name in EXC or name in ALWAYS:
        maybe_raise(interp, name, r, st, node)
    elif name.split(".")[0] not in ("builtins", "typing", "os.path", "click", "math"):
        for e in {h for hs in interp.handlers for h in hs}:
            if not interp.loading and name not in PURE and not name.startswith("os.path"):
                interp.raise_if(t.lift(lambda c, e=e: raises(c, e), r), e, st, node)
    return r


def call(interp, name, args, kwargs, st, node):
    name = canon(name)
    f = CALLS.get(name)
    if f is not None:
        return f(interp, args, kwargs, st, node)
    last = name.split(".")[-1]
    if name.startswith("hashes.") and last[:1].isupper() and last not in ("Hash",):
        return raw("call", name)
    if name.startswith("hashlib.") and last not in ("scrypt", "new", "pbkdf2_hmac"):
        data = args[0] if args else const(b"")
        return interp.alloc("hashobj", node, st, alg=const(last), data=data)
    if (name.startswith("builtins.") or "." in name) and (last in t.EXC_PARENT or last in ("Exception", "BaseException")):
        o = interp.alloc("exc", node, st, args=t.tup(shown(interp, args, st)))
        st.loc[("h", o.args[0], "#cls")] = const(last)
        return o
    if name.startswith("typing."):
        if last == "cast":
            return args[1]
        return raw("ext", name + "()")
    if name.startswith("click.") and last not in ("prompt", "echo", "confirm", "secho"):
        return raw("call", name, *[a for a in args if not isinstance(a, str)])
    if name.startswith("abc."):
        return raw("ext", name)
    if name.startswith("random.") or name.startswith("numpy.random") or name.startswith("uuid."):
        r = plaincall(interp, name, args, kwargs, st, node)
        return raw("call", "weakrandom", const(interp.site(node)), r)
    return plaincall(interp, name, args, kwargs, st, node)


def fresh(interp, n, st, node):
    ks = [k for _, k in interp.loops]
    r = raw("fresh", interp.site(node), n, *ks)
    interp.event("<random>", [n, r], st, node)
    return r


def c_len(interp, args, kwargs, st, node):
    def leaf(x, s):
        if x.op == "obj":
            m = interp.find_method(x, "__len__")
            if m is not None:
                return interp.call(m, [], {}, s, node)
            if interp.kind(x) == "set":
                v = interp.get(x, "v", s)
                return t.length(raw("setof", v))
            return t.length(interp.content(x, s))
        return t.length(interp.plain(x, s))

    return interp.cases(args[0], st, leaf)


def c_range(interp, args, kwargs, st, node):
    if len(args) == 1:
        return raw("range", const(0), args[0], const(1))
    if len(args) == 2:
        return raw("range", args[0], args[1], const(1))
    return raw("range", *args)


def c_any(interp, args, kwargs, st, node, want=True):
    if want and len(args) == 1 and args[0].op != "obj" and t.ty(args[0]) == "b":
        return t.anybyte(args[0])
    brk = object()
    cell = interp.alloc("cell", node, st, tag="any", v=FALSE)
    from .interp import Exit

    def body(x, s):
        c = interp.truth(x, s, node)
        if not want:
            c = not_(c)
        c = interp.simp(c, s)
        s4 = s.copy()
        s4.pc = and_(s.pc, c)
        if not s4.dead:
            s4.loc[("h", cell.args[0], "v")] = TRUE
            interp.collect[-1].append(Exit("break", s4, None, brk))
        s.pc = and_(s.pc, not_(c))

    interp.finish_loop(st, lambda x: interp.iterate(args[0], x, body, node), brk)
    r = interp.get(cell, "v", st)
    return r if want else not_(r)


def c_all(interp, args, kwargs, st, node):
    return c_any(interp, args, kwargs, st, node, want=False)


def c_sum(interp, args, kwargs, st, node):
    args, kwargs = normalise("builtins.sum", args, kwargs)
    start = args[1] if len(args) > 1 else const(0)
    if start.op == "obj" and interp.kind(start) == "list":
        acc = interp.mklist(interp.get(start, "v", st), node, st, tag="sum")
        interp.iterate(args[0], st, lambda x, s: interp.list_extend(acc, x, s, node), node)
        return acc
    cell = interp.alloc("cell", node, st, tag="sum", v=start)
    interp.iterate(args[0], st, lambda x, s: interp.put(cell, "v", t.add(interp.get(cell, "v", s), x), s), node)
    return interp.get(cell, "v", st)


def c_minmax(name):
    def f(interp, args, kwargs, st, node):
        if len(args) >= 2 and not kwargs:
            r = args[0]
            for x in args[1:]:
                c = t.ge(r, x)
                r = ite(c, x, r) if name == "min" else ite(c, r, x)
            return r
        if len(args) == 1:
            seq = interp.to_seq(interp.plain(args[0], st), st, node)
            if seq.op == "cat" and all(p.op == "unit" for p in seq.args[1:]) and len(seq.args) > 1:
                return f(interp, [p.args[0] for p in seq.args[1:]] * (2 if len(seq.args) == 2 else 1), {}, st, node)
        return plaincall(interp, "builtins." + name, args, kwargs, st, node, False)

    return f


def c_int(interp, args, kwargs, st, node):
    args, kwargs = normalise("builtins.int", args, kwargs)
    if not args:
        return const(0)
    x = args[0]
    if len(args) == 2 and is_const(args[1]) and cv(args[1]) == 10 and type(cv(args[1])) is int and ty(interp.plain(x, st)) in ("s", "b"):
        args = args[:1]
    if len(args) == 1:
        def leaf(v):
            if ty(v) == "i":
                return v
            if is_const(v) and isinstance(cv(v), (int, str, bool)):
                try:
                    return const(int(cv(v)))
                except ValueError:
                    pass
            if ty(v) == "bool":
                return ite(v, const(1), const(0))
            if v.op == "div":
                return raw("call", "builtins.int", v)
            return raw("call", "builtins.int", v)
        r = t.lift(leaf, interp.plain(x, st))
        if any(l.op == "call" and l.args[0] == "builtins.int" for l in t.leaves(r)):
            maybe_raise(interp, "builtins.int", r, st, node)
        return r
    return plaincall(interp, "builtins.int", args, kwargs, st, node, False)


def c_str(interp, args, kwargs, st, node):
    args, kwargs = normalise("builtins.str", args, kwargs)
    if not args:
        return const("")
    if len(args) > 1:
        return method(interp, args[0], "decode", args[1:], {}, st, node)
    return interp.str_(args[0], st, node)


def c_bytes(interp, args, kwargs, st, node):
    args, kwargs = normalise("builtins.bytes", args, kwargs)
    if not args:
        return const(b"")
    if len(args) > 1:
        return method(interp, args[0], "encode", args[1:], {}, st, node)

    def go(x, s):
        m = interp.find_method(x, "__bytes__") if x.op == "obj" else None
        if m is not None:
            return interp.call(m, [], {}, s, node)
        return tobytes(interp, x, s, node)

    return interp.cases(args[0], st, go)


def c_bytearray(interp, args, kwargs, st, node):
    v = c_bytes(interp, args, kwargs, st, node)
    return interp.mklist(v, node, st, kind="bytearray")


def c_list(interp, args, kwargs, st, node):
    if not args:
        return interp.mklist(t.EMPTY, node, st)
    seq = interp.to_seq(args[0], st, node)
    if seq.op == "obj":
        seq = to_seq_any(interp, seq, st, node)
    return interp.mklist(seqlist(seq), node, st)


def seqlist(seq):
    """string/bytes into list of elements"""
    if ty(seq) in ("s", "b") and not is_const(seq):
        k = t.newk()
        return t.mapcat("l", t.length(seq), k, t.unit(t.index(seq, k)))
    if is_const(seq) and isinstance(cv(seq), (str, bytes)):
        return t.mklist([const(x) for x in cv(seq)])
    if seq.op == "tuple":
        return t.mklist(seq.args)
    return seq


def to_seq_any(interp, v, st, node):
    acc = interp.alloc("list", node, st, v=t.EMPTY, tag="seq")
    interp.iterate(v, st, lambda x, s: interp.put(acc, "v", t.cat("l", interp.get(acc, "v", s), t.unit(x)), s), node)
    return interp.get(acc, "v", st)


def c_tuple(interp, args, kwargs, st, node):
    if not args:
        return t.tup([])
    seq = interp.to_seq(args[0], st, node)
    if seq.op == "obj":
        seq = to_seq_any(interp, seq, st, node)
    seq = seqlist(seq)
    if seq.op == "cat" and all(p.op == "unit" for p in seq.args[1:]):
        return t.tup([p.args[0] for p in seq.args[1:]])
    return seq


def c_set(interp, args, kwargs, st, node):
    if not args:
        return interp.mklist(t.EMPTY, node, st, kind="set")
    seq = interp.to_seq(args[0], st, node)
    if seq.op == "obj":
        seq = to_seq_any(interp, seq, st, node)
    return interp.mklist(seqlist(seq), node, st, kind="set")


def c_dict(interp, args, kwargs, st, node):
    from .interp import dict_from_pairs, dict_set

    d = raw("dictv")
    if args:
        a = args[0]
        if interp.isobj(a, "dict"):
            d = interp.get(a, "v", st)
        elif a.op in ("dictv", "dictlog"):
            d = a
        else:
            d = dict_from_pairs(interp.to_seq(a, st, node))
    for k, v in kwargs.items():
        d = dict_set(d, const(k), v)
    return interp.alloc("dict", node, st, v=d)


def c_defaultdict(interp, args, kwargs, st, node):
    o = interp.alloc("dict", node, st, v=raw("dictv"))
    if args:
        st.loc[("h", o.args[0], "#default")] = args[0]
    return o


def c_sorted(interp, args, kwargs, st, node):
    if kwargs.get("key", NONE) is not NONE:
        return interp.unk("sorted with key", node)
    seq = interp.to_seq(interp.plain(args[0], st), st, node)
    r = raw("call", "builtins.sorted", interp.reify(seq, st), *[raw("kw", k, v) for k, v in sorted(kwargs.items()) if v is not FALSE])
    return interp.mklist(r, node, st)


def c_isinstance(interp, args, kwargs, st, node):
    return interp.isinstance_(args[0], args[1], st, node)


def c_issubclass(interp, args, kwargs, st, node):
    def leaf(a, b, s):
        if b.op == "tuple":
            return or_(*[leaf(a, x, s) for x in b.args])
        if a.op == "class" and b.op == "class":
            return TRUE if interp.issub(interp.classes[a.args[0]], b.args[0]) else FALSE
        return raw("isinst", a, b)
    return interp.cases2(args[0], args[1], st, leaf)


def c_getattr(interp, args, kwargs, st, node):
    if is_const(args[1]):
        if len(args) > 2:
            def go(x, s):
                if x.op == "class":
                    a = interp.class_attr(interp.classes[x.args[0]], cv(args[1]))
                    return interp.get_attr(x, cv(args[1]), s, node) if a is not None else args[2]
                if x.op == "obj" and interp.kind(x) == "inst":
                    if interp.get(x, cv(args[1]), s) is None and interp.find_method(x, cv(args[1])) is None:
                        return args[2]
                return interp.get_attr(x, cv(args[1]), s, node)
            return interp.cases(args[0], st, go)
        return interp.get_attr(args[0], cv(args[1]), st, node)
    return interp.unk("getattr with computed name", node)


def c_setattr(interp, args, kwargs, st, node):
    if is_const(args[1]):
        interp.set_attr(args[0], cv(args[1]), args[2], st, node)
        return NONE
    interp.warn("setattr with computed name", node)
    return NONE


def c_hasattr(interp, args, kwargs, st, node):
    if is_const(args[1]):
        x = args[0]
        if x.op == "obj" and hasattr(interp.ocls(x), "qual"):
            return TRUE if (interp.get(x, cv(args[1]), st) is not None or interp.find_method(x, cv(args[1])) is not None) else FALSE
        if x.op == "class":
            return TRUE if interp.class_attr(interp.classes[x.args[0]], cv(args[1])) is not None else FALSE
        if x.op == "obj" and interp.kind(x) in STREAMS:
            return TRUE
    return raw("truth", raw("call", "builtins.hasattr", *shown(interp, args, st)))


def c_print(interp, args, kwargs, st, node):
    f = kwargs.get("file", NONE)
    sep = kwargs.get("sep", const(" "))
    end = kwargs.get("end", const("\n"))
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(sep)
        if isinstance(a, T) and a.op == "star":
            parts.append(raw("call", "builtins.str", interp.reify(a.args[0], st)))
        else:
            parts.append(interp.str_(a, st, node))
    text = t.cat("s", *parts, end if end is not NONE else const("\n"))
    if f is NONE:
        f = raw("obj", "sys.stdout")

    def go(x, s):
        if x is NONE:                       # print(file=None) writes to standard output
            x = raw("obj", "sys.stdout")
        interp.event("<print>", [x, text], s, node)
        if x.op == "obj" and interp.kind(x) in STREAMS:
            if x.args[0] != "sys.stderr":
                stream_write(interp, x, text, s, node)
        else:
            interp.call_method(x, "write", [text], {}, s, node)
        return NONE

    interp.cases(f, st, go)
    return NONE


def c_echo(interp, args, kwargs, st, node):
    err = kwargs.get("err", FALSE)
    f = kwargs.get("file", NONE)
    default = t.ite(t.truth(err), raw("obj", "sys.stderr"), raw("obj", "sys.stdout")) if isinstance(err, T) \
        else raw("obj", "sys.stdout")
    f = default if f is NONE else t.lift(lambda x: default if x is NONE else x, f) if f.op == "ite" else f
    kw = {"file": f}
    if kwargs.get("nl", TRUE) is FALSE:
        kw["end"] = const("")
    return c_print(interp, args, kw, st, node)


def c_open(interp, args, kwargs, st, node):
    args, kwargs = normalise("builtins.open", args, kwargs)
    args = [NONE if a is None else a for a in args]
    mode = args[1] if len(args) > 1 and args[1] is not NONE else const("r")
    m = cv(mode) if is_const(mode) else "?"
    fn = interp.reify(args[0], st)
    interp.event("open", [fn, mode], st, node)
    if m in ("r", "rt", "rb", "rU"):
        c = raw("call", "open.bytes" if "b" in m else "open.text", fn) if not isinstance(fn, T) or fn.op != "ite" else \
            t.lift(lambda x: raw("call", "open.bytes" if "b" in m else "open.text", x), fn)
        maybe_raise(interp, "open", c, st, node)
        return interp.alloc("file", node, st, rest=c, out=t.empty("b" if "b" in m else "s"))
    o = interp.alloc("wfile", node, st, rest=t.empty("b"), out=t.empty("b" if "b" in m else "s"))
    st.loc[("h", o.args[0], "#closed")] = FALSE
    return o


def c_bytesio(kind):
    def f(interp, args, kwargs, st, node):
        v = args[0] if args else kwargs.get("initial_bytes", kwargs.get("initial_value", None))
        e = t.empty("b" if kind == "bytesio" else "s")
        if v is None or v is NONE:
            v = e
        if v.op == "obj":
            v = interp.content(v, st)
        o = interp.alloc(kind, node, st, data=v, rest=v)
        st.loc[("h", o.args[0], "#closed")] = FALSE
        return o
    return f


def c_textio(interp, args, kwargs, st, node):
    args, kwargs = normalise("io.TextIOWrapper", args, kwargs)
    args = [NONE if a is None else a for a in args]
    inner = args[0]
    enc = codec(args[1]) if len(args) > 1 and args[1] is not NONE else const("utf-8")
    extra = [a for a in args[2:]]
    while extra and extra[-1] in (NONE, FALSE):
        extra.pop()

    def go(x, s):
        rest = None
        if x.op == "obj":
            rest = interp.get(x, "rest", s)
            if rest is None:
                ps = interp.get(x, "_plaintext_stream", s)
                rest = raw("param", "text", "b")
        else:
            rest = raw("attr", x, "content")
        o = interp.alloc("textio", node, s, inner=x, enc=enc, pend=const(""),
                         rest=t.lift(lambda r: raw("call", "textdecode", r, enc, *extra), rest))
        s.loc[("h", o.args[0], "#closed")] = FALSE
        return o

    return interp.cases(inner, st, go)


def c_exit(interp, args, kwargs, st, node):
    code = args[0] if args else NONE
    interp.event("<exit>", [interp.reify(code, st)], st, node)
    interp.raise_("SystemExit", st, node, raw("excval", "SystemExit", interp.reify(code, st)))
    return NONE


def c_hkdf(interp, args, kwargs, st, node):
    args, kwargs = normalise("HKDF", args, kwargs)
    args = [NONE if a is None else a for a in args] + [NONE] * (4 - len(args))
    alg, ln, salt, info = args[:4]
    nb = lambda x: t.lift(lambda y: const(b"") if y is NONE else y, x)
    return raw("kdfobj", "hkdf", sha(alg), ln, nb(interp.plain(salt, st)), nb(interp.plain(info, st)))


def c_scrypt(interp, args, kwargs, st, node):
    args, kwargs = normalise("Scrypt", args, kwargs)
    args = [NONE if a is None else interp.plain(a, st) for a in args] + [NONE] * (5 - len(args))
    return raw("kdfobj", "scrypt", *args[:5])


def c_hlscrypt(interp, args, kwargs, st, node):
    args, kwargs = normalise("hashlib.scrypt", args, kwargs)
    args = [NONE if a is None else interp.plain(a, st) for a in args] + [NONE] * (7 - len(args))
    pw, salt, n, r, p, mm, dk = args[:7]
    if dk is NONE:
        dk = const(64)
    c = t.rebuild("call", ["scrypt", salt, dk, n, r, p, pw])
    interp.event("scrypt", [salt, dk, n, r, p, pw], st, node)
    return c


def c_hmacobj(interp, args, kwargs, st, node):
    args, kwargs = normalise("chmac.HMAC", args, kwargs)
    return interp.alloc("hmacobj", node, st, alg=sha(args[1]), key=interp.plain(args[0], st), data=const(b""))


def c_hmacnew(interp, args, kwargs, st, node):
    args, kwargs = normalise("hmac.new", args, kwargs)
    args = [NONE if a is None else a for a in args]
    data = args[1] if len(args) > 1 and args[1] is not NONE else const(b"")
    return interp.alloc("hmacobj", node, st, alg=sha(args[2]), key=interp.plain(args[0], st), data=data)


def c_hmacdigest(interp, args, kwargs, st, node):
    args, kwargs = normalise("hmac.digest", args, kwargs)
    return mkhmac(interp, sha(args[2]), args[0], args[1], st, node)


BLOCK = {"sha256": 64, "md5": 64, "sha1": 64, "sha512": 128}


def long_key(alg, key):
    """HMAC itself hashes keys that are longer than a block"""
    if key.op == "ite" and is_const(alg) and cv(alg) in BLOCK:
        for k, other in ((key.args[2], key.args[1]), (key.args[1], key.args[2])):
            if other is t.rebuild("call", ["hash", alg, k]):
                c = t.ge(t.length(k), t.const(BLOCK[cv(alg)] + 1))
                if key is t.ite(c, other, k):
                    return k
    return key


def mkhmac(interp, alg, key, data, st, node):
    key = long_key(alg, key)
    r = t.rebuild("call", ["hmac", alg, key, data])
    interp.event("hmac", [alg, key, data], st, node)
    return r


def c_hashobj(interp, args, kwargs, st, node):
    args, kwargs = normalise("hashes.Hash", args, kwargs)
    return interp.alloc("hashobj", node, st, alg=sha(args[0]), data=const(b""))


def c_hashnew(interp, args, kwargs, st, node):
    return interp.alloc("hashobj", node, st, alg=sha(args[0]), data=args[1] if len(args) > 1 else const(b""))


def c_compare(interp, args, kwargs, st, node):
    return interp.eq(args[0], args[1], st, node)


def c_struct_unpack(interp, args, kwargs, st, node):
    args, kwargs = normalise("struct.unpack", args, kwargs)
    f, d = args[0], interp.plain(args[1], st)
    if is_const(f):
        interp.raise_if(not_(t.eq(t.length(d), const(_struct.calcsize(cv(f))))), "error", st, node)
    return unpack(f, d)


def c_unpack_from(interp, args, kwargs, st, node):
    f, d = args[0], interp.plain(args[1], st)
    off = args[2] if len(args) > 2 else kwargs.get("offset", const(0))
    if is_const(f):
        n = _struct.calcsize(cv(f))
        interp.raise_if(not_(t.ge(t.length(d), t.add(off, const(n)))), "error", st, node)
        return unpack(f, t.slice_(d, off, t.add(off, const(n))))
    return interp.unk("unpack_from", node)


def c_calcsize(interp, args, kwargs, st, node):
    if is_const(args[0]):
        return const(_struct.calcsize(cv(args[0])))
    return t.lift(lambda x: const(_struct.calcsize(cv(x))) if is_const(x) else raw("call", "struct.calcsize", x), args[0])


def c_ceil(interp, args, kwargs, st, node):
    def leaf(x):
        if x.op == "div":
            return t.ceildiv(x.args[0], x.args[1])
        if ty(x) == "i":
            return x
        return raw("call", "math.ceil", x)
    return t.lift(leaf, args[0])


def c_floor(interp, args, kwargs, st, node):
    def leaf(x):
        if x.op == "div":
            return t.floordiv(x.args[0], x.args[1])
        return raw("call", "math.floor", x)
    return t.lift(leaf, args[0])


def c_divmod(interp, args, kwargs, st, node):
    a, b = args
    return t.tup([interp.binop("FloorDiv", a, b, st, node), interp.binop("Mod", a, b, st, node)])


def c_partial(interp, args, kwargs, st, node):
    gid = interp.site(node, "!partial")
    interp._partials[gid] = (args[1:], kwargs)
    return raw("partial", args[0], gid)


def c_recompile(interp, args, kwargs, st, node):
    args, kwargs = normalise("re.compile", args, kwargs)
    if args[0].op == "re":
        return args[0]
    return raw("re", args[0], args[1] if len(args) > 1 and args[1] is not None else const(0))


def simple_prefix(p):
    """literal prefixes denoted by a regular expression that describes finitely many strings, or None"""
    from re import _parser as sp
    try:
        tree = sp.parse(p)
    except Exception:
        return None

    def seq(items):
        out = [""]
        for op, arg in items:
            n = str(op)
            if n == "AT" and str(arg) in ("AT_BEGINNING", "AT_BEGINNING_STRING") and out == [""]:
                continue
            alts = one(n, arg)
            if alts is None:
                return None
            out = [o + x for o in out for x in alts]
            if len(out) > 64:
                return None
        return out

    def one(n, arg):
        if n == "LITERAL":
            return [chr(arg)]
        if n == "IN":
            if any(str(k) != "LITERAL" for k, _ in arg):
                return None
            return [chr(x) for _, x in arg]
        if n == "SUBPATTERN":
            return seq(arg[3]) if not arg[1] and not arg[2] else None
        if n == "BRANCH":
            out = []
            for x in arg[1]:
                y = seq(x)
                if y is None:
                    return None
                out += y
            return out
        if n in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, x = arg
            y = seq(x)
            if y is None or not isinstance(hi, int) or hi > 4:
                return None
            out, cur = [], [""]
            for i in range(hi + 1):
                if i >= lo:
                    out += cur
                cur = [o + z for o in cur for z in y]
            return out
        return None

    return seq(list(tree))


def rematch(kind, pat, flags, s):
    if kind == "match" and is_const(pat) and flags is const(0) and isinstance(cv(pat), str) and ty(s) == "s":
        ps = simple_prefix(cv(pat))
        if ps:
            return ite(t.startswith(s, t.tup([const(x) for x in sorted(ps)])), raw("match", "prefix", pat, flags, s), NONE)
    if kind == "search" and is_const(pat) and isinstance(cv(pat), str) and cv(pat).startswith("^") and flags is const(0):
        return rematch("match", pat, flags, s)
    return t.lift(lambda x: raw("match", kind, pat, flags, x), s)


def c_re(kind):
    def f(interp, args, kwargs, st, node):
        args, kwargs = normalise("re." + kind, args, kwargs)
        p = args[0]
        fl = args[2] if len(args) > 2 and args[2] is not None else const(0)
        if p.op == "re":
            p, fl = p.args
        return rematch(kind, p, fl, args[1])
    return f


def c_textwrap_fill(interp, args, kwargs, st, node):
    x, w, ok = wrapargs(args, kwargs)
    if ok:
        return t.lift(lambda y: chunks(y, w, "\n"), x)
    a, kw = normalise("textwrap.fill", args, kwargs)
    opts = {k: kw.get(k, TRUE) for k in ("break_on_hyphens", "break_long_words")}
    if all(is_const(v) for v in opts.values()):
        if cv(opts["break_long_words"]) in (False, 0):  # long words overflow: never columns of the given width
            return plaincall(interp, "fill_whole_words", [x, w], {}, st, node, False)
        if cv(opts["break_on_hyphens"]) not in (False, 0) and len(kw) == ("break_on_hyphens" in kw) + ("break_long_words" in kw):
            return plaincall(interp, "fill_at_hyphens", [x, w], {}, st, node, False)
    return plaincall(interp, "textwrap.fill", args, kwargs, st, node, False)


def wrapargs(args, kwargs):
    a, kw = normalise("textwrap.fill", args, kwargs)
    w = a[1] if len(a) > 1 and a[1] is not None else const(70)
    rest = {k: v for k, v in kw.items()}
    ok = rest.pop("break_on_hyphens", TRUE) is FALSE
    if rest.pop("break_long_words", TRUE) is not TRUE:
        ok = False
    rest.pop("drop_whitespace", None)
    return a[0], w, ok and not rest


def c_textwrap_wrap(interp, args, kwargs, st, node):
    x, w, ok = wrapargs(args, kwargs)
    if ok:
        k = t.newk()
        lo = t.mul(w, k)
        r = t.lift(lambda y: t.mapcat("l", t.ceildiv(t.length(y), w), k, t.unit(t.slice_(y, lo, t.add(lo, w)))), x)
        return interp.mklist(r, node, st)
    return plaincall(interp, "textwrap.wrap", args, kwargs, st, node, False)


def c_namedtuple(interp, args, kwargs, st, node):
    from .interp import Class

    args, kwargs = normalise("collections.namedtuple", args, kwargs)
    f = args[1]
    if is_const(f) and isinstance(cv(f), str):
        names = cv(f).replace(",", " ").split()
    else:
        seq = interp.to_seq(interp.plain(f, st), st, node)
        names = [cv(p.args[0]) for p in seq.args[1:]]
    q = interp.site(node, "/nt")
    c = Class(q, cv(args[0]), [], interp.frame.module, None)
    c.dataclass, c.fields = "namedtuple", names
    interp.classes[q] = c
    return raw("class", q)


def c_type(interp, args, kwargs, st, node):
    if len(args) == 1:
        return interp.get_attr(args[0], "__class__", st, node) if args[0].op == "obj" else raw("call", "builtins.type", args[0])
    return interp.unk("type()", node)


def c_iter(interp, args, kwargs, st, node):
    if len(args) == 2:
        return raw("sentinel", args[0], args[1])
    v = args[0]
    if v.op == "obj" and interp.kind(v) in STREAMS:
        return v
    if v.op in ("gen", "genexp", "enumerate", "zip", "mapiter", "filteriter", "reviter"):
        return v
    return interp.alloc("iterobj", node, st, src=interp.to_seq(interp.plain(v, st), st, node), pos=const(0))


def c_next(interp, args, kwargs, st, node):
    """first element of an iterable"""
    v = args[0]

    def go(x, s):
        if x.op == "obj" and interp.kind(x) == "iterobj":
            src, pos = interp.get(x, "src", s), interp.get(x, "pos", s)
            interp.put(x, "pos", t.add(pos, const(1)), s, node)
            has = t.ge(t.length(src), t.add(pos, const(1)))
            if len(args) > 1:
                return ite(has, t.index(src, pos), args[1])
            if interp.catches("StopIteration"):
                interp.raise_if(not_(has), "StopIteration", s, node)
            return t.index(src, pos)
        if x.op == "obj" and interp.kind(x) in STREAMS:
            r = stream_method(interp, x, "readline", [], {}, s, node)
            if len(args) > 1:
                return ite(t.truth(r), r, args[1])
            interp.raise_if(not_(t.truth(r)), "StopIteration", s, node)
            return r
        if x.op in ("gen", "genexp", "mapiter", "filteriter", "chainiter", "chainseq", "zip", "enumerate"):
            from .interp import Exit
            brk = object()
            cell = interp.alloc("cell", node, s, tag="next", v=args[1] if len(args) > 1 else raw("undef"))

            def body(y, s2):
                s4 = s2.copy()
                s4.loc[("h", cell.args[0], "v")] = y
                interp.collect[-1].append(Exit("break", s4, None, brk))
                s2.pc = FALSE

            interp.finish_loop(s, lambda z: interp.iterate(x, z, body, node), brk)
            r = interp.get(cell, "v", s)
            if len(args) == 1 and any(l.op == "undef" for l in t.leaves(r)):
                miss = t.lift(lambda l: TRUE if l.op == "undef" else FALSE, r)
                interp.raise_if(miss, "StopIteration", s, node)
                from .interp import drop_undef
                r = drop_undef(r)
            return r
        return interp.unk("next()", node)

    return interp.cases(v, st, go)


def c_super_ok(interp, args, kwargs, st, node):
    return interp.unk("super", node)


def seqpl(interp, v, st, node):
    return interp.to_seq(interp.plain(v, st), st, node)


def c_frombytes(interp, args, kwargs, st, node):
    args, kwargs = normalise("builtins.int.from_bytes", args, kwargs)
    d = interp.plain(args[0], st)
    if ty(d) != "b":
        d = tobytes(interp, d, st, node)
    o = args[1] if len(args) > 1 and args[1] is not None else const("big")
    sg = args[2] if len(args) > 2 and args[2] is not None else FALSE
    if o is const("big") and sg is FALSE:
        return t.be(d)
    return t.lift(lambda x: raw("call", "builtins.int.from_bytes", x, o, sg), d)


def c_ord(interp, args, kwargs, st, node):
    return t.lift(lambda x: const(ord(cv(x))) if is_const(x) else raw("ord", x), args[0])


def c_chr(interp, args, kwargs, st, node):
    return t.lift(lambda x: const(chr(cv(x))) if is_const(x) else raw("call", "builtins.chr", x), args[0])


def c_reversed(interp, args, kwargs, st, node):
    v = interp.to_seq(interp.plain(args[0], st), st, node) if args[0].op not in ("range",) else args[0]
    return raw("reviter", v)


def c_x25519_gen(interp, args, kwargs, st, node):
    return raw("call", "X25519PrivateKey.from_private_bytes", fresh(interp, const(32), st, node))


def c_ed25519_gen(interp, args, kwargs, st, node):
    return raw("call", "Ed25519PrivateKey.from_private_bytes", fresh(interp, const(32), st, node))


def c_deque(interp, args, kwargs, st, node):
    seq = interp.to_seq(interp.plain(args[0], st), st, node) if args else t.EMPTY
    return interp.mklist(seqlist(seq), node, st, kind="deque")


def c_b64(name):
    def f(interp, args, kwargs, st, node):
        args, kwargs = normalise(name, args, kwargs)
        args = [NONE if a is None else interp.plain(a, st) for a in args]
        while len(args) > 1 and args[-1] in (NONE, FALSE):
            args.pop()
        r = t.rebuild("call", [name] + args)
        if name.endswith("decode"):
            maybe_raise(interp, name, r, st, node)
        return r
    return f


def c_b2a(interp, args, kwargs, st, node):
    r = c_b64("base64.b64encode")(interp, args[:1], {}, st, node)
    if kwargs.get("newline", TRUE) is FALSE:
        return r
    return t.cat("b", r, const(b"\n"))


def _re_b64decode(x, *a):
    # a text argument is the same as its ASCII encoding
    def leaf(y, *z):
        if ty(y) == "s":
            y = encode(y, const("ascii"))
            if y.op == "ite":
                return t.lift(leaf, y, *z)
        if y.op == "call" and y.args[0] == "base64.b64encode":
            return y.args[1]
        if y.op == "cat" and not z and is_const(y.args[-1]) and re.fullmatch(b"==+", cv(y.args[-1])):
            y = t.cat("b", *y.args[1:-1], const(b"==="))
            u = y.args[1]
            if len(y.args) == 3 and u.op == "mcall" and u.args[0] == "rstrip" and u.args[2:] == (const(b"="),) and u.args[1].op == "call" and u.args[1].args[
                    0] == "base64.b64encode":
                return u.args[1].args[1]
        return raw("call", "base64.b64decode", y, *z)
    return t.lift(leaf, x, *a)


RECALL["base64.b64decode"] = _re_b64decode


def _re_int(x, *a):
    return t.lift(lambda *z: raw("call", "builtins.int", *z), x, *a)


def c_count(interp, args, kwargs, st, node):
    return raw("countiter", args[0] if args else const(0), args[1] if len(args) > 1 else kwargs.get("step", const(1)))


# ---- click commands: decorators declare, `invoke` (in a specification) runs a command as click would

def click_deco(interp, name, args, kwargs):
    interp.clicks.append((name, list(args), dict(kwargs)))
    return raw("clickdeco", len(interp.clicks) - 1)


def click_apply(interp, deco, f, node):
    if f.op != "func":
        interp.warn("command line declaration on something else than a function", node)
        return f
    interp.clicked.setdefault(f.args[0], []).append(deco.args[0])
    return f


def c_clickdeco(name):
    return lambda interp, args, kwargs, st, node: click_deco(interp, name, args, kwargs)


OPTION_NOISE = {"help", "show_default", "metavar", "hidden", "show_choices", "show_envvar"}


def click_params(interp, fid, st):
    """[(kind, flags, name, attributes)] of a command function, in order"""
    out = []
    for i in reversed(interp.clicked.get(fid, [])):
        kind, args, kwargs = interp.clicks[i]
        if kind not in ("click.option", "click.argument"):
            continue
        decls = []
        for a in args:
            if not (is_const(a) and isinstance(cv(a), str)):
                interp.warn("a declared option name is not constant")
                return out
            decls.append(cv(a))
        at = {k: v for k, v in kwargs.items() if k not in OPTION_NOISE}
        name = None
        for d in decls:
            if d.isidentifier():
                name = d
        if kind == "click.argument":
            name = (decls[-1] if decls else "").lower().replace("-", "_")
            out.append((kind, ("*",), name, at))
            continue
        flags = [d for d in decls if not d.isidentifier()]
        if any("/" in d for d in flags):
            interp.warn("an option with an inverse")
        if name is None and flags:
            longest = sorted(flags, key=lambda d: -(len(d) - len(d.lstrip("-"))))[0]
            name = longest.lstrip("-").replace("-", "_").lower()
        out.append((kind, tuple(flags), name, at))
    return out


def click_mode(interp, v):
    """mode of a click.File type"""
    if v is None:
        return None
    if v.op == "call" and v.args[0] == "click.File":
        m = const("r")
        for i, a in enumerate(v.args[1:]):
            if i == 0 and a.op != "kw":
                m = a
            elif a.op == "kw" and a.args[0] == "mode":
                m = a.args[1]
        return cv(m) if is_const(m) else "?"
    if v is raw("ext", "click.File"):
        return "r"
    return "?"


def c_invoke(interp, args, kwargs, st, node):
    """invoke(main, name, (flag, kind, value), …): run a command as click would"""
    main, name = args[0], cv(args[1])
    from . import harness

    if main.op != "func":
        raise harness.Vanished("command line group")
    if not any(interp.clicks[i][0] == "click.group" for i in interp.clicked.get(main.args[0], [])):
        interp.raise_if(TRUE, "SystemExit", st, node)
        return NONE
    found = None
    for fid, ds in interp.clicked.items():
        for i in ds:
            kind, a, kw = interp.clicks[i]
            if kind != "#command" or a[0] is not main:
                continue
            n = a[1] if len(a) > 1 and a[1] is not NONE else kw.get("name", NONE)
            if n is NONE:
                n = const(interp.funcs[fid].name.lower().replace("_", "-"))
            if n is const(name):
                found = fid
    interp.call(main, [], {}, st, node)
    if found is None:
        interp.raise_if(TRUE, "SystemExit", st, node)
        return NONE
    want = {}
    for g in args[2:]:
        want[cv(g.args[0])] = (cv(g.args[1]), g.args[2])
    values = {}
    for kind, flags, pname, at in click_params(interp, found, st):
        hit = [f for f in flags if f in want]
        for k in at:
            if k not in ("type", "is_flag", "nargs", "required", "default"):
                interp.warn("command line attribute " + k)
        dv = at.get("default", NONE)
        flag = at.get("is_flag", FALSE) is TRUE
        many = at.get("nargs", const(1)) is const(-1)
        if not hit:
            if at.get("required", FALSE) is TRUE or kind == "click.argument" and not many:
                interp.raise_if(TRUE, "SystemExit", st, node)
                return NONE
            values[pname] = dv if dv is not NONE else (FALSE if flag else raw("tuple") if many else NONE)
            continue
        how, v = want.pop(hit[0])
        if hit[1:]:
            for h in hit[1:]:
                want.pop(h)
        good = {"flag": flag, "many": many and "type" not in at}.get(how)
        if good is None:
            good = click_mode(interp, at.get("type")) == how and not flag and not many
            if at.get("type") is not None and click_mode(interp, at.get("type")) == "?":
                interp.warn("type of a command line option")
        if not good:
            interp.raise_if(TRUE, "SystemExit", st, node)
            return NONE
        if flag and dv is not NONE and dv is not FALSE:
            v = TRUE
        values[pname] = v
    if want:
        interp.raise_if(TRUE, "SystemExit", st, node)
        return NONE
    interp.call(raw("func", found), [], values, st, node)
    return NONE


def c_prompt(interp, args, kwargs, st, node):
    r = raw("call", "click.prompt")
    interp.event("click.prompt", [kwargs.get("hide_input", FALSE), kwargs.get("confirmation_prompt", FALSE)], st, node)
    err = interp.truth(kwargs.get("err", FALSE), st, node)
    if err is not TRUE:  # the prompt itself is shown on standard output
        text = args[0] if args else kwargs.get("text", const(""))
        old = interp.get(raw("obj", "sys.stdout"), "out", st)
        stream_write(interp, raw("obj", "sys.stdout"), t.cat("s", interp.str_(text, st, node), const(":")), st, node)
        if err is not FALSE:
            interp.put(raw("obj", "sys.stdout"), "out", ite(err, old, interp.get(raw("obj", "sys.stdout"), "out", st)), st)
    return r


def c_stat(interp, args, kwargs, st, node):
    return plaincall(interp, "os.stat", args, kwargs, st, node)


def c_fstat(interp, args, kwargs, st, node):
    return plaincall(interp, "os.stat", args, kwargs, st, node)


def c_cipher(interp, args, kwargs, st, node):
    args, kwargs = normalise("ciphers.Cipher", args, kwargs)
    return raw("call", "ciphers.Cipher", *shown(interp, args[:2], st))


def c_reduce(interp, args, kwargs, st, node):
    f = args[0]
    if len(args) > 2:
        cell = interp.alloc("cell", node, st, tag="reduce", v=args[2])
        interp.iterate(args[1], st, lambda x, s: interp.put(cell, "v", interp.call(f, [interp.get(cell, "v", s), x], {}, s, node), s), node)
        return interp.get(cell, "v", st)
    return interp.unk("reduce", node)


def c_pathjoin(interp, args, kwargs, st, node):
    return plaincall(interp, "os.path.join", args, kwargs, st, node, False)


def c_opfunc(op):
    def f(interp, args, kwargs, st, node):
        return interp.binop(op, args[0], args[1], st, node)
    return f


def c_memoryview(interp, args, kwargs, st, node):
    return interp.plain(args[0], st)


def c_hash(interp, args, kwargs, st, node):
    def go(x, s):
        if x.op == "inst":
            x = interp.thaw(x, node, s)
        elif x.op != "obj":
            x = interp.symobj(x, s) or x
        m = interp.find_method(x, "__hash__") if x.op == "obj" else None
        if x.op == "objid":
            return x
        own = m is not None and (m.op == "ebound" and m.args[0].op == "class" or m.args[0] == "builtins.object.__hash__")
        if m is not None and m is not NONE and not own:
            return interp.call(m, [], {}, s, node)
        if x.op == "obj" and interp.kind(x) == "inst" and hasattr(interp.ocls(x), "dataclass") and not interp.ocls(x).dataclass:
            if m is NONE or (m is None and interp.find_method(x, "__eq__") is not None):
                interp.raise_if(TRUE, "TypeError", s, node)
            return raw("objid", const(repr(x.args[0])))
        return raw("call", "builtins.hash", interp.reify(x, s))
    return interp.cases(args[0], st, go)


def c_id(interp, args, kwargs, st, node):
    # the identity of an object is not a function of its contents
    def go(x, s):
        if x.op == "obj":
            return raw("objid", const(repr(x.args[0])))
        return raw("call", "builtins.id", x)
    return interp.cases(args[0], st, go)


def c_map(interp, args, kwargs, st, node):
    if len(args) == 2:
        return raw("mapiter", args[0], args[1])
    z = raw("zip", *args[1:])
    gid = interp.site(node, "!starmap")
    return interp.unk("map with several iterables", node)


CALLS = {
    "builtins.len": c_len, "builtins.range": c_range, "builtins.id": c_id, "builtins.any": c_any, "builtins.all": c_all,
    "builtins.sum": c_sum, "builtins.min": c_minmax("min"), "builtins.max": c_minmax("max"),
    "builtins.int": c_int, "builtins.str": c_str, "builtins.bytes": c_bytes, "builtins.bytearray": c_bytearray,
    "builtins.list": c_list, "builtins.tuple": c_tuple, "builtins.set": c_set, "builtins.frozenset": c_set,
    "builtins.dict": c_dict, "collections.OrderedDict": c_dict, "collections.defaultdict": c_defaultdict,
    "builtins.sorted": c_sorted, "builtins.isinstance": c_isinstance, "builtins.issubclass": c_issubclass,
    "builtins.getattr": c_getattr, "builtins.setattr": c_setattr, "builtins.hasattr": c_hasattr,
    "builtins.print": c_print, "click.echo": c_echo, "click.secho": c_echo, "builtins.open": c_open,
    "io.BytesIO": c_bytesio("bytesio"), "io.StringIO": c_bytesio("stringio"), "io.TextIOWrapper": c_textio,
    "sys.exit": c_exit, "builtins.exit": c_exit, "builtins.quit": c_exit, "builtins.SystemExit": None,
    "HKDF": c_hkdf, "Scrypt": c_scrypt, "hashlib.scrypt": c_hlscrypt, "chmac.HMAC": c_hmacobj,
    "hmac.new": c_hmacnew, "hmac.HMAC": c_hmacnew, "hmac.digest": c_hmacdigest, "hashes.Hash": c_hashobj,
    "hashlib.new": c_hashnew, "hmac.compare_digest": c_compare,
    "struct.unpack": c_struct_unpack, "struct.unpack_from": c_unpack_from, "struct.calcsize": c_calcsize,
    "struct.pack": lambda i, a, k, s, n: pack(i, a[0], a[1:]),
    "math.ceil": c_ceil, "math.floor": c_floor, "builtins.divmod": c_divmod, "functools.partial": c_partial,
    "re.compile": c_recompile, "re.match": c_re("match"), "re.search": c_re("search"),
    "re.fullmatch": c_re("fullmatch"), "textwrap.fill": c_textwrap_fill, "textwrap.wrap": c_textwrap_wrap,
    "collections.namedtuple": c_namedtuple, "builtins.type": c_type, "builtins.iter": c_iter, "builtins.next": c_next,
    "builtins.int.from_bytes": c_frombytes, "builtins.ord": c_ord, "builtins.chr": c_chr,
    "builtins.reversed": c_reversed, "X25519PrivateKey.generate": c_x25519_gen,
    "Ed25519PrivateKey.generate": c_ed25519_gen, "collections.deque": c_deque,
    "base64.b64encode": c_b64("base64.b64encode"), "base64.b64decode": c_b64("base64.b64decode"),
    "binascii.a2b_base64": c_b64("base64.b64decode"), "binascii.b2a_base64": c_b2a,
    "itertools.count": c_count, "click.prompt": c_prompt, "vfa_click.invoke": c_invoke,
    "click.option": c_clickdeco("click.option"), "click.argument": c_clickdeco("click.argument"), "click.command": c_clickdeco("click.command"),
    "click.group": c_clickdeco("click.group"),
    "stat.S_IFMT": lambda i, a, k, s, n: t.band(a[0], const(0o170000)), "stat.S_IMODE": lambda i, a, k, s, n: t.band(a[0], const(0o7777)),
    **{"stat.S_IS" + x: (lambda c: lambda i, a, k, s, n: t.eq(t.band(a[0], const(0o170000)), const(c)))(c)
       for x, c in (("REG", 0o100000), ("DIR", 0o040000), ("CHR", 0o020000), ("FIFO", 0o010000), ("LNK", 0o120000), ("SOCK", 0o140000), ("BLK", 0o060000))},
    "click.File": lambda i, a, k, s, n: raw("call", "click.File", a[0] if a else k.get("mode", const("r"))), "os.stat": c_stat, "os.fstat": c_fstat,
    "ciphers.Cipher": c_cipher, "functools.reduce": c_reduce, "builtins.memoryview": c_memoryview,
    "builtins.hash": c_hash, "builtins.map": c_map,
    "builtins.filter": lambda i, a, k, s, n: raw("filteriter", a[0], a[1]),
    "builtins.enumerate": lambda i, a, k, s, n: raw("enumerate", normalise("builtins.enumerate", a, k)[0][0],
                                                    (normalise("builtins.enumerate", a, k)[0] + [const(0)])[1]),
    "builtins.zip": lambda i, a, k, s, n: raw("zip", *a),
    "itertools.chain": lambda i, a, k, s, n: raw("chainiter", *a),
    "itertools.chain.from_iterable": lambda i, a, k, s, n: raw("chainseq", a[0]),
    "builtins.bool": lambda i, a, k, s, n: i.truth(a[0], s, n) if a else FALSE,
    "builtins.abs": lambda i, a, k, s, n: raw("call", "builtins.abs", a[0]),
    "builtins.repr": lambda i, a, k, s, n: i.repr_(a[0], s, n),
    "builtins.format": lambda i, a, k, s, n: i.format_(a[0], a[1] if len(a) > 1 else None, s, n),
    "builtins.callable": lambda i, a, k, s, n: TRUE if a[0].op in ("func", "bound", "class", "ext", "ebound", "partial") else raw("truth", a[0]),
    "builtins.slice": lambda i, a, k, s, n: raw("slicev", *((NONE, a[0], NONE) if len(a) == 1 else (a + [NONE])[:3])),
    "builtins.bytes.fromhex": lambda i, a, k, s, n: const(bytes.fromhex(cv(a[0]))) if is_const(a[0]) else raw("call", "builtins.bytes.fromhex", a[0]),
    "builtins.divmod": c_divmod, "builtins.round": lambda i, a, k, s, n: raw("call", "builtins.round", *a),
    "builtins.dict.fromkeys": lambda i, a, k, s, n: i.mklist(i.to_seq(i.plain(a[0], s), s, n), n, s, kind="set"),
    "builtins.object": lambda i, a, k, s, n: i.alloc("inst", n, s),
    "builtins.str.join": lambda i, a, k, s, n: method(i, a[0], "join", a[1:], k, s, n),
    "os.urandom": lambda i, a, k, s, n: fresh(i, a[0] if a else k.get("size", const(32)), s, n),
    "secrets.token_bytes": lambda i, a, k, s, n: fresh(i, a[0] if a else k.get("nbytes", const(32)), s, n),
    "os.getrandom": lambda i, a, k, s, n: fresh(i, a[0] if a else k.get("size", const(32)), s, n),
    "typing.NewType": lambda i, a, k, s, n: raw("ext", "<identity>"), "<identity>": lambda i, a, k, s, n: a[0],
    "typing.TypeVar": lambda i, a, k, s, n: raw("ext", "typing.Any"),
    "contextlib.closing": lambda i, a, k, s, n: raw("closing", a[0]),
    "contextlib.nullcontext": lambda i, a, k, s, n: raw("nullcontext", *a),
    "contextlib.suppress": lambda i, a, k, s, n: raw("suppress", *a),
    "operator.attrgetter": lambda i, a, k, s, n: raw("getter", "attr", a[0]),
    "operator.itemgetter": lambda i, a, k, s, n: raw("getter", "item", a[0]),
    "operator.methodcaller": lambda i, a, k, s, n: raw("getter", "method", a[0]),
    "operator.xor": c_opfunc("BitXor"), "operator.add": c_opfunc("Add"), "operator.or_": c_opfunc("BitOr"),
    "dataclasses.field": lambda i, a, k, s, n: raw("dcfield", k["default_factory"]) if "default_factory" in k else k.get("default", NONE),
    "copy.copy": lambda i, a, k, s, n: copyobj(i, a[0], s, n), "copy.deepcopy": lambda i, a, k, s, n: copyobj(i, a[0], s, n),
    "cryptography.hazmat.backends.default_backend": lambda i, a, k, s, n: NONE,
    "datetime.now": lambda i, a, k, s, n: raw("call", "datetime.now"),
    "os.path.isfile": lambda i, a, k, s, n: plaincall(i, "os.path.isfile", a, k, s, n),
    "builtins.locals": None, "warnings.warn": lambda i, a, k, s, n: (i.event("<print>", [raw("obj", "sys.stderr"), i.str_(a[0], s, n)], s, n), NONE)[1],
}
CALLS = {k: v for k, v in CALLS.items() if v is not None}


def copyobj(interp, v, st, node):
    if v.op == "obj" and interp.kind(v) in ("list", "dict", "set", "bytearray"):
        return interp.mklist(interp.get(v, "v", st), node, st, kind=interp.kind(v))
    return v


def call_value(interp, f, args, kwargs, st, node):
    if f.op == "re":
        return interp.unk("call of a pattern", node)
    if f.op == "attr" and isinstance(f.args[1], str):
        return method(interp, f.args[0], f.args[1], args, kwargs, st, node)  # a method that was kept as a value
    a = shown(interp, args, st) + [raw("kw", k, interp.reify(v, st)) for k, v in sorted(kwargs.items())]
    if f.op in ("call", "mcall", "attr", "param", "index", "bv", "lv"):
        if f.op == "index" and f.args[0].op == "inst":
            pass
        r = t.rebuild("call", ["<apply>", f] + a)
        interp.event("<apply>", [f] + a, st, node)
        return r
    return interp.unk("call of " + f.op, node)


# ---------------------------------------------------------------------- methods


def list_method(interp, o, name, args, kwargs, st, node):
    k = interp.kind(o)
    kd = "b" if k == "bytearray" else "l"
    seq = interp.get(o, "v", st)
    put = lambda v: interp.put(o, "v", v, st, node)
    if k == "set":
        if name in ("add",):
            put(t.cat("l", seq, t.unit(args[0])))
            return NONE
        if name in ("update", "union"):
            r = seq
            for a in args:
                r = t.cat("l", r, seqlist(interp.to_seq(a, st, node)))
            if name == "union":
                return interp.mklist(r, node, st, kind="set")
            put(r)
            return NONE
        if name in ("issubset", "issuperset", "isdisjoint"):
            return raw("subset", const(name), interp.reify(o, st), interp.reify(interp.to_seq(args[0], st, node), st))
        if name in ("discard", "remove", "pop", "difference", "intersection", "symmetric_difference", "difference_update"):
            interp.warn("set." + name, node)
            return t.unknown("set." + name)
    if name == "append":
        put(t.cat(kd, seq, t.unit(args[0]) if kd == "l" else t.tobe(args[0], const(1))))
        return NONE
    if name == "extend":
        interp.list_extend(o, args[0], st, node)
        return NONE
    if name == "appendleft" or (name == "insert" and args[0] is const(0)):
        v = args[-1]
        put(t.cat(kd, t.unit(v), seq))
        return NONE
    if name == "clear":
        put(t.empty(kd))
        return NONE
    if name == "copy":
        return interp.mklist(seq, node, st, kind=k)
    if name == "pop" and (not args or args[0] is const(-1)):
        put(t.slice_(seq, const(0), const(-1)))
        return t.index(seq, const(-1))
    if name == "popleft" or (name == "pop" and args[0] is const(0)):
        put(t.slice_(seq, const(1), NONE))
        return t.index(seq, const(0))
    if name == "reverse":
        put(t.rebuild("rev", [seq]))
        return NONE
    if name == "sort":
        if kwargs.get("key", NONE) is not NONE:
            put(interp.unk("sort with key", node))
        else:
            extra = [raw("kw", k, v) for k, v in sorted(kwargs.items()) if v is not FALSE and k != "key"]
            put(raw("call", "builtins.sorted", interp.reify(seq, st), *extra))
        return NONE
    if name in ("index", "count"):
        return raw("mcall", name, interp.reify(seq, st), *shown(interp, args, st))
    if k == "bytearray":
        return method(interp, seq, name, args, kwargs, st, node)
    if name in ("__getitem__",):
        return interp.subscript(o, args[0], st, node)
    if name == "__len__":
        return t.length(seq)
    interp.warn("list method " + name, node)
    return t.unknown("list." + name)


def dict_method(interp, o, name, args, kwargs, st, node):
    from .interp import dict_has, dict_index, dict_set, dict_op

    isobj = o.op == "obj"
    d = interp.get(o, "v", st) if isobj else o
    if name == "get":
        dflt = args[1] if len(args) > 1 else NONE
        if d.op == "dictv":
            has = dict_has(d, args[0])
            return interp.branch(has, st, lambda s: interp.simp(dict_index(d, args[0]), s), lambda s: dflt)
        has = dict_has(d, args[0])
        return ite(has, dict_index(d, args[0]), dflt)
    if name == "items":
        if d.op == "dictv":
            return t.mklist([t.tup([d.args[i], d.args[i + 1]]) for i in range(0, len(d.args), 2)])
        return raw("call", "dict.items", interp.reify(d, st))
    if name == "keys":
        if d.op == "dictv":
            return t.mklist(d.args[::2])
        return raw("call", "dict.keys", interp.reify(d, st))
    if name == "values":
        if d.op == "dictv":
            return t.mklist(d.args[1::2])
        return raw("call", "dict.values", interp.reify(d, st))
    if name == "copy":
        return interp.alloc("dict", node, st, v=d)
    if not isobj:
        return interp.unk("method of a dict snapshot", node)
    if name == "setdefault":
        v = args[1] if len(args) > 1 else NONE
        if v.op == "obj" and interp.kind(v) == "list" and interp.get(v, "v", st) is t.EMPTY:
            return interp.default_get(o, args[0], st, node)
        v = interp.plain(v, st)
        has = dict_has(d, args[0])
        if not any(x.op == "obj" for x in t.leaves(v)):
            interp.put(o, "v", ite(has, d, dict_set(d, args[0], v)), st, node)
            return raw("ddslot", o, args[0])
        interp.warn("setdefault", node)
        return t.unknown("setdefault")
    if name == "update":
        x = args[0] if args else None
        if x is not None and interp.isobj(x, "dict"):
            od = interp.get(x, "v", st)
            if od.op == "dictv":
                for i in range(0, len(od.args), 2):
                    d = dict_set(d, od.args[i], od.args[i + 1])
                interp.put(o, "v", d, st, node)
                return NONE
        interp.put(o, "v", dict_op(d, "update", interp.reify(x, st) if x is not None else NONE, NONE), st, node)
        return NONE
    if name == "clear":
        interp.put(o, "v", raw("dictv"), st, node)
        return NONE
    if name == "pop":
        interp.put(o, "v", dict_op(d, "pop", args[0], NONE), st, node)
        has = dict_has(d, args[0])
        r = dict_index(d, args[0])
        return ite(has, r, args[1]) if len(args) > 1 else r
    interp.warn("dict method " + name, node)
    return t.unknown("dict." + name)


MUTATING = ("append", "extend", "insert", "clear", "remove", "sort", "reverse", "appendleft", "popleft", "pop", "update", "setdefault", "discard", "add")


def method(interp, recv, name, args, kwargs, st, node):
    o = recv
    op = o.op
    if op == "func" and name in ("command", "group"):
        return click_deco(interp, "#command", [o] + list(args), kwargs)
    if op == "func" and name == "add_command":
        if args and args[0].op == "func":
            n = args[1] if len(args) > 1 else kwargs.get("name", NONE)
            if n is NONE:
                for i in interp.clicked.get(args[0].args[0], []):
                    kind, a, kw = interp.clicks[i]
                    if kind in ("click.command", "click.group"):
                        n = a[0] if a else kw.get("name", NONE)
            interp.call(click_deco(interp, "#command", [o, n], {}), [args[0]], {}, st, node)
        else:
            interp.warn("add_command", node)
        return NONE
    if op == "obj":
        k = interp.kind(o)
        if k in ("list", "bytearray", "deque", "set"):
            return list_method(interp, o, name, args, kwargs, st, node)
        if k == "dict":
            return dict_method(interp, o, name, args, kwargs, st, node)
        if k in STREAMS:
            return stream_method(interp, o, name, args, kwargs, st, node)
        if k in ("hmacobj", "hashobj"):
            return hash_method(interp, o, k, name, args, kwargs, st, node)
        if k == "inst":
            if name == "close":
                if interp.get(o, "#closed", st) is not None:
                    interp.put(o, "#closed", TRUE, st, node)
                return NONE
            if name in ("flush", "__enter__"):
                return o if name == "__enter__" else NONE
            if name == "__exit__":
                return interp.call_method(o, "close", [], {}, st, node)
            if name in ("readable", "writable", "seekable"):
                return FALSE
            if name in ("__init__", "__init_subclass__"):
                return NONE
            if name == "readall":
                return interp.call_method(o, "read", [], {}, st, node)
            if name == "isatty":
                return FALSE
            if name == "_checkClosed":
                c = interp.get(o, "#closed", st, FALSE)
                interp.raise_if(c, "ValueError", st, node)
                return NONE
            c = interp.ocls(o)
            if hasattr(c, "dataclass") and c.dataclass == "namedtuple" and name == "_replace":
                vals = {f: interp.get(o, f, st) for f in c.fields}
                vals.update(kwargs)
                return interp.instantiate(c, [vals[f] for f in c.fields], {}, st, node)
        if k == "exc" or k == "inst":
            if name == "with_traceback":
                return o
            return interp.unk("method %s of %s" % (name, k), node)
        return interp.unk("method %s of %s" % (name, k), node)
    if op == "basesuper":
        s = o.args[0]
        if name == "close":
            interp.put(s, "#closed", TRUE, st, node)
            return NONE
        if name in ("__init__", "flush", "__init_subclass__", "__del__"):
            return NONE
        if name == "__enter__":
            return s
        if name == "__exit__":
            return interp.call_method(s, "close", [], {}, st, node)
        if name == "write" and interp.get(s, "#closed", st) is not None:
            return NONE
        return interp.unk("super()." + name, node)
    if op == "class":
        if name == "__subclasses__":
            return t.mklist([raw("class", c.qual) for c in interp.subclasses(o.args[0])])
        if name == "mro":
            return t.mklist([raw("class", c.qual) for c in interp.mro(interp.classes[o.args[0]])])
        c = interp.classes[o.args[0]]
        if name == "_make" and c.dataclass == "namedtuple":
            seq = interp.to_seq(args[0], st, node)
            return interp.instantiate(c, [t.index(seq, const(i)) for i in range(len(c.fields))], {}, st, node)
        return interp.unk("class method " + name, node)
    if op in ("dictv", "dictlog"):
        return dict_method(interp, o, name, args, kwargs, st, node)
    if op == "ddslot":
        from .interp import dict_op
        d = interp.get(o.args[0], "v", st)
        if name in ("extend", "append"):
            v = seqlist(interp.to_seq(interp.plain(args[0], st), st, node)) if name == "extend" else t.unit(args[0])
            interp.put(o.args[0], "v", dict_op(d, "extend", o.args[1], v), st, node)
            return NONE
        if name in MUTATING:
            return interp.unk("defaultdict slot method", node)
        return method(interp, interp.entry(o, st), name, args, kwargs, st, node)
    if op == "match" or (op == "ite" and any(l.op == "match" for l in t.leaves(o))):
        if name in ("group", "__getitem__"):
            i = args[0] if args else const(0)
            return t.lift(lambda m: match_group(m, i), o)
        if name == "groups":
            return t.lift(lambda m: raw("call", "re.groups", m), o)
        return interp.unk("match." + name, node)
    if op == "re":
        if name in ("match", "search", "fullmatch"):
            return rematch(name, o.args[0], o.args[1], args[0])
        return raw("call", "re." + name, o, *shown(interp, args, st))
    if op == "kdfobj":
        if name == "derive":
            k = interp.plain(args[0] if args else kwargs["key_material"], st)
            a = list(o.args[1:]) + [k]
            r = t.rebuild("call", [o.args[0]] + a)
            interp.event(o.args[0], a, st, node)
            return r
        if name == "verify":
            k = interp.plain(args[0], st)
            r = t.rebuild("call", [o.args[0]] + list(o.args[1:]) + [k])
            interp.raise_if(not_(t.eq(r, args[1])), "InvalidKey", st, node)
            return NONE
    if op == "unknown":
        return o
    ctx = op in ("call", "ite") and all(l.op == "call" and l.args[0] == "cipherctx" for l in t.leaves(o))
    if ctx and name == "update":
        if (o, id(node)) not in interp.fed and any(f is o for f, _ in interp.fed):
            interp.warn("a cipher is fed more than once", node)
        interp.fed.add((o, id(node)))
    if name in MUTATING and not ctx and (t.ty(o) is None or t.ty(o)[:1] == "l"):
        interp.warn("%s on a list that is only known by its value" % name, node)
    if op in ("gen", "genexp"):
        if name == "close":
            return NONE
        return interp.unk("generator method " + name, node)
    if op == "tuple" and name in ("index", "count"):
        return raw("mcall", name, o, *args)
    if name in ("encrypt", "decrypt") and any(k in kwargs for k in ("padding", "plaintext", "ciphertext")):
        args, kwargs = normalise("x", args, kwargs, {"x": ["plaintext" if name == "encrypt" else "ciphertext", "padding"]})
    args, kwargs = normalise(name, args, kwargs, MSIG)
    args = [NONE if a is None else a for a in args]
    if name == "to_bytes":
        ln = args[0] if args else const(1)
        bo = args[1] if len(args) > 1 and args[1] is not NONE else const("big")
        sg = args[2] if len(args) > 2 and args[2] is not NONE else FALSE
        if bo is const("big") and sg is FALSE:
            return t.tobe(o, ln)
        return t.lift(lambda x: raw("call", "int.to_bytes", x, ln, bo, sg), o)
    if name == "decode":
        enc = codec(args[0]) if args and args[0] is not NONE else const("utf-8")
        er = args[1] if len(args) > 1 and args[1] not in (NONE, const("strict")) else None
        if er is None:
            r0 = t.lift(lambda x: raw("mcall", "decode", x, enc), o)
            if not is_const(o):
                maybe_raise(interp, "decode", r0, st, node)
        return decode(o, enc, er)
    if name == "encode":
        enc = codec(args[0]) if args and args[0] is not NONE else const("utf-8")
        er = args[1] if len(args) > 1 and args[1] not in (NONE, const("strict")) else None
        if er is None and not is_const(o) and enc is not const("utf-8"):
            maybe_raise(interp, "encode", t.lift(lambda x: raw("mcall", "encode", x, enc), o), st, node)
        return encode(o, enc, er)
    if name == "join":
        seq = seqlist2(interp.to_seq(args[0], st, node))
        return join(o, interp.reify(seq, st))
    if name == "format":
        if is_const(o):
            return str_format(interp, cv(o), args, kwargs, st, node)
    if name in ("startswith", "endswith") and len(args) == 1:
        p = args[0]
        if p.op == "obj":
            p = c_tuple(interp, [p], {}, st, node)
        return (t.startswith if name == "startswith" else t.endswith)(o, p)
    if name in FOLD or name in ("split", "rsplit", "splitlines", "partition", "rpartition", "isspace", "isalpha", "isalnum", "translate", "swapcase", "capitalize"):
        if name == "index" and t.seqty(o) is None and t.ty(o) is None:
            pass
        if name in ("splitlines",) and args and args[0] is FALSE:
            args = []
        r = strmethod(name, o, [interp.plain(a, st) for a in args])
        if name in t.STROPS and t.strops(r):
            r = under_prefix(interp, r, st)
        if name in ("index", "rindex") and interp.catches("ValueError"):
            interp.raise_if(t.eq(strmethod("find", o, [interp.plain(a, st) for a in args]), const(-1)), "ValueError", st, node)
        if name in ("split", "rsplit", "splitlines") and r.op in ("cat", "ite"):
            return interp.mklist(r, node, st)
        return r
    # library objects
    return t.lift(lambda x: x, lib_method(interp, o, name, args, kwargs, st, node))


def seqlist2(seq):
    return t.mklist(seq.args) if seq.op == "tuple" else seq


RAWENC = ("ser.Encoding.Raw",)


def israw(args):
    return bool(args) and all(a.op == "ext" and a.args[0].split(".")[-1] == "Raw" or a.op == "call" and a.args[0] == "ser.NoEncryption"
                              for a in args)


def lib_method(interp, o, name, args, kwargs, st, node):
    a = shown(interp, args, st)

    def leaf(x):
        c = cls_of(x)
        if name == "public_bytes" and israw(a):
            if x.op == "call" and x.args[0] in ("X25519PublicKey.from_public_bytes", "Ed25519PublicKey.from_public_bytes"):
                return x.args[1]
            if x.op == "mcall" and x.args[0] == "public_key" and x.args[1].op == "call":
                y = x.args[1]
                if y.args[0] == "X25519PrivateKey.from_private_bytes":
                    return raw("call", "nacl.crypto_scalarmult_base", y.args[1])
        if name in ("private_bytes", "private_bytes_raw") and (israw(a) or name.endswith("raw")) and x.op == "call" and x.args[0] in (
                "X25519PrivateKey.from_private_bytes", "Ed25519PrivateKey.from_private_bytes"):
            return x.args[1]
        if name == "public_bytes_raw":
            return raw("mcall", "public_bytes", x, raw("ext", "ser.Encoding.Raw"), raw("ext", "ser.PublicFormat.Raw"))
        if name == "exchange" and x.op == "call" and x.args[0] == "X25519PrivateKey.from_private_bytes" and a[0].op == "call" and \
                a[0].args[0] == "X25519PublicKey.from_public_bytes":
            return raw("call", "nacl.crypto_scalarmult", x.args[1], a[0].args[1])
        if x.op == "call" and x.args[0] == "ChaCha20Poly1305" and name in ("encrypt", "decrypt"):
            b = [NONE if y is const(b"") and i == 2 else y for i, y in enumerate(a)]
            while len(b) > 2 and b[-1] is NONE:
                b.pop()
            return raw("call", "aead." + name, x.args[1], *b)
        if name in ("encrypt", "decrypt") and (c in ("rsa.RSAPublicKey", "rsa.RSAPrivateKey") or len(a) == 2 and a[
                1].op == "call" and a[1].args[0].startswith("padding.")):
            return raw("call", "rsa." + name, x, *a)
        if x.op == "call" and x.args[0] == "ciphers.Cipher" and name in ("decryptor", "encryptor"):
            return raw("call", "cipherctx", const(name), *x.args[1:])
        if x.op == "call" and x.args[0] == "cipherctx":
            ctr = x.args[3].op == "call" and x.args[3].args[0] == "mode.CTR"
            if name == "update" and ctr:
                return raw("call", "cipher", *(x.args[1:] + tuple(a)))
            if name == "finalize" and ctr:
                return const(b"")
        return raw("mcall", name, x, *a, *[raw("kw", k, interp.reify(v, st)) for k, v in sorted(kwargs.items())])

    if o.op == "ite" and any(l is NONE for l in t.leaves(o)):
        o = t.lift(lambda x: x, o)
    r = t.lift(leaf, o)
    nm = r.args[0] if r.op == "call" else name
    if r.op == "mcall" and name == "raise_for_status":
        interp.event(name, [o], st, node)
        interp.raise_if(raises(r, "HTTPError"), "HTTPError", st, node)
        return NONE
    if r.op in ("call", "mcall"):
        interp.event(nm, list(r.args[1:]), st, node)
    if nm in interp.stubs:
        return interp.call(interp.lookup(interp.stubs[nm]), [], {}, st, node)
    for l in t.leaves(r):
        if l.op == "call" and l.args[0] in ALWAYS:
            maybe_raise(interp, l.args[0], r, st, node)
            return r
    if r.op == "mcall" and name == "exchange":
        interp.raise_if(not_(nonzero(r)), "ValueError", st, node)
    if r.op in ("mcall",) and (name in EXC or name in interp.opaque_raises):
        maybe_raise(interp, name, r, st, node)
    return r


def nonzero(x):
    k = t.newk()
    return t.exists(t.length(x), k, t.truth(t.index(x, k)))


def hash_method(interp, o, k, name, args, kwargs, st, node):
    alg, data = interp.get(o, "alg", st), interp.get(o, "data", st)
    if name == "update":
        interp.put(o, "data", t.cat("b", data, interp.plain(args[0], st)), st, node)
        return NONE
    if name == "copy":
        f = {"alg": alg, "data": data}
        if k == "hmacobj":
            f["key"] = interp.get(o, "key", st)
        return interp.alloc(k, node, st, **f)
    if k == "hmacobj":
        r = mkhmac(interp, alg, interp.get(o, "key", st), data, st, node)
    else:
        r = t.rebuild("call", ["hash", alg, data])
    if name in ("finalize", "digest"):
        return r
    if name == "hexdigest":
        return strmethod("hex", r, [])
    if name == "verify":
        sig = interp.plain(args[0] if args else kwargs["signature"], st)
        interp.event("verify", [r, sig], st, node)
        interp.raise_if(not_(t.eq(r, sig)), "InvalidSignature", st, node)
        return NONE
    return interp.unk("hash method " + name, node)
