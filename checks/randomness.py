"""No source of randomness other than the system's is used anywhere in the package."""
import ast

WEAK = {"random": None, "numpy.random": None, "uuid": {"uuid1", "uuid3", "uuid5", "getnode"}, "_random": None}
FINE = {"random.SystemRandom"}


def bindings(tree):
    """name -> dotted external origin, for all imports of the module (at any depth)"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def dotted(node, names):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name) and node.id in names:
        return ".".join([names[node.id]] + parts[::-1])
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "__import__" and node.args and isinstance(node.args[0], ast.Constant):
        return ".".join([str(node.args[0].value)] + parts[::-1])
    return None


def weak(q):
    for m, only in WEAK.items():
        if q.startswith(m + ".") and not any(q == f or q.startswith(f + ".") for f in FINE):
            rest = q[len(m) + 1:].split(".")[0]
            if only is None or rest in only:
                return True
    return False


def sources(cx):
    src = cx.src()
    n = 0
    bad = []
    for mod in src.modules.values():
        names = bindings(mod.tree)
        for node in ast.walk(mod.tree):
            if isinstance(node, (ast.Attribute, ast.Name)) and isinstance(getattr(node, "ctx", None), ast.Load):
                q = dotted(node, names)
                if q is None:
                    continue
                n += 1
                if weak(q):
                    bad.append("%s:%d uses %s" % (mod.path, node.lineno, q))
    rule = "no module refers to a generator other than os.urandom, secrets, SystemRandom and the crypto libraries' key generators"
    if bad:
        cx.add("package.sources", rule, "violated", "; ".join(bad[:5]))
    else:
        cx.add("package.sources", rule, "discharged", "%d references to imported names" % n)
