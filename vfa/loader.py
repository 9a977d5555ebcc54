"""Finding and parsing the source of the analysed package.  Nothing is imported or executed."""
import ast
import hashlib
import os

SKIP = ("_version.py",)


class Source:
    def __init__(self, root, package="age"):
        self.root = root
        self.package = package
        self.modules = {}
        self.digest = hashlib.sha256()
        base = os.path.join(root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py") or f.endswith("_test.py") or f.startswith("test_") or f == "conftest.py":
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                with open(path, encoding="utf-8") as fh:
                    text = fh.read()
                self.digest.update(rel.encode() + b"\0" + text.encode() + b"\0")
                if f in SKIP:
                    continue
                self.modules[name] = Module(name, path, text, is_pkg)


class Module:
    def __init__(self, name, path, text, is_pkg=False):
        self.name, self.path, self.text, self.is_pkg = name, path, text, is_pkg
        self.tree = ast.parse(text, path)

    @property
    def pkg(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]


def load_file(name, path):
    with open(path, encoding="utf-8") as fh:
        return Module(name, path, fh.read())
