"""Make numba's on-disk cache sound across source changes.

Numba stamps a cached function with (mtime, size) of *its own* file only, so a
cached caller silently keeps running the old code of a callee in another file.
Here the stamp of a file below /repo/src/kikuchipy is a hash of the contents of
that file and of every kikuchipy file it imports, directly or not. A cache entry
is then reused exactly when nothing it could have been compiled from changed.
"""

import ast
import hashlib
import os

ROOT = os.path.realpath(os.environ.get("KPMON_REPO", "/repo")) + "/src"
PKG = ROOT + "/kikuchipy"


def _all_files():
    out = {}
    for d, _, fs in os.walk(PKG):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                mod = os.path.relpath(p, ROOT)[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                out[mod] = p
    return out


_FILES = None
_BYTES = {}
_DEPS = {}
_STAMPS = {}


def _files():
    global _FILES
    if _FILES is None:
        _FILES = _all_files()
    return _FILES


def _deps(mod):
    if mod in _DEPS:
        return _DEPS[mod]
    files = _files()
    path = files[mod]
    with open(path, "rb") as f:
        raw = f.read()
    _BYTES[mod] = raw
    deps = set()
    try:
        tree = ast.parse(raw)
    except SyntaxError:
        tree = ast.Module(body=[], type_ignores=[])
    is_pkg = path.endswith("__init__.py")

    def add(name):
        if name in files:
            deps.add(name)
            if files[name].endswith("__init__.py") and name != "kikuchipy":
                # names of a package can be loaded lazily from anywhere below it
                deps.update(m for m in files if m.startswith(name + "."))

    for node in ast.walk(tree):
        if isinstance(node, ast.Import):
            for a in node.names:
                add(a.name)
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ""
            if node.level:
                parts = mod.split(".")
                up = node.level - (1 if is_pkg else 0)
                parts = parts[: len(parts) - up]
                base = ".".join(parts + ([node.module] if node.module else []))
            if not base.startswith("kikuchipy"):
                continue
            for a in node.names:
                sub = base + "." + a.name
                if sub in files:
                    add(sub)
            if base != "kikuchipy":
                add(base)
    deps.discard(mod)
    _DEPS[mod] = deps
    return deps


def stamp(path):
    path = os.path.realpath(path)
    if path in _STAMPS:
        return _STAMPS[path]
    mod = {os.path.realpath(v): k for k, v in _files().items()}.get(path)
    if mod is None:
        return None
    seen, todo = set(), [mod]
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        todo.extend(_deps(m))
    h = hashlib.sha256()
    for m in sorted(seen):
        h.update(m.encode() + b"\0" + hashlib.sha256(_BYTES[m]).digest())
    s = ("kpmon", h.hexdigest(), len(seen))
    _STAMPS[path] = s
    return s


def install():
    from numba.core import caching

    mixin = caching._SourceFileBackedLocatorMixin
    if getattr(mixin, "_kpmon", False):
        return
    orig = mixin.get_source_stamp

    def get_source_stamp(self):
        s = stamp(self._py_file)
        return orig(self) if s is None else s

    mixin.get_source_stamp = get_source_stamp
    mixin._kpmon = True
