"""Executes the current sources of /repo under the symbolic environment."""
from __future__ import annotations

import ast
import builtins
import os
import sys
import types

from . import core, npshim

REPO = os.environ.get("SYMTT_REPO", "/repo")
_CODE = {}


_TYPES = {"float64", "float32", "float16", "double", "single", "half", "float_", "longdouble", "float128"}


class _Casts(ast.NodeTransformer):
    """Casts cannot be overridden on arrays of objects: x.astype(t) and
    np.float64(x) are sent through the shim."""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "astype":
            new = ast.Call(ast.Name("__symtt_astype__", ast.Load()), [f.value] + node.args, node.keywords)
        elif isinstance(f, ast.Attribute) and f.attr in _TYPES:
            new = ast.Call(ast.Name("__symtt_type__", ast.Load()), [f] + node.args, node.keywords)
        else:
            return node
        return ast.copy_location(new, node)


def _compile(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(key)
    if c is None:
        with open(path) as f:
            tree = _Casts().visit(ast.parse(f.read(), path))
            c = compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)
        _CODE[key] = c
    return c


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, core.R))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class sfloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (core.R, core.I)):
            return core.R._co(x)
        if getattr(x, "dtype", None) is not None and x.dtype == object:
            return x.item()
        return float(x)


class Loader:
    """One fresh instance of the package (per path)."""

    def __init__(self, extra=None):
        self.mods = {}
        self.np = npshim.SNumpy()
        spl = npshim.SScipyLinalg()
        sp = npshim.SScipy(spl)
        import concurrent
        conc = types.ModuleType("concurrent")
        conc.futures = npshim.SFutures()
        self.shims = {
            "numpy": self.np,
            "numpy.random": self.np.random,
            "numpy.linalg": self.np.linalg,
            "scipy": sp,
            "scipy.linalg": spl,
            "concurrent": conc,
            "concurrent.futures": conc.futures,
            "multiprocessing": npshim.SMultiprocessing(),
            "math": npshim.SMath(),
            "os": npshim.SOs(),
            "tt_sketch.drm.fast_lazy_gaussian": npshim.SHash(),
        }
        self.shims.update(extra or {})
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.builtins["hash"] = self._hash
        self.builtins["float"] = sfloat
        self.builtins["__symtt_astype__"] = npshim.astype
        self.builtins["__symtt_type__"] = npshim.call_type

    @staticmethod
    def _hash(x):
        w = core.cur()
        if isinstance(x, (str, bytes)) and len(x):
            # str hashes are salted per interpreter process
            return core.hash_name(f"{w.env_run}|{x!r}") * 7919 + 11
        if isinstance(x, (tuple, frozenset)):
            return hash(tuple(Loader._hash(y) for y in x))
        return builtins.hash(x)

    def _repo_path(self, name):
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        if name in self.shims:
            return self.shims[name]
        if name in self.mods:
            return self.mods[name]
        parent = None
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
        path, pkg = self._repo_path(name)
        if path is None or not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        sys.modules[name] = m     # dataclasses look their module up there
        try:
            exec(_compile(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            sys.modules.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def _ours(self, name):
        top = name.split(".")[0]
        return top in ("tt_sketch", "scripts")

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
            if not fromlist:
                fromlist = ()
        if self._ours(name):
            m = self.load(name)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    sub = f"{name}.{f}"
                    if sub in self.shims or self._repo_path(sub)[0]:
                        s = self.load(sub)
                        setattr(m, f, s)
            if fromlist:
                return m
            top = name.split(".")[0]
            node = self.load(top)
            # make intermediate shims reachable as attributes
            cur = node
            acc = top
            for part in name.split(".")[1:]:
                acc += "." + part
                nxt = self.load(acc)
                if not hasattr(cur, part):
                    setattr(cur, part, nxt)
                cur = nxt
            return node
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            return self.shims[name.split(".")[0]]
        top = name.split(".")[0]
        if top in ("numpy", "scipy") and not fromlist:
            builtins.__import__(name, globals, locals, fromlist, 0)
            return self.shims[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)
