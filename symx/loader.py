"""Loads the code under test from its current source.

For every path the package is executed afresh, so module state never leaks
from one path into another.  The same loader provides the untouched package
for concrete replays.
"""
import builtins
import functools
import importlib
import os
import pkgutil
import threading
import types

from . import core, rewrite, vfs

ROOT = os.environ.get("SYMX_REPO", "/repo")


class Shim(types.ModuleType):
    """A library module with some attributes replaced."""

    def __init__(self, mod, repl):
        super().__init__(mod.__name__)
        self.__dict__.update(mod.__dict__)
        self.__dict__.update(repl)


class SymPackage:
    def __init__(self, root=ROOT, tops=("number_parser",), symbolic=True):
        self.root = root
        self.tops = tops
        self.symbolic = symbolic
        self.codes = {}  # modname -> (code to run, filename, is_pkg)
        self.native = {}  # modname -> {(qualname, line): code}
        self.sources = {}
        self.modules = {}
        self.generated = {}  # modname -> namespace supplied by a harness
        self.memos = {}
        self.vfs = None
        self.vshims = {}
        self.ticks = False
        self.rt = None
        if symbolic:
            from . import rt

            self.rt = rt
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self._import
        # modules that work on files get the ones of vfs
        self.script_builtins = dict(self.builtins)
        self.script_builtins["open"] = lambda *a, **k: self.vfs.open(*a, **k)
        self.script_builtins["print"] = lambda *a, **k: None
        self.script_builtins["__import__"] = self._script_import

    # -- sources
    def _find(self, name):
        p = os.path.join(self.root, *name.split("."))
        f = os.path.join(p, "__init__.py")
        if os.path.isfile(f):
            return f, True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def _code(self, name):
        c = self.codes.get(name)
        if c is not None:
            return c
        f, ispkg = self._find(name)
        if f is None:
            c = (None, None, True)
        else:
            with open(f, encoding="utf-8") as fh:
                src = fh.read()
            self.sources[name] = src
            native = compile(src, f, "exec")
            index = {}

            def walk(code, qual):
                for k in code.co_consts:
                    if isinstance(k, types.CodeType):
                        index[(k.co_qualname, k.co_firstlineno)] = k
                        walk(k, qual)

            walk(native, "")
            self.native[name] = index
            if self.symbolic and index:
                code = rewrite.rewrite(src, f, name, self.ticks)
            else:
                code = native
            c = (code, f, ispkg)
        self.codes[name] = c
        return c

    def native_code(self, modname, qualname, lineno):
        return self.native.get(modname, {}).get((qualname, lineno))

    # -- import
    def fresh(self):
        self.modules = {}
        self.vfs = None
        return self

    def script(self, name):
        return name.split(".")[0] == "number_parser_scripts"

    def files(self):
        if self.vfs is None:
            self.vfs = vfs.VFS(self.root)
            self.vshims = vfs.shims(self.vfs, Shim, self.symbolic)
        return self.vfs

    def _script_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            s = self.vshims.get(name, 0)
            if s is None:
                raise core.Unsupported("module " + name)
            if s:
                return s if fromlist else self.vshims[name.split(".")[0]]
        return self._import(name, globals, locals, fromlist, level)

    def mine(self, name):
        return name.split(".")[0] in self.tops

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            m = self.modules.get(name)
            if m is not None:
                return m
        code, f, ispkg = self._code(name)
        m = types.ModuleType(name)
        m.__builtins__ = self.builtins
        m.__file__ = f
        if self.script(name):
            self.files()
            m.__builtins__ = self.script_builtins
            if f:
                m.__file__ = vfs.TOP + f[len(self.root) :]
        m.__package__ = name if ispkg else parent
        m.__symx_pkg__ = self
        if ispkg:
            m.__path__ = [os.path.join(self.root, *name.split("."))]
        if self.rt is not None:
            m.__dict__[rewrite.RT] = self.rt
        self.modules[name] = m
        try:
            if code is not None:
                exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent], name.rpartition(".")[2], m)
        return m

    def _resolve(self, name, package, level):
        if level == 0:
            return name
        bits = package.rsplit(".", level - 1)
        base = bits[0]
        return base + "." + name if name else base

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = self._resolve(name, (globals or {}).get("__package__") or "", level)
        if self.mine(name):
            m = self.load(name)
            if not fromlist:
                return self.modules[name.split(".")[0]]
            for n in fromlist:
                if n != "*" and not hasattr(m, n):
                    try:
                        self.load(name + "." + n)
                    except ModuleNotFoundError:
                        pass
            return m
        m = builtins.__import__(name, globals, locals, fromlist, 0)
        if name == "importlib" or name.startswith("importlib."):
            if name == "importlib" or not fromlist:
                return Shim(importlib, {"import_module": self.import_module})
        if name == "pkgutil":
            return Shim(pkgutil, {"get_data": self.get_data})
        if name == "threading" and self.symbolic:
            return Shim(threading, {"Lock": self.rt.Lock, "RLock": self.rt.RLock})
        if name == "functools" and self.symbolic:
            return Shim(
                functools, {"lru_cache": self.rt.m_lru_cache, "cache": self.rt.m_cache}
            )
        return m

    def get_data(self, package, resource):
        if self.mine(package):
            with open(
                os.path.join(self.root, *package.split("."), resource), "rb"
            ) as fh:
                return fh.read()
        return pkgutil.get_data(package, resource)

    def import_module(self, name, package=None):
        name = core.concretize(name)
        if name.startswith("."):
            n = len(name) - len(name.lstrip("."))
            name = self._resolve(name[n:], core.concretize(package), n)
        if self.mine(name):
            return self.load(name)
        return importlib.import_module(name)
