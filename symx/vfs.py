"""Files of the table generator, held in memory.

The generator reads and writes files below its own directory.  It is executed
with `open`, `os` and `json` of this module: reads come from what a harness
supplies (with symbolic contents, if it likes) or from the real rule files,
writes are recorded.  Nothing the generator does reaches the file system.
"""
import io
import json
import os
import types

from .core import SB, SI, Cat, U, Unsupported, concretize

SYM = (U, Cat, SI, SB)

TOP = "/symx"
WRITES = set("wax+")


class Doc:
    """The text json.dumps makes of an object with symbolic parts."""

    def __init__(self, obj, before="", after=""):
        self.obj, self.before, self.after = obj, before, after

    def __add__(self, s):
        return Doc(self.obj, self.before, self.after + s)

    def __radd__(self, s):
        return Doc(self.obj, s + self.before, self.after)

    def replace(self, *a):
        return self

    def sub(self, *a):
        return self

    def __str__(self):
        raise Unsupported("text of a symbolic table")

    __format__ = __repr__ = __iter__ = __len__ = __getitem__ = __contains__ = __str__

    def __getattr__(self, n):
        raise Unsupported("text of a symbolic table: " + n)


def has_sym(o):
    if isinstance(o, dict):
        return any(has_sym(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(has_sym(v) for v in o)
    return isinstance(o, SYM)


def copy(o):
    """A copy; what is determined by now becomes concrete."""
    if isinstance(o, dict):
        return {concretize(k): copy(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [copy(v) for v in o]
    if isinstance(o, (U, Cat)):
        return o.simp()
    return o


class ObjReader:
    """An open file whose text has symbolic parts."""

    def __init__(self, obj):
        self.obj = obj

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self, *a):
        return Doc(self.obj)

    def __getattr__(self, n):
        raise Unsupported("reading a symbolic file: " + n)


class Writer:
    def __init__(self, fs, path):
        self.fs, self.path, self.parts, self.closed = fs, path, [], False
        fs.out[path] = self

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.parts.append(s)
        return len(s) if isinstance(s, str) else 0

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def info(self):
        ps = [p for p in self.parts if not (isinstance(p, str) and not p)]
        docs = [p for p in ps if isinstance(p, Doc)]
        if docs:
            pre = "".join(
                p if isinstance(p, str) else p.before if len(docs) == 1 else "?" for p in ps[: ps.index(docs[0]) + 1]
            )
            if len(docs) != 1 or pre.split() != ["info", "="]:
                raise Unsupported("text of a symbolic table")
            return docs[0].obj
        text = "".join(concretize(p) for p in ps)
        ns = {}
        try:
            exec(compile(text, self.path, "exec"), ns)
        except Exception as e:
            return "not a module: %s" % type(e).__name__
        return ns.get("info", "no info")


class VFS:
    def __init__(self, root):
        self.root = root
        # the generator may be started anywhere
        self.cwd = TOP + "/some/where"
        self.files = {}  # path -> object or text
        self.lists = {}  # path -> names
        self.out = {}
        self.real = True

    def path(self, p):
        p = concretize(p)
        if not isinstance(p, (str, os.PathLike)):
            if isinstance(p, (int, bytes)):
                raise Unsupported("path %r" % (p,))
            raise TypeError("expected str, bytes or os.PathLike object, not " + type(p).__name__)
        p = os.path.normpath(os.path.join(self.cwd, os.fspath(p)))
        if p != TOP and not p.startswith(TOP + "/"):
            raise Unsupported("path outside the package: " + p)
        return p

    def host(self, p):
        return self.root + p[len(TOP) :]

    def exists(self, p):
        p = self.path(p)
        return p in self.files or p in self.lists or p in self.out or (self.real and os.path.exists(self.host(p)))

    def isdir(self, p):
        p = self.path(p)
        return p in self.lists or (p not in self.files and os.path.isdir(self.host(p)))

    def isfile(self, p):
        return self.exists(p) and not self.isdir(p)

    def listdir(self, p="."):
        p = self.path(p)
        if p in self.lists:
            return list(self.lists[p])
        return sorted(os.listdir(self.host(p)))

    def chdir(self, p):
        self.cwd = self.path(p)

    def open(self, p, mode="r", *a, **k):
        p = self.path(p)
        mode = concretize(mode)
        if len(set(mode)) != len(mode) or set(mode) - set("rwxabt+") or len(set(mode) & set("rwxa")) != 1 or {"b", "t"} <= set(mode):
            raise ValueError("invalid mode: %r" % mode)
        if WRITES & set(mode):
            if "b" in mode or "a" in mode or "r" in mode:
                raise Unsupported("file mode " + mode)
            return Writer(self, p)
        if "b" in mode:
            raise Unsupported("file mode " + mode)
        if p in self.files:
            o = copy(self.files[p])
            if has_sym(o):
                return ObjReader(o)
            return io.StringIO(o if isinstance(o, str) else json.dumps(o, ensure_ascii=False))
        if not self.real or not os.path.isfile(self.host(p)):
            raise FileNotFoundError(2, "No such file or directory", p)
        with open(self.host(p), encoding="utf-8", newline=k.get("newline")) as f:
            return io.StringIO(f.read())


def j_loads(s, **k):
    if isinstance(s, Doc):
        return copy(s.obj)
    return json.loads(concretize(s), **k)


def j_load(f, **k):
    if isinstance(f, ObjReader):
        return copy(f.obj)
    return json.load(f, **k)


def j_dumps(o, **k):
    o = copy(o)
    if has_sym(o):
        return Doc(o)
    return json.dumps(o, **k)


def j_dump(o, f, **k):
    f.write(j_dumps(o, **k))


def shims(fs, Shim, symbolic):
    import builtins
    import logging

    def no(name):
        def f(*a, **k):
            raise Unsupported("os." + name)

        return f

    opath = Shim(os.path, {"exists": fs.exists, "isfile": fs.isfile, "isdir": fs.isdir})
    repl = {
        n: no(n)
        for n in ("remove", "unlink", "rename", "replace", "rmdir", "removedirs", "open", "fdopen", "walk", "scandir", "stat", "system", "popen", "symlink", "link", "truncate", "renames")
        if hasattr(os, n)
    }
    repl.update(
        path=opath,
        listdir=fs.listdir,
        chdir=fs.chdir,
        getcwd=lambda: fs.cwd,
        makedirs=lambda *a, **k: None,
        mkdir=lambda *a, **k: None,
    )
    out = {
        "os": Shim(os, repl),
        "os.path": opath,
        "logging": Shim(
            logging,
            {n: (lambda *a, **k: None) for n in ("debug", "info", "warning", "error", "exception", "critical", "log")},
        ),
    }
    if symbolic:
        out["json"] = Shim(json, {"load": j_load, "loads": j_loads, "dump": j_dump, "dumps": j_dumps})
    for n in ("pathlib", "glob", "io", "shutil", "codecs", "tempfile", "subprocess", "fileinput"):
        out[n] = None
    return out
