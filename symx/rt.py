"""Run-time support called by the rewritten source (see rewrite.py)."""
import builtins
import collections
import functools
import importlib
import itertools
import operator
import pickle
import re
import types
import unicodedata

from . import core, strs, vfs
from .core import (
    MAXLIFT,
    MISSING,
    SB,
    SI,
    Cat,
    EngineExit,
    PathAbort,
    Raised,
    SpecAbort,
    Table,
    U,
    Unsupported,
    bits,
    concretize,
    mkcat,
    sb_all,
    sb_and,
    sb_any,
    sb_not,
    sb_of,
    sb_or,
    sym_eq,
)

SYM = (U, Cat, SI, SB)
ATOM = (str, int, float, bool, type(None), bytes, type, types.ModuleType)


def issym(x):
    return isinstance(x, SYM)


def deep_bases(x, out, depth=0):
    """Collect input variables inside a value.  Returns False when the value
    holds something that cannot be lifted pointwise."""
    t = type(x)
    if t in _ATOMS:
        return True
    if isinstance(x, U):
        out.add(x.base)
        return True
    if isinstance(x, Cat):
        ok = True
        for p in x.parts:
            if isinstance(p, U):
                out.add(p.base)
            elif not isinstance(p, str):
                ok = False
        if not ok:
            out.add(None)
        return True
    if isinstance(x, SB):
        out.add(x.base)
        return True
    if isinstance(x, SI):
        out.add(si_base(x))
        return True
    if t in (list, tuple, set, frozenset):
        if depth > 3:
            return True
        for e in x:
            deep_bases(e, out, depth + 1)
        return True
    if t is dict:
        if depth > 3:
            return True
        for e in x.values():
            if type(e) not in _ATOMS:
                deep_bases(e, out, depth + 1)
        return True
    if id(x) in core.CUR.tainted or hasattr(t, "symbolic_marker"):
        out.add(None)
    return True


def si_base(x):
    """The only input variable an integer depends on, or None."""
    b = None
    for k in x.terms:
        for a in k:
            if a.base is None or b is not None and a.base is not b:
                return None
            b = a.base
    return b


def si_flat(x, b):
    """An integer over one variable, as a table."""
    vals = [MISSING] * b.n
    for i in bits(core.CUR.masks[b]):
        n = 0
        for k, c in x.terms.items():
            for a in k:
                v = a.values[i]
                if v is None:
                    n = MISSING
                    break
                c *= v
            if n is MISSING:
                break
            n += c
        vals[i] = n
    return U(b, Table(vals))


_ATOMS = {str, int, float, bool, type(None), bytes, type, types.ModuleType, types.FunctionType}


# --------------------------------------------------------------------------
# operators


def not_(x):
    if isinstance(x, SYM):
        return sb_not(x)
    return not x


def bor(safe, a, fb):
    """`a or b` (fb evaluates b)."""
    if isinstance(a, (SB, U)):
        ta = sb_of(a)
        if ta is True:
            return a if not isinstance(a, SB) else True
        if ta is False:
            return fb()
        if isinstance(a, SB) and safe:
            b = as_bool(speculate(fb))
            if b is not MISSING and _mergeable(ta, b):
                return sb_or(ta, b)
        return a if bool(ta) else fb()
    return a if a else fb()


def band(safe, a, fb):
    if isinstance(a, (SB, U)):
        ta = sb_of(a)
        if ta is False:
            return a if not isinstance(a, SB) else False
        if ta is True:
            return fb()
        if isinstance(a, SB) and safe:
            b = as_bool(speculate(fb))
            if b is not MISSING and _mergeable(ta, b):
                return sb_and(ta, b)
        return fb() if bool(ta) else a
    return fb() if a else a


def as_bool(b):
    """A table of booleans as a condition."""
    if isinstance(b, U) and all(type(v) is bool for v, _ in b.feasible()):
        return sb_of(b)
    return b


def _mergeable(a, b):
    """Merge only conditions on one variable: no relational constraint."""
    if isinstance(b, bool):
        return True
    return isinstance(b, SB) and a.base is not None and a.base is b.base


def speculate(f):
    p = core.CUR
    p.speculating += 1
    try:
        return f()
    except (SpecAbort, Unsupported, PathAbort, Exception):
        return MISSING
    finally:
        p.speculating -= 1


def is_(a, b):
    if isinstance(a, U) or isinstance(b, U):
        if isinstance(b, U):
            a, b = b, a
        if isinstance(b, U):
            return sym_eq(a, b)
        if b is None or isinstance(b, bool):
            return a.where(lambda v: v is b)
        return sym_eq(a, b)
    if isinstance(a, SB) or isinstance(b, SB):
        if isinstance(b, SB):
            a, b = b, a
        if b is True:
            return sb_of(a)
        if b is False:
            return sb_not(a)
        if isinstance(b, SB):
            return sym_eq(a, b)
        return False
    return a is b


def eq(a, b):
    if isinstance(a, SYM) or isinstance(b, SYM):
        return sb_of(sym_eq(a, b))
    if isinstance(a, (list, tuple, dict)) and type(a) is type(b):
        if _has_sym(a) or _has_sym(b):
            return sb_of(sym_eq(a, b))
    return a == b


def ne(a, b):
    if isinstance(a, SYM) or isinstance(b, SYM) or (
        isinstance(a, (list, tuple, dict)) and type(a) is type(b)
    ):
        return sb_not(eq(a, b))
    return a != b


def slice_(a, b, c):
    return slice(a, b, c)


def is_not(a, b):
    return sb_not(is_(a, b))


def contains(c, x):
    """x in c"""
    if isinstance(c, U):
        if not issym(x):
            return c.where(lambda v: x in v)
        if isinstance(x, U) and x.base is c.base:
            return c._rel(x, lambda a, b: b in a, "in")
        if c.is_str():
            return sb_any(
                [
                    sb_and(SB(c.base, m), contains(v, x))
                    for v, m in c.feasible()
                ]
            )
        c = c.concrete()
    if isinstance(c, Cat):
        return strs.contains(c, x)
    if isinstance(c, SymMapping):
        return c.contains(x)
    if not issym(x):
        if isinstance(c, (list, tuple)) and any(issym(e) for e in c):
            return sb_any([sym_eq(e, x) for e in c])
        if isinstance(c, (list, tuple)) and any(
            isinstance(e, (list, tuple)) for e in c
        ):
            return sb_any([sym_eq(e, x) for e in c])
        return x in c
    # symbolic x
    if isinstance(c, str):
        if isinstance(x, U):
            return x.where(lambda v: v in c)
        # is the Cat a substring of the constant?
        subs = {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)}
        return sb_any([sym_eq(x, s) for s in sorted(subs)])
    if isinstance(c, (dict, set, frozenset, list, tuple)) or hasattr(c, "__iter__"):
        if isinstance(c, range):
            c = list(c)
        if isinstance(x, U):
            if isinstance(c, (dict, set, frozenset, types.MappingProxyType)) or (
                isinstance(c, type({}.keys()))
            ):
                m = 0
                try:
                    for v, mm in x.feasible():
                        if v in c:
                            m |= mm
                except TypeError:
                    raise
                return sb_of(SB(x.base, m))
            c = list(c)
            if not any(issym(e) for e in c):
                return x.where(lambda v: v in c)
            return sb_any([sym_eq(e, x) for e in c])
        if isinstance(x, (SI, SB)):
            return sb_any([sym_eq(e, x) for e in c])
        # Cat against many constants
        f = x.flat()
        if f is not None:
            return contains(c, f)
        return sb_any([sym_eq(x, e) for e in c])
    return x in c


def not_contains(c, x):
    return sb_not(contains(c, x))


def in_(x, c):
    return contains(c, x)


def not_in_(x, c):
    return sb_not(contains(c, x))


def lookup(d, k, default=MISSING):
    """d[k] / d.get(k, default) for a symbolic key."""
    if isinstance(k, Cat):
        f = k.flat()
        if f is not None:
            k = f
        else:
            # a constant key at a time
            for key in list(d):
                c = sym_eq(k, key)
                c = sb_of(c)
                if c is True or (c is not False and bool(c)):
                    return d[key]
            if default is MISSING:
                raise KeyError(k)
            return default
    if isinstance(k, (SI, SB)):
        k = concretize(k)
    if not isinstance(k, U):
        if default is MISSING:
            return d[k]
        return d.get(k, default)
    has = sb_of(contains(d, k))
    if has is not True:
        if has is False or not bool(has):
            if default is MISSING:
                k = k.concrete()
                return d[k]
            return default
    f = k.feasible()
    vals = [d[v] for v, _ in f]
    if any(issym(v) for v in vals):
        return d[k.concrete()]
    return k.map(lambda v: d[v])


def getitem(o, k):
    if isinstance(o, (U, Cat)):
        if isinstance(o, U) and not o.is_str():
            if not issym(k) and not strs._symslice(k):
                return o.map(lambda v: v[k])
            return getitem(o.concrete(), k)
        return strs.getitem(o, k)
    if isinstance(k, (U, Cat)):
        if isinstance(o, dict):
            if type(o).__missing__ if hasattr(type(o), "__missing__") else False:
                return o[concretize(k)]
            return lookup(o, k)
        if isinstance(k, U) and not any(
            issym(v) for v in (o if isinstance(o, (list, tuple)) else ())
        ):
            return k.map(lambda v: o[v])
        return o[concretize(k)]
    if isinstance(k, SI) and not isinstance(o, dict):
        return o[k.concrete()]
    if strs._symslice(k):
        if isinstance(o, str) and any(
            isinstance(e, strs.Pos) for e in (k.start, k.stop)
        ):
            pass
        k = slice(concretize(k.start), concretize(k.stop), concretize(k.step))
    return o[k]


def mod(a, b):
    """a % b"""
    if isinstance(a, str):
        bs = b if isinstance(b, tuple) else (b,)
        if any(issym(x) or type(x) is vfs.Doc for x in bs):
            return fmt_percent(a, bs)
    return a % b


def with_doc(parts):
    """The parts put together; one of them may be the text of a table."""
    if not any(type(p) is vfs.Doc for p in parts):
        return mkcat(parts)
    r = ""
    for p in parts:
        r = r + p
    return r


def fmt_percent(a, args):
    out = []
    args = list(args)
    i = 0
    for m in re.finditer(r"%(.)", a):
        out.append(a[i : m.start()])
        i = m.end()
        c = m.group(1)
        if c == "%":
            out.append("%")
        elif c in "sd":
            out.append(fstr_part(args.pop(0), -1, ""))
        else:
            raise Unsupported("format " + c)
    out.append(a[i:])
    return with_doc(out)


def fstr_part(v, conv, spec):
    if type(v) is vfs.Doc and conv in (-1, 115) and not spec:
        return v
    if issym(v):
        if spec not in ("", None) and not (spec == "d" and isinstance(v, SI)):
            v = concretize(v)
            return format(v, spec)
        if conv == 114:  # !r
            return repr(concretize(v))
        return strs.to_str(v)
    if isinstance(v, (list, tuple, dict)) and _has_sym(v):
        raise Unsupported("formatting a container of symbolic values")
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, concretize(spec) if spec else "")


def _has_sym(v):
    s = set()
    deep_bases(v, s)
    return bool(s)


def fstring(*parts):
    return with_doc([fstr_part(*p) if isinstance(p, tuple) else p for p in parts])


def join_gen(f, it):
    """f(it) = "".join(... for c in it ...), a homomorphism on strings."""
    if isinstance(it, Cat):
        it = it.simp()
    if not isinstance(it, (U, Cat)):
        return f(it)
    out = []
    for p in it.parts if isinstance(it, Cat) else [it]:
        if isinstance(p, str):
            r = speculate(lambda: f(p))
            if type(r) is not str:
                return f(it)
        elif isinstance(p, U) and p.is_str():
            ok = True

            def g(v):
                nonlocal ok
                r = f(v)
                if type(r) is not str:
                    ok = False
                    raise SpecAbort()
                return r

            r = speculate(lambda: p.map(g))
            if r is MISSING or not ok:
                return f(it)
        elif isinstance(p, core.IntStr) and all(
            speculate(lambda: f(d)) == d for d in "-0123456789"
        ):
            r = Cat([p])
        else:
            return f(it)
        out.append(r)
    return mkcat(out)


def setattr_(o, name, v):
    setattr(o, name, v)
    if _has_sym(v):
        core.CUR.tainted.add(id(o))
        core.CUR.keep.append(o)


class SymMapping:
    pass


# --------------------------------------------------------------------------
# methods


STR_STRUCT = {
    "lower",
    "upper",
    "casefold",
    "swapcase",
    "strip",
    "lstrip",
    "rstrip",
    "replace",
    "find",
    "index",
    "rfind",
    "startswith",
    "endswith",
    "split",
    "partition",
    "rpartition",
    "join",
    "count",
    "isspace",
    "isalpha",
    "isalnum",
    "isdigit",
    "isdecimal",
    "isnumeric",
    "isascii",
    "isprintable",
    "removesuffix",
    "removeprefix",
    "translate",
    "format",
    "encode",
    "splitlines",
    "title",
    "capitalize",
    "rsplit",
    "rindex",
    "isidentifier",
    "islower",
    "isupper",
    "istitle",
    "zfill",
    "ljust",
    "rjust",
    "center",
    "expandtabs",
    "format_map",
}


def bound(x, name):
    if name not in STR_STRUCT:
        if isinstance(x, U) and not x.is_str():
            # method of another type: pointwise
            return functools.partial(u_method, x, name)
        raise AttributeError(name)
    return functools.partial(str_method, x, name)


def u_method(x, name, *a, **k):
    if any(issym(e) for e in a) or any(issym(e) for e in k.values()):
        return getattr(x.concrete(), name)(*a, **k)
    return x.map(lambda v: getattr(v, name)(*a, **k))


def str_method(x, name, *a, **k):
    """Method of a symbolic string."""
    f = getattr(StrM, name, None)
    if isinstance(x, Cat):
        s = x.simp()
        if isinstance(s, str):
            return callm(s, name, *a, **k)
        x = s
    if isinstance(x, U) and not any(issym(e) or isinstance(e, strs.Pos) for e in a) and not k:
        if name == "format":
            return StrM.format(x, *a)
        if not any(_has_sym(e) for e in a if isinstance(e, (list, tuple, dict))):
            try:
                key = ("m", name) + a
                hash(key)
            except TypeError:
                key = None
            if name != "join":
                return x.map(lambda v: getattr(v, name)(*a), key)
    if f is None:
        v = x.concrete()
        return getattr(v, name)(*[concretize(e) for e in a], **k)
    return f(x, *a, **k)


class StrM:
    """Structured models for strings made of several parts."""

    def lower(x):
        return strs.casemap(x, "lower")

    def upper(x):
        return strs.casemap(x, "upper")

    def casefold(x):
        return strs.casemap(x, "casefold")

    def swapcase(x):
        return strs.casemap(x, "swapcase")

    def strip(x, chars=None):
        return strs.strip(x, concretize(chars))

    def lstrip(x, chars=None):
        return strs.strip(x, concretize(chars), right=False)

    def rstrip(x, chars=None):
        return strs.strip(x, concretize(chars), left=False)

    def replace(x, old, new, count=-1):
        return strs.replace(x, old, new, count)

    def find(x, s, *a):
        return strs.find(x, s, *a)

    def rfind(x, s, *a):
        return strs.rfind(x, s, *a)

    def index(x, s, *a):
        p = strs.find(x, s, *a)
        if isinstance(p, int) and p == -1:
            raise ValueError("substring not found")
        return p

    def startswith(x, s, *a):
        if a:
            return strs.startswith(getitem(x, slice(*a)), s)
        return strs.startswith(x, s)

    def endswith(x, s, *a):
        if a:
            raise Unsupported("endswith bounds")
        return strs.startswith(x, s, end=True)

    def split(x, sep=None, maxsplit=-1):
        maxsplit = concretize(maxsplit)
        if sep is None:
            x = strs.strip(x)
            if isinstance(x, str):
                return x.split(None, maxsplit)
            t = sb_of(x.truth())
            if t is not True and (t is False or not bool(t)):
                return []
            return strs.rx_split(re.compile(r"\s+"), x, 0 if maxsplit < 0 else maxsplit)
        return strs.split_const(x, concretize(sep), maxsplit)

    def partition(x, sep):
        r = strs.split_const(x, concretize(sep), 1)
        if len(r) == 1:
            return (r[0], "", "")
        return (r[0], sep, r[1])

    def rpartition(x, sep):
        sep = concretize(sep)
        x = x if isinstance(x, Cat) else Cat([x])
        p = strs.rfind(x, sep)
        if isinstance(p, int):
            return ("", "", x.simp())
        return (strs._slice(x, None, p), sep, strs._advance(x, p, len(sep)))

    def join(x, items):
        return strs.join(x, list(items))

    def count(x, s, *a):
        s = concretize(s)
        if len(s) == 1 and not a:
            n = 0
            for p in strs.parts_of(x):
                if isinstance(p, core.IntStr):
                    if s.isdigit():
                        raise Unsupported("count digits")
                    continue
                n = n + (p.count(s) if isinstance(p, str) else p.map(lambda v: v.count(s), ("m", "count", s)))
            return n
        return len(strs.split_const(x, s)) - 1

    def isspace(x):
        return strs.allchars(x, "isspace")

    def isalpha(x):
        return strs.allchars(x, "isalpha")

    def isalnum(x):
        return strs.allchars(x, "isalnum")

    def isdigit(x):
        return strs.allchars(x, "isdigit")

    def isdecimal(x):
        return strs.allchars(x, "isdecimal")

    def isnumeric(x):
        return strs.allchars(x, "isnumeric")

    def isascii(x):
        return sb_all(
            [
                p.isascii()
                if isinstance(p, str)
                else (True if isinstance(p, core.IntStr) else p.where(str.isascii))
                for p in strs.parts_of(x)
            ]
        )

    def removesuffix(x, s):
        s = concretize(s)
        c = sb_of(strs.startswith(x, s, end=True))
        if c is True or (c is not False and bool(c)):
            return strs.getitem(x, slice(None, -len(s))) if s else x
        return x

    def removeprefix(x, s):
        s = concretize(s)
        c = sb_of(strs.startswith(x, s))
        if c is True or (c is not False and bool(c)):
            return strs.getitem(x, slice(len(s), None)) if s else x
        return x

    def translate(x, table):
        out = []
        for p in strs.parts_of(x):
            if isinstance(p, core.IntStr):
                raise Unsupported("translate")
            out.append(
                p.translate(table)
                if isinstance(p, str)
                else p.map(lambda v: v.translate(table))
            )
        return mkcat(out)

    def format(x, *a, **k):
        raise Unsupported("format on symbolic template")


def callm(o, name, *a, **k):
    """o.name(*a, **k)"""
    if isinstance(o, (U, Cat)):
        if isinstance(o, U):
            s = o.simp()
            if not isinstance(s, U):
                return callm(s, name, *a, **k)
            if not o.is_str():
                return u_method(o, name, *a, **k)
        elif isinstance(o, Cat):
            o = o.simp()
            if isinstance(o, str):
                return callm(o, name, *a, **k)
        return str_method(o, name, *a, **k)
    t = type(o)
    if t is str:
        if name == "join":
            items = list(a[0])
            if any(type(e) is vfs.Doc for e in items):
                r = ""
                for i, e in enumerate(items):
                    r = r + (o if i else "") + e
                return r
            if any(issym(e) for e in items):
                return strs.join(o, items)
            return o.join(items)
        if name == "format":
            if any(issym(e) or type(e) is vfs.Doc for e in a) or any(issym(e) for e in k.values()):
                return format_model(o, a, k)
        elif any(issym(e) for e in a):
            if name in ("startswith", "endswith") and isinstance(a[0], U):
                return a[0].where(lambda v: getattr(o, name)(v))
            if len(a) == 1 and isinstance(a[0], U) and not k:
                return a[0].map(lambda v: getattr(o, name)(v))
            if name == "replace":
                if isinstance(a[0], str):
                    return strs.join(a[1], o.split(a[0])) if len(a) == 2 else getattr(o, name)(*[concretize(e) for e in a])
            return getattr(o, name)(*[concretize(e) for e in a], **k)
        return getattr(o, name)(*a, **k)
    if t is list or t is tuple or t is collections.deque:
        if name == "count":
            n = 0
            for e in o:
                c = sb_of(sym_eq(e, a[0]))
                if c is True:
                    n = n + 1
                elif c is not False:
                    n = n + c.asint()
            return n
        if name in ("index", "remove"):
            for i, e in enumerate(o):
                c = sb_of(sym_eq(e, a[0]))
                if c is True or (c is not False and bool(c)):
                    if name == "index":
                        return i
                    del o[i]
                    return None
            raise ValueError("not in list")
        return getattr(o, name)(*a, **k)
    if isinstance(o, dict):
        if name == "get" and a and issym(a[0]):
            return lookup(o, a[0], a[1] if len(a) > 1 else k.get("default"))
        if name in ("pop", "setdefault") and a and issym(a[0]):
            return getattr(o, name)(concretize(a[0]), *a[1:])
        if name == "update" and a and type(o) is dict:
            return o.update(s_dict(a[0]), **k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, (set, frozenset)):
        if name in ("add", "discard", "remove") and a and issym(a[0]):
            return getattr(o, name)(concretize(a[0]))
        if name in ("update", "union", "intersection", "difference", "difference_update", "intersection_update", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
            return getattr(o, name)(*[c if isinstance(c, (dict, set, frozenset, str)) else [key(e) for e in c] for c in a])
        return getattr(o, name)(*a, **k)
    if isinstance(o, re.Pattern):
        if name == "sub" and len(a) > 1 and type(a[1]) is vfs.Doc:
            return a[1]
        if a and issym(a[0]) or (name in ("sub", "subn") and len(a) > 1 and issym(a[1])):
            return rx_call(o, name, a, k)
        if name in ("sub",) and callable(a[0]):
            return o.sub(lambda m: concretize(a[0](m)), *a[1:], **k)
        return getattr(o, name)(*a, **k)
    return call(getattr(o, name), *a, **k)


def format_model(fmt, a, k):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported("format field " + field)
        out.append(fstr_part(v, ord(conv) if conv else -1, spec))
    return with_doc(out)


# --------------------------------------------------------------------------
# calls


def rx_call(rx, name, a, k):
    if isinstance(rx, U):
        rx = rx.concrete()
    if name == "split":
        return strs.rx_split(rx, a[0], k.get("maxsplit", a[1] if len(a) > 1 else 0))
    if name == "sub":
        return strs.rx_sub(rx, a[0], a[1], k.get("count", a[2] if len(a) > 2 else 0))
    if name == "findall":
        return strs.rx_findall(rx, a[0])
    if name == "finditer":
        return iter(strs.rx_finditer(rx, a[0]))
    if name in ("match", "search", "fullmatch"):
        x = a[0]
        if isinstance(x, U):
            # pointwise; keep the match objects per value
            c = x.where(lambda v: getattr(rx, name)(v) is not None)
            c = sb_of(c)
            if c is False or (c is not True and not bool(c)):
                return None
            return UMatch(x.map(lambda v: getattr(rx, name)(v)))
        return strs.rx_match(rx, x, name)
    if name == "subn":
        r = strs.rx_sub(rx, a[0], a[1])
        n = len(strs.rx_finditer(rx, a[1]))
        return r, n
    raise Unsupported("re." + name)


class UMatch:
    def __init__(self, u):
        self.u = u

    def __bool__(self):
        return True

    def __getattr__(self, n):
        return lambda *a: (
            self.u.map(lambda m: getattr(m, n)(*a))
            if isinstance(self.u, U)
            else getattr(self.u, n)(*a)
        )

    def __getitem__(self, g):
        return self.group(g)


def re_func(name):
    def f(pattern, *a, **k):
        flags = k.pop("flags", 0)
        pattern = concretize(pattern)
        syms = [x for x in a if issym(x)]
        npos = {"split": 1, "sub": 2, "subn": 2}.get(name, 1)
        a = list(a)
        if name in ("split",) and len(a) > 2:
            flags = a.pop()
        elif name in ("sub", "subn") and len(a) > 3:
            flags = a.pop()
        elif name not in ("split", "sub", "subn") and len(a) > 1:
            flags = a.pop()
        if name == "sub" and len(a) > 1 and type(a[1]) is vfs.Doc:
            return a[1]
        rx = re.compile(pattern, flags) if not isinstance(pattern, re.Pattern) else pattern
        return callm(rx, name, *a, **k)

    return f


def s_len(x):
    if isinstance(x, U):
        return x.map(len, ("len",))
    if isinstance(x, Cat):
        return strs.length(x)
    return len(x)


def s_str(*a, **k):
    if a and issym(a[0]):
        return strs.to_str(a[0])
    if a and isinstance(a[0], (list, tuple, dict, set)) and _has_sym(a[0]):
        raise Unsupported("str of container")
    return str(*a, **k)


def s_int(*a, **k):
    if a and issym(a[0]):
        return strs.to_int(*a)
    return int(*a, **k)


def s_bool(*a):
    if a and issym(a[0]):
        return sb_of(a[0])
    return bool(*a)


def s_isinstance(x, t):
    if isinstance(x, U):
        return x.where(lambda v: isinstance(v, t))
    if isinstance(x, Cat):
        return isinstance("", t)
    if isinstance(x, SI):
        return isinstance(0, t)
    if isinstance(x, SB):
        return isinstance(True, t)
    return isinstance(x, t)


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, U):
            t = x.map(type, ("type",))
            return t if not isinstance(t, U) else t.concrete()
        if isinstance(x, Cat):
            return str
        if isinstance(x, SI):
            return int
        if isinstance(x, SB):
            return bool
    return type(*a)


def s_any(it):
    for e in it:
        if isinstance(e, SYM):
            if bool(sb_of(e)):
                return True
        elif e:
            return True
    return False


def s_all(it):
    for e in it:
        if isinstance(e, SYM):
            if not bool(sb_of(e)):
                return False
        elif not e:
            return False
    return True


def s_sum(it, start=0):
    for e in it:
        start = start + e
    return start


def s_print(*a, **k):
    return None


def s_repr(x):
    if issym(x):
        return repr(concretize(x))
    return repr(x)


def s_ord(x):
    if isinstance(x, U):
        return x.map(ord, ("ord",))
    return ord(concretize(x))


def s_chr(x):
    if isinstance(x, U):
        return x.map(chr, ("chr",))
    return chr(concretize(x))


def s_hash(x):
    return hash(x)


def s_filter(f, it):
    if f is None:
        return iter([e for e in it if bool(sb_of(e))])
    return (e for e in it if bool(sb_of(call(f, e))))


def s_map(f, *its):
    return (call(f, *args) for args in zip(*its))


def s_sorted(it, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda e: call(key, e), reverse=reverse)


def s_max(*a, key=None, **k):
    if key is not None:
        k["key"] = lambda e: call(key, e)
    return max(*a, **k)


def s_min(*a, key=None, **k):
    if key is not None:
        k["key"] = lambda e: call(key, e)
    return min(*a, **k)


def s_reduce(f, it, *init):
    return functools.reduce(lambda a, b: call(f, a, b), it, *init)


def s_dict_fromkeys(it, v=None):
    return {concretize(e): v for e in it}


def key(k):
    """What goes into a table as a key is determined."""
    if issym(k):
        return concretize(k)
    if type(k) is tuple and any(issym(e) for e in k):
        return tuple(concretize(e) for e in k)
    return k


def s_dict(*a, **k):
    if a and not isinstance(a[0], dict) and not hasattr(a[0], "keys"):
        return dict([(key(p[0]), p[1]) for p in map(tuple, a[0])], **k)
    return dict(*a, **k)


def s_set(*a):
    return set([key(e) for e in a[0]]) if a else set()


def s_frozenset(*a):
    return frozenset([key(e) for e in a[0]]) if a else frozenset()


def s_normalize(form, x):
    if isinstance(x, (U, Cat)):
        return strs.normalize(form, x)
    return unicodedata.normalize(concretize(form), x)


def s_divmod(a, b):
    return a // b, a % b


def s_pow(a, b, *m):
    if m:
        return pow(concretize(a), concretize(b), *m)
    return a**b


def s_getattr(o, n, *d):
    return getattr(o, concretize(n), *d)


def s_import_module(name, package=None):
    name = concretize(name)
    return core.CUR.package.import_module(name, package)


def s_bool_iter(f):
    return f


MODELS = {
    dict: s_dict,
    set: s_set,
    frozenset: s_frozenset,
    len: s_len,
    str: s_str,
    int: s_int,
    bool: s_bool,
    isinstance: s_isinstance,
    type: s_type,
    any: s_any,
    all: s_all,
    sum: s_sum,
    print: s_print,
    repr: s_repr,
    ord: s_ord,
    chr: s_chr,
    filter: s_filter,
    map: s_map,
    sorted: s_sorted,
    max: s_max,
    min: s_min,
    functools.reduce: s_reduce,
    unicodedata.normalize: s_normalize,
    divmod: s_divmod,
    pow: s_pow,
    getattr: s_getattr,
    importlib.import_module: s_import_module,
    operator.contains: contains,
    operator.not_: not_,
    operator.itemgetter: None,
}
for _n in ("split", "sub", "subn", "findall", "finditer", "match", "search", "fullmatch"):
    MODELS[getattr(re, _n)] = re_func(_n)
MODELS = {k: v for k, v in MODELS.items() if v is not None}

# C functions that only store or iterate their arguments
PASS = {
    list,
    tuple,
    enumerate,
    zip,
    reversed,
    iter,
    next,
    range,
    itertools.chain,
    itertools.islice,
    itertools.count,
    itertools.repeat,
    itertools.product,
    itertools.takewhile,
    itertools.dropwhile,
    itertools.zip_longest,
    itertools.chain.from_iterable,
    collections.deque,
    functools.partial,
    id,
    setattr,
    hasattr,
    callable,
    super,
    dict,
    set,
    frozenset,
    object,
}

_STR_DESC = {getattr(str, n): n for n in STR_STRUCT if hasattr(str, n)}


def call(f, *a, **k):
    if type(f) in (types.FunctionType, types.MethodType):
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        g = f.__globals__ if type(f) is types.FunctionType else f.__func__.__globals__ if isinstance(f.__func__, types.FunctionType) else None
        if (
            g is None
            or "__symx_pkg__" in g
            or str(g.get("__name__", "")).startswith("symx")
        ):
            return f(*a, **k)
        # library code written in Python
        if any(issym(e) for e in a) or any(issym(e) for e in k.values()):
            return call_c(f, a, k)
        return f(*a, **k)
    if isinstance(f, functools.partial) and f.func not in (str_method, u_method):
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    n = None
    try:
        n = _STR_DESC.get(f)
    except TypeError:
        pass
    if n is not None:
        return callm(a[0], n, *a[1:], **k)
    if isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType, types.BuiltinMethodType)):
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType) and type(s) in (
            str,
            list,
            tuple,
            dict,
            set,
            frozenset,
            re.Pattern,
        ):
            return callm(s, f.__name__, *a, **k)
        if f == dict.fromkeys:
            return s_dict_fromkeys(*a, **k)
        if f not in PASS:
            if any(issym(e) for e in a) or any(issym(e) for e in k.values()):
                return call_c(f, a, k)
    elif isinstance(f, type) and f not in PASS and f.__module__ in ("builtins",):
        if any(issym(e) for e in a):
            if issubclass(f, BaseException):
                return f(*a, **k)
            return call_c(f, a, k)
    return f(*a, **k)


def call_c(f, a, k):
    """A C function with symbolic arguments: pointwise, else concretised."""
    if k:
        return f(*[concretize(e) for e in a], **{n: concretize(v) for n, v in k.items()})
    bs = set()
    for e in a:
        deep_bases(e, bs)
    if len(bs) == 1 and None not in bs:
        sy = [i for i, e in enumerate(a) if issym(e)]
        if len(sy) == 1:
            u = a[sy[0]]
            if isinstance(u, Cat):
                u = u.flat()
            if isinstance(u, U):
                i = sy[0]
                key = None
                try:
                    key = ("c", f, i) + a[:i] + a[i + 1 :]
                    hash(key)
                except TypeError:
                    key = None
                return u.map(lambda v: f(*a[:i], v, *a[i + 1 :]), key)
    return f(*[concretize(e) for e in a])


# --------------------------------------------------------------------------
# functions of the code under test


class FnInfo:
    __slots__ = ("key", "pure", "native", "name", "memo")


def wrap(fn, info, native):
    """Wrapper of a rewritten function.

    * all arguments concrete: the untouched code object runs;
    * pure function of one input variable: the untouched code object is
      evaluated once per value of that variable (a table of the function);
    * otherwise the rewritten body runs symbolically.
    """

    memo = info.memo

    @functools.wraps(fn)
    def w(*a, **k):
        if memo is not None and not k:
            for e in a:
                if type(e) is not str:
                    break
            else:
                r = memo.get(a, MISSING)
                if r is not MISSING:
                    return r
                r = native(*a)
                if type(r) in (str, int, bool, type(None)) and len(memo) < 200000:
                    memo[a] = r
                return r
        p = core.CUR
        bs = set()
        for e in a:
            if type(e) not in _ATOMS:
                deep_bases(e, bs)
        for e in k.values():
            if type(e) not in _ATOMS:
                deep_bases(e, bs)
        if not bs:
            if native is not None and info.pure == 2:
                return native(*a, **k)
            return fn(*a, **k)
        p.stats.functions.add(info.key)
        if native is not None and info.pure and len(bs) == 1 and not k:
            (b,) = bs
            if b is not None and (p.masks[b].bit_count() <= MAXLIFT):
                r = lift(native, a, b, info)
                if r is not MISSING:
                    return r
        return fn(*a, **k)

    w.__symx__ = info
    return w


def _fingerprint(args, skip, glob):
    """Content of the concrete arguments (and plain module globals)."""
    out = []
    for i, e in enumerate(args):
        if i in skip:
            continue
        if type(e) not in _PLAIN:
            e = (type(e).__qualname__, vars(e), {k: v for k, v in vars(type(e)).items() if type(v) in _PLAIN})
        out.append(e)
    g = [(k, v) for k, v in glob.items() if type(v) in (list, set, dict, tuple) and k != "__builtins__" and k != "__path__"]
    return pickle.dumps((out, g), 4)


_LIFTED = {}
_PLAIN = {str, int, bool, type(None), float, list, tuple, dict, set, frozenset}


def lift(native, a, b, info):
    args = []
    for e in a:
        if isinstance(e, Cat):
            e = e.flat()
            if e is None:
                return MISSING
        elif isinstance(e, SI):
            e = si_flat(e, b)
        elif isinstance(e, SB):
            return MISSING
        elif isinstance(e, (list, tuple, dict, set)) and _has_sym(e):
            return MISSING
        args.append(e)
    us = [i for i, e in enumerate(args) if isinstance(e, U)]
    if not us:
        return MISSING
    key = None
    if all(args[i].table.persist for i in us):
        key = (info.key, tuple((i, id(args[i].table)) for i in us))
        try:
            key += (_fingerprint(args, us, native.__globals__),)
        except Exception:
            key = None
    if key is not None:
        t = _LIFTED.get(key)
        if t is not None:
            return t if t is MISSING else U(b, t).settle()
    c = core.CUR.masks[b] if key is None else b.full
    if c.bit_count() > MAXLIFT:
        return MISSING
    vals = [MISSING] * b.n
    cache = {}
    bad = False
    for i in bits(c):
        cur = list(args)
        skip = False
        for j in us:
            v = args[j].table.values[i]
            if v is MISSING or isinstance(v, Raised):
                skip = True
                break
            cur[j] = v
        if skip:
            continue
        k = tuple(core._key(cur[j]) for j in us)
        if k in cache:
            vals[i] = cache[k]
            continue
        try:
            r = native(*cur)
        except Exception as e:
            r = Raised(e)
        else:
            if type(r) not in (str, int, bool, type(None)):
                bad = True
                break
        cache[k] = r
        vals[i] = r
    t = MISSING if bad else Table(vals, args[us[0]].table.root, persist=key is not None)
    if key is not None:
        if len(_LIFTED) > 3000:
            _LIFTED.clear()
        _LIFTED[key] = t
        # the ids in the key stay valid while the tables live
        _KEEP.extend(args[i].table for i in us)
    if bad:
        return MISSING
    return U(b, t).settle()


_KEEP = []


class Lock:
    """threading.Lock and RLock.  A call that waits for a lock of the call it
    interrupts cannot finish within it: no such schedule."""

    again = False

    def __init__(self):
        self.n, self.owner = 0, None

    def acquire(self, blocking=True, timeout=-1):
        if self.n and not (self.again and self.owner == core.CUR.who):
            if not blocking or timeout >= 0:
                return False
            if core.CUR.who != self.owner:
                raise core.PathAbort()
            raise core.Hang()
        self.n += 1
        self.owner = core.CUR.who
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        self.n -= 1

    def locked(self):
        return self.n > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    again = True


def tick(first, last):
    r = core.CUR.race
    if r is not None:
        r(first, last)


def fn(modname, qualname, lineno, pure, glob):
    """Decorator put on every module-level function and method."""
    pkg = glob["__symx_pkg__"]

    def deco(f):
        code = pkg.native_code(modname, qualname, lineno)
        native = None
        if code is not None and not code.co_freevars:
            native = types.FunctionType(code, glob, f.__name__, f.__defaults__)
            native.__kwdefaults__ = f.__kwdefaults__
        info = FnInfo()
        info.key = modname + "." + qualname
        info.pure = pure
        info.name = f.__name__
        info.native = native
        info.memo = None
        if pure == 2 and native is not None and not f.__defaults__:
            info.memo = pkg.memos.setdefault((modname, qualname, lineno), {})
        return wrap(f, info, native)

    return deco


def _skey(x, keep):
    """A key that equal symbolic values built the same way share."""
    t = type(x)
    if t in _ATOMS:
        return (t, x)
    keep.append(x)
    if t is U:
        return (U, id(x.base), id(x.table))
    if t is Cat:
        return (Cat,) + tuple(_skey(p, keep) for p in x.parts)
    if t is tuple:
        return (tuple,) + tuple(_skey(p, keep) for p in x)
    return (t, id(x))


def m_lru_cache(maxsize=128, typed=False):
    """functools.lru_cache / cache: a real cache for concrete arguments.  For
    symbolic arguments a call with the same expressions gives the object that
    the first such call gave; other calls compute."""

    def deco(f):
        real = functools.lru_cache(None if maxsize is None else maxsize, typed)(f)
        seen = {}
        keep = []

        @functools.wraps(f)
        def w(*a, **k):
            bs = set()
            for e in list(a) + list(k.values()):
                deep_bases(e, bs)
            if bs:
                for e in list(a) + list(k.values()):
                    if type(e) in (list, dict, set):
                        raise TypeError("unhashable type: %r" % type(e).__name__)
                key = (_skey(a, keep), tuple((n, _skey(e, keep)) for n, e in k.items()))
                r = seen.get(key, MISSING)
                if r is MISSING:
                    r = seen[key] = f(*a, **k)
                return r
            return real(*a, **k)

        w.cache_clear = lambda: (real.cache_clear(), seen.clear())
        w.cache_info = real.cache_info
        return w

    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def m_cache(f):
    return m_lru_cache(None)(f)
