"""Operations on symbolic strings (`U` with string values and `Cat`)."""
import itertools
import re
import unicodedata

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from . import core
from .core import (
    MISSING,
    SB,
    SI,
    Cat,
    IntStr,
    Raised,
    Table,
    U,
    Unsupported,
    bits,
    concretize,
    match_const,
    mkcat,
    sb_all,
    sb_and,
    sb_any,
    sb_not,
    sb_of,
    sb_or,
)


def parts_of(x):
    if isinstance(x, Cat):
        return list(x.parts)
    if isinstance(x, str):
        return [x] if x else []
    return [x]


def issym(x):
    return isinstance(x, (U, Cat))


# -- length, iteration, slicing


def part_len(p):
    if isinstance(p, str):
        return len(p)
    if isinstance(p, U):
        return p.map(len, ("len",))
    # decimal length of an integer: fork
    n = 1
    while True:
        if p.si < 10**n:
            return n
        n += 1


def length(x):
    n = 0
    for p in parts_of(x):
        n = n + part_len(p)
    return n


def iterate(x):
    for p in parts_of(x):
        if isinstance(p, IntStr):
            p = str(p.si.concrete())
        yield from p


def getitem(x, k):
    if isinstance(x, U):
        if isinstance(k, (int, slice)) and not _symslice(k):
            kk = ("s", k.start, k.stop, k.step) if isinstance(k, slice) else ("i", k)
            return x.map(lambda v: v[k], ("[]",) + kk)
        if isinstance(k, U) and k.base is x.base:
            return x._bin(k, lambda a, b: a[b], "[]")
    if isinstance(k, slice):
        if k.step not in (None, 1):
            return x.concrete()[k]
        return _slice(x, k.start, k.stop)
    if isinstance(k, Pos):
        return getitem(_slice(x, k, None), 0)
    k = concretize(k)
    ps = parts_of(x)
    if k >= 0:
        for p in ps:
            if isinstance(p, IntStr):
                p = str(p.si.concrete())
            if isinstance(p, str):
                if k < len(p):
                    return p[k]
                k -= len(p)
            else:
                n = core.CUR.fork_groups(p, len)
                if k < n:
                    return getitem(p, k)
                k -= n
        raise IndexError("string index out of range")
    for p in reversed(ps):
        if isinstance(p, IntStr):
            p = str(p.si.concrete())
        if isinstance(p, str):
            if -k <= len(p):
                return p[k]
            k += len(p)
        else:
            m = p.where(lambda v: len(v) >= -k)
            if m is True:
                return getitem(p, k)
            n = core.CUR.fork_groups(p, len)
            if -k <= n:
                return getitem(p, k)
            k += n
    raise IndexError("string index out of range")


def _symslice(k):
    return isinstance(k, slice) and any(
        isinstance(e, (SI, U, Pos)) for e in (k.start, k.stop, k.step)
    )


def _fixed_len(p):
    """Length of a part when it is the same for all its values."""
    if isinstance(p, str):
        return len(p)
    if isinstance(p, U):
        n = {len(v) for v, _ in p.feasible() if isinstance(v, str)}
        if len(n) == 1:
            return n.pop()
    return None


class Pos(SI):
    """Index into a Cat known as (part number, offset); behaves like an int."""

    __slots__ = ("cat", "pi", "off", "_n")

    def __init__(self, cat, pi, off):
        self.cat = cat
        self.pi = pi
        self.off = off
        self._n = None

    def _int(self):
        if self._n is None:
            n = self.off
            for p in self.cat.parts[: self.pi]:
                n = n + part_len(p)
            self._n = n
        return self._n

    def norm_self(self):
        return core.as_poly(self._int())

    @property
    def terms(self):
        n = self.norm_self()
        return {(): n} if isinstance(n, int) else n.terms

    @property
    def lo(self):
        n = self.norm_self()
        return n if isinstance(n, int) else n.lo

    @property
    def hi(self):
        n = self.norm_self()
        return n if isinstance(n, int) else n.hi

    def _move(self, d):
        """Move by a concrete distance through concrete text."""
        pi, off = self.pi, self.off + d
        ps = self.cat.parts
        while True:
            if off < 0:
                pi -= 1
                if pi < 0:
                    return None
                n = _fixed_len(ps[pi])
                if n is None:
                    return None
                off += n
                continue
            if off == 0:
                return Pos(self.cat, pi, 0)
            if pi >= len(ps):
                return None
            n = _fixed_len(ps[pi])
            if n is None:
                return None
            if off < n:
                return Pos(self.cat, pi, off)
            off -= n
            pi += 1

    def __add__(self, o):
        if isinstance(o, int):
            r = self._move(o)
            if r is not None:
                return r
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            r = self._move(-o)
            if r is not None:
                return r
        return self._int() - o

    def _cmp(self, o, op):
        if isinstance(o, int) and o < 0:
            return False
        n = self._int()
        if isinstance(n, int):
            return {"<": n < o, "<=": n <= o, "==": n == o}[op]
        if isinstance(n, U):
            n = n.as_si()
            if isinstance(n, int):
                return {"<": n < o, "<=": n <= o, "==": n == o}[op]
        return SI._cmp(n, o, op)

    def concrete(self):
        return concretize(self._int())

    __hash__ = SI.__hash__


def _slice(x, start, stop):
    for k in (start, stop):
        if type(k) is Pos and type(k.cat) is SplitCat:
            o = parts_of(x)
            if len(o) == len(k.cat.orig) and all(_part_same(p, q) for p, q in zip(o, k.cat.orig)):
                x = k.cat
                break
    if type(x) is Cat:
        x = mkcat(x.parts)
    cat = x if isinstance(x, Cat) else Cat([x])
    a = _loc(cat, start, 0)
    b = _loc(cat, stop, None)
    ps = cat.parts
    (ai, ao), (bi, bo) = a, b
    if (ai, ao) >= (bi, bo):
        return ""
    out = []
    for i in range(ai, min(bi + 1, len(ps))):
        p = ps[i]
        lo = ao if i == ai else 0
        hi = bo if i == bi else None
        if lo == 0 and hi is None:
            out.append(p)
        elif hi == 0 and lo == 0:
            continue
        elif isinstance(p, IntStr):
            out.append(str(p.si.concrete())[lo:hi])
        else:
            out.append(p[lo:hi] if isinstance(p, str) else getitem(p, slice(lo, hi)))
    return mkcat(out)


def _part_same(a, b):
    if a is b:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, U) and isinstance(b, U):
        return a.base is b.base and (
            a.table is b.table or a.table.values == b.table.values
        )
    return False


def _relocate(cat, k):
    """The position k in another rendering of the text it was found in."""
    out = []
    for p in k.cat.parts[: k.pi]:
        core._push(out, p)
    tail = None
    if k.off:
        p = k.cat.parts[k.pi] if k.pi < len(k.cat.parts) else None
        if isinstance(p, U):
            p = p.simp()
        if isinstance(p, str):
            core._push(out, p[: k.off])
        else:
            tail = p
    ps = cat.parts
    n = len(out)
    for i, p in enumerate(out):
        if i >= len(ps):
            return None
        if i == n - 1 and isinstance(p, str) and tail is None:
            q = ps[i]
            if not isinstance(q, str) or not q.startswith(p):
                return None
            return (i + 1, 0) if len(p) == len(q) else (i, len(p))
        if not _part_same(p, ps[i]):
            return None
    if tail is not None:
        if n < len(ps) and _part_same(tail, ps[n]):
            return (n, k.off)
        return None
    return (n, 0)


def _loc(cat, k, default):
    """-> (part, offset) of an index."""
    ps = cat.parts
    if k is None:
        return (0, 0) if default == 0 else (len(ps), 0)
    if isinstance(k, Pos):
        if k.cat is cat:
            return (k.pi, k.off)
        r = _relocate(cat, k)
        if r is not None:
            return r
    k = concretize(k)
    if k >= 0:
        i = 0
        while i < len(ps):
            p = ps[i]
            if k == 0:
                return (i, 0)
            if isinstance(p, str):
                n = len(p)
            elif isinstance(p, U):
                n = core.CUR.fork_groups(p, len)
            else:
                n = concretize(part_len(p))
            if k < n:
                return (i, k)
            k -= n
            i += 1
        return (len(ps), 0)
    i = len(ps)
    k = -k
    while i > 0:
        if k == 0:
            return (i, 0)
        p = ps[i - 1]
        if isinstance(p, str):
            n = len(p)
        elif isinstance(p, U):
            n = core.CUR.fork_groups(p, len)
        else:
            n = concretize(part_len(p))
        if k <= n:
            return (i - 1, n - k)
        k -= n
        i -= 1
    return (0, 0)


# -- case and normal forms


def _chars_feasible(ps, chars):
    for p in ps:
        if isinstance(p, str):
            if any(c in p for c in chars):
                return True
        elif isinstance(p, U):
            if p.where(lambda v: any(c in v for c in chars)) is not False:
                return True
    return False


def casemap(x, name):
    ps = parts_of(x)
    if len(ps) > 1 and name == "lower" and _chars_feasible(ps, "Σ"):
        # final sigma depends on the context
        for p in ps:
            if isinstance(p, U):
                c = p.where(lambda v: "Σ" in v)
                if c is not False and (c is True or bool(c)):
                    raise Unsupported("final sigma")
        if _chars_feasible(ps, "Σ"):
            raise Unsupported("final sigma")
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(getattr(p, name)())
        elif isinstance(p, U):
            out.append(p.map(lambda v: getattr(v, name)(), (name,)))
        else:
            out.append(p)
    return mkcat(out)


def normalize(form, x):
    form = concretize(form)
    if isinstance(x, str):
        return unicodedata.normalize(form, x)
    if isinstance(x, U):
        return x.map(lambda v: unicodedata.normalize(form, v), ("norm", form))
    ps = parts_of(x)

    def nf(v):
        return unicodedata.normalize(form, v)

    def endsmark(v):
        v = nf(v)
        return bool(v) and unicodedata.combining(v[-1]) != 0

    def startsmark(v):
        v = nf(v)
        return bool(v) and (
            unicodedata.combining(v[0]) != 0
            or 0x1160 <= ord(v[0]) <= 0x11FF  # Hangul medial/final letters
        )

    # NFC/NFKC compose across a boundary when the right side starts with a
    # mark; NFD/NFKD reorder when both sides are marks.
    for i in range(1, len(ps)):
        a, b = ps[i - 1], ps[i]
        cb = _partpred(b, startsmark, ("sm", form))
        if cb is False:
            continue
        ca = True if form in ("NFC", "NFKC") else _partpred(a, endsmark, ("em", form))
        c = sb_and(ca, cb)
        if c is False:
            continue
        if c is True or bool(c):
            raise Unsupported("normalisation across a boundary")
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(nf(p))
        elif isinstance(p, U):
            out.append(p.map(nf, ("norm", form)))
        else:
            out.append(p)
    return mkcat(out)


def _partpred(p, pred, key):
    if isinstance(p, str):
        return pred(p)
    if isinstance(p, IntStr):
        return False
    u = p.map(pred, ("pred",) + key)
    return u if isinstance(u, bool) else u.where(bool)


# -- predicates


def allchars(x, name):
    """str.isspace & co: all characters satisfy it and there is at least one."""
    ps = parts_of(x)
    conds = []
    nonempty = []
    for p in ps:
        if isinstance(p, str):
            if not getattr(p, name)():
                return False
            nonempty.append(True)
        elif isinstance(p, U):
            u = p.map(lambda v: v == "" or getattr(v, name)(), ("allc", name))
            conds.append(sb_of(u))
            nonempty.append(p.truth())
        else:
            if name == "isspace" or name == "isalpha":
                return False
            nonempty.append(True)
    return sb_and(sb_all(conds), sb_any(nonempty))


# -- strip


def strip(x, chars=None, left=True, right=True):
    if isinstance(x, U):
        n = "strip" if left and right else ("lstrip" if left else "rstrip")
        return x.map(lambda v: getattr(v, n)(chars), (n, chars))
    ps = parts_of(x)
    if left:
        while ps:
            p = ps[0]
            if isinstance(p, IntStr):
                if chars:
                    raise Unsupported("strip digits")
                break
            q = _strip1(p, "lstrip", chars)
            if q is p:
                break
            if isinstance(q, str) and q == "":
                del ps[0]
                continue
            ps[0] = q
            break
    if right:
        while ps:
            p = ps[-1]
            if isinstance(p, IntStr):
                if chars:
                    raise Unsupported("strip digits")
                break
            q = _strip1(p, "rstrip", chars)
            if q is p:
                break
            if isinstance(q, str) and q == "":
                del ps[-1]
                continue
            ps[-1] = q
            break
    return mkcat(ps)


def _strip1(p, name, chars):
    if isinstance(p, str):
        q = getattr(p, name)(chars)
        return p if q == p else q
    # union: fork on "vanishes completely / unchanged / changed"
    def kind(v):
        w = getattr(v, name)(chars)
        return 0 if w == "" else (1 if w == v else 2)

    k = core.CUR.fork_groups(p, kind)
    if k == 0:
        return ""
    if k == 1:
        return p
    return p.map(lambda v: getattr(v, name)(chars), (name, chars))


# -- searching


def occurrences(ps, s, first_only=True):
    """Occurrences of the constant s in the concatenation ps.

    Yields (part, offset, condition); an occurrence that starts at an offset
    inside a union is reported per offset.
    """
    n = len(s)
    for i, p in enumerate(ps):
        if isinstance(p, str):
            offs = range(len(p))
            for o in offs:
                rest = p[o:]
                if len(rest) >= n:
                    if rest.startswith(s):
                        yield i, o, True
                elif s.startswith(rest):
                    c = match_const(ps[i + 1 :], s[len(rest) :], prefix=True)
                    if c is not False:
                        yield i, o, c
        elif isinstance(p, U):
            f = p.feasible()
            byoff = {}
            for v, m in f:
                for o in range(len(v)):
                    rest = v[o : o + n]
                    if len(rest) == n:
                        if rest == s:
                            byoff.setdefault(o, {}).setdefault("", 0)
                            byoff[o][""] |= m
                    elif s.startswith(rest):
                        byoff.setdefault(o, {}).setdefault(s[len(rest) :], 0)
                        byoff[o][s[len(rest) :]] |= m
            for o in sorted(byoff):
                alts = []
                for rem, m in byoff[o].items():
                    c = SB(p.base, m)
                    if rem:
                        t = match_const(ps[i + 1 :], rem, prefix=True)
                        if t is False:
                            continue
                        c = sb_and(c, t)
                    alts.append(c)
                c = sb_any(alts)
                if c is not False:
                    yield i, o, c
        else:
            if s[0].isdigit():
                raise Unsupported("search for digits in a rendered integer")


def contains(x, s):
    s = s if isinstance(s, str) else concretize(s)
    if s == "":
        return True
    if isinstance(x, U):
        return x.where(lambda v: s in v)
    return sb_any([c for _, _, c in occurrences(parts_of(x), s)])


def find(x, s, *a):
    s = concretize(s)
    if isinstance(x, U) and not any(core_issym(y) for y in a):
        return x.map(lambda v: v.find(s, *a), ("find", s) + a)
    if a:
        raise Unsupported("find with bounds")
    if s == "":
        return 0
    x = x if isinstance(x, Cat) else Cat([x])
    # leftmost first; offsets of one union are ordered, parts are ordered
    for i, o, c in list(occurrences(x.parts, s)):
        c = sb_of(c)
        if c is True or (c is not False and bool(c)):
            # an offset into a union part is valid for all its values
            return Pos(x, i, o)
    return -1


def rfind(x, s, *a):
    s = concretize(s)
    if isinstance(x, U) and not any(core_issym(y) for y in a):
        return x.map(lambda v: v.rfind(s, *a), ("rfind", s) + a)
    if a:
        raise Unsupported("rfind with bounds")
    x = x if isinstance(x, Cat) else Cat([x])
    for i, o, c in reversed(list(occurrences(x.parts, s))):
        c = sb_of(c)
        if c is True or (c is not False and bool(c)):
            return Pos(x, i, o)
    return -1


def core_issym(x):
    return isinstance(x, (U, Cat, SI, SB))


def startswith(x, s, end=False):
    if isinstance(s, tuple):
        return sb_any([startswith(x, e, end) for e in s])
    s = concretize(s)
    if isinstance(x, U):
        return x.where((lambda v: v.endswith(s)) if end else (lambda v: v.startswith(s)))
    ps = parts_of(x)
    if s == "":
        return True
    if not end:
        return match_const(ps, s, prefix=True)
    return _endswith(ps, s)


def _endswith(ps, s):
    if s == "":
        return True
    if not ps:
        return False
    p = ps[-1]
    if isinstance(p, str):
        if len(p) >= len(s):
            return p.endswith(s)
        return _endswith(ps[:-1], s[: -len(p)]) if s.endswith(p) else False
    if isinstance(p, IntStr):
        if s[-1].isdigit():
            raise Unsupported("endswith digits")
        return False
    alts = []
    by = {}
    for v, m in p.feasible():
        if v.endswith(s):
            by[""] = by.get("", 0) | m
        elif s.endswith(v):
            r = s[: len(s) - len(v)]
            by[r] = by.get(r, 0) | m
    for r, m in by.items():
        alts.append(sb_and(SB(p.base, m), _endswith(ps[:-1], r)))
    return sb_any(alts)


def replace(x, old, new, count=-1):
    old, new, count = concretize(old), new, concretize(count)
    if isinstance(x, U) and isinstance(new, str):
        return x.map(lambda v: v.replace(old, new, count), ("replace", old, new, count))
    ps = parts_of(x)
    if old == "" or count not in (-1, None):
        return _replace_conc(x, old, new, count)
    if len(old) == 1 and isinstance(new, str):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p.replace(old, new))
            elif isinstance(p, U):
                out.append(p.map(lambda v: v.replace(old, new), ("replace", old, new, -1)))
            else:
                if old.isdigit():
                    raise Unsupported("replace digit")
                out.append(p)
        return mkcat(out)
    r = split_const(x, old)
    return join(new, r)


def _replace_conc(x, old, new, count):
    return x.concrete().replace(old, concretize(new), count)


def split_const(x, sep, maxsplit=-1):
    """str.split(sep) for a constant separator."""
    out = []
    x = x if isinstance(x, (Cat, str)) else Cat([x])
    while maxsplit != 0 and issym(x):
        if isinstance(x, U):
            x = Cat([x])
        p = find(x, sep)
        if isinstance(p, int):
            break
        out.append(_slice(x, None, p))
        x = _advance(x, p, len(sep))
        maxsplit -= 1
    if isinstance(x, str):
        out.extend(x.split(sep, maxsplit))
    else:
        out.append(x.simp())
    return out


def _advance(x, p, n):
    """The part of x after n characters from position p."""
    q = p + n
    if not isinstance(q, Pos):
        # the occurrence ends inside a union: walk it, forking on lengths
        i, o = p.pi, p.off
        ps = x.parts
        rest = n
        while rest:
            e = ps[i]
            L = len(e) if isinstance(e, str) else core.CUR.fork_groups(e, len)
            if o + rest < L:
                o += rest
                rest = 0
            else:
                rest -= L - o
                i += 1
                o = 0
        q = Pos(x, i, o)
    return _slice(x, q, None)


def join(sep, items):
    items = list(items)
    out = []
    for i, e in enumerate(items):
        if i:
            out.append(sep)
        if not isinstance(e, (str, U, Cat)):
            raise TypeError(
                "sequence item %d: expected str instance, %s found"
                % (i, type(e).__name__)
            )
        out.append(e)
    return mkcat(out)


# -- numbers


def to_int(x, *a):
    if isinstance(x, SI):
        return x
    if isinstance(x, SB):
        return x.asint()
    if isinstance(x, U):
        return x.map(lambda v: int(v, *a), ("int",) + a)
    if a:
        raise Unsupported("int with base")
    x = strip(x)
    if isinstance(x, str):
        return int(x)
    if isinstance(x, U):
        return to_int(x)
    ps = x.parts
    if len(ps) == 1 and isinstance(ps[0], IntStr):
        return ps[0].si
    f = x.flat()
    if f is not None and not isinstance(f, str):
        return to_int(f)
    # digit by digit
    val = 0
    for p in ps:
        if isinstance(p, IntStr):
            raise Unsupported("int of mixed digits")
        if isinstance(p, str):
            if not all(c.isdecimal() for c in p):
                raise _int_error(x)
            val = val * 10 ** len(p) + int(p)
            continue
        c = p.where(lambda v: v == "" or v.isdecimal())
        if c is not True and (c is False or not bool(c)):
            raise _int_error(x)
        n = core.CUR.fork_groups(p, len)
        if n:
            val = val * 10**n + p.map(int, ("int",))
    return val


def _int_error(x):
    s = x.concrete() if not isinstance(x, str) else x
    try:
        int(s)
    except ValueError as e:
        return e
    raise Unsupported("int(%r)" % (s,))


def to_str(x):
    if isinstance(x, SI):
        if (x.lo is not None and x.lo >= 0) or bool(x >= 0):
            return Cat([IntStr(x)])
        return mkcat(["-", Cat([IntStr(-x)])])
    if isinstance(x, SB):
        return "True" if bool(x) else "False"
    if isinstance(x, U):
        if x.is_str():
            return x
        return x.map(str, ("str",))
    return x


# -- regular expressions


_PARSED = {}


class _Info:
    """Atomic character sets of a pattern."""

    def __init__(self, pattern, flags):
        self.ok = True
        self.sets = []
        self.lits = set()
        self.flags = flags
        self.lookaround = False
        try:
            tree = sre_parse.parse(pattern, flags & ~re.DEBUG)
        except Exception:
            self.ok = False
            return
        self.flags = tree.state.flags
        self.walk(tree)
        self.fns = []
        for st in self.sets:
            self.fns.append(re.compile(st, self.flags & ~re.VERBOSE))
        for c in sorted(self.lits):
            self.fns.append(re.compile(re.escape(c), self.flags & ~re.VERBOSE))
        self.cache = {}
        self.inside = {}
        self.rx = re.compile(pattern, flags)
        self.linear = not self.lookaround and _linear(tree)
        # split on one character class, optionally repeated?
        self.single = None

    def walk(self, tree):
        for op, av in tree:
            n = str(op)
            if n in ("LITERAL", "NOT_LITERAL"):
                self.lits.add(chr(av))
            elif n == "IN":
                self.add_in(av)
            elif n == "ANY":
                self.sets.append(".")
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                self.walk(av[2])
            elif n == "SUBPATTERN":
                self.walk(av[3])
            elif n == "BRANCH":
                for b in av[1]:
                    self.walk(b)
            elif n == "AT":
                if "BOUNDARY" in str(av):
                    self.sets.append(r"\w")
                    self.lookaround = True
                else:
                    self.lits.add("\n")
            elif n in ("ASSERT", "ASSERT_NOT"):
                self.lookaround = True
                self.walk(av[1])
            elif n == "CATEGORY":
                self.add_in([(op, av)])
            elif n == "ATOMIC_GROUP":
                self.walk(av)
            else:
                self.ok = False

    def add_in(self, items):
        for op, av in items:
            n = str(op)
            if n == "LITERAL":
                self.lits.add(chr(av))
            elif n == "RANGE":
                self.sets.append(
                    "[%s-%s]" % (re.escape(chr(av[0])), re.escape(chr(av[1])))
                )
            elif n == "CATEGORY":
                cat = str(av).lower()
                k = {
                    "category_digit": r"\d",
                    "category_not_digit": r"\d",
                    "category_space": r"\s",
                    "category_not_space": r"\s",
                    "category_word": r"\w",
                    "category_not_word": r"\w",
                }.get(cat)
                if k is None:
                    self.ok = False
                else:
                    self.sets.append(k)
            elif n == "NEGATE":
                pass
            else:
                self.ok = False

    def cuts(self, g, c):
        """Do matches begin or end inside a run of such characters?"""
        r = self.inside.get(g)
        if r is None:
            r = self.inside[g] = any(0 < n < 4 for m in self.rx.finditer(c * 4) for n in m.span())
        return r

    def sig(self, ch):
        s = self.cache.get(ch)
        if s is None:
            s = self.cache[ch] = tuple(
                f.fullmatch(ch) is not None for f in self.fns
            )
        return s


def _linear(tree):
    """Sequences and choices of single classes, once or any number of times."""
    for op, av in tree:
        n = str(op)
        if n in ("LITERAL", "NOT_LITERAL", "IN", "ANY"):
            continue
        if n == "SUBPATTERN":
            if not _linear(av[3]):
                return False
        elif n == "BRANCH":
            if not all(_linear(b) for b in av[1]):
                return False
        elif n in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            if lo > 1 or hi != sre_c.MAXREPEAT or len(sub) != 1 or str(sub[0][0]) not in ("LITERAL", "NOT_LITERAL", "IN", "ANY"):
                return False
        else:
            return False
    return True


def _runs(info, v):
    """The kinds of characters of v, run by run, and where the runs begin."""
    out = []
    cut = []
    for n, c in enumerate(v):
        g = info.sig(c)
        if not out or out[-1] != g or info.cuts(g, c):
            out.append(g)
            cut.append(n)
    return tuple(out), cut + [len(v)]


def _run(info, v, n):
    c = _runs(info, v)[1]
    return v[c[n] : c[n + 1]] if n + 1 < len(c) else ""


def _linear_finditer(rx, info, x):
    """Matches of a pattern for which runs of one kind of characters behave
    the same at any length: decided on representatives of all lengths that
    occur; None when a match begins or ends inside such a run."""
    ps = parts_of(x)
    alts = []
    qs = []
    split = False
    for p in ps:
        if isinstance(p, (str, IntStr)):
            qs.append(p)
        if isinstance(p, str):
            alts.append(None)
            continue
        if isinstance(p, IntStr):
            lo = getattr(p.si, "lo", None)
            if len({info.sig(d) for d in ("0123456789" if lo is not None and lo >= 0 else "-0123456789")}) > 1:
                return None
            alts.append(["7", "7" * 9])
            continue

        k = core.CUR.fork_groups(p, lambda v: _runs(info, v)[0])
        for n in range(len(k)):
            if len(k) == 1:
                q = p
            else:
                q = p.map(lambda v, n=n: _run(info, v, n), ("rxrun", rx.pattern, rx.flags, n))
                split = True
            if isinstance(q, str):
                qs.append(q)
                alts.append(None)
                continue
            d = {}
            for v, _ in q.feasible():
                d.setdefault(len(v), v)
            qs.append(q)
            alts.append([d[n] for n in sorted(d)])
    orig, ps = ps, qs
    runs = [i for i, a in enumerate(alts) if isinstance(a, list)]
    picks = [{i: 0 for i in runs}]
    for j in range(1, max([len(alts[i]) for i in runs], default=1)):
        picks.append({i: min(j, len(alts[i]) - 1) for i in runs})
    for i in runs:
        for j in range(1, len(alts[i])):
            picks.append({**picks[0], i: j})
            picks.append({**picks[-1], **{r: len(alts[r]) - 1 for r in runs if r != i}})
    out = None
    done = set()
    for pk in picks:
        t = tuple(pk.items())
        if t in done:
            continue
        done.add(t)
        reps = [
            p if a is None else a[pk[i]]
            for i, (p, a) in enumerate(zip(ps, alts))
        ]
        offs = [0]
        for r in reps:
            offs.append(offs[-1] + len(r))

        def loc(n):
            for i in range(len(reps)):
                if n < offs[i + 1]:
                    return (i, n - offs[i])
            return (len(reps), 0)

        got = []
        for m in rx.finditer("".join(reps)):
            sp = []
            for g in range((rx.groups or 0) + 1):
                a, b = m.span(g)
                sp.append(None if a < 0 else (loc(a), loc(b)))
            got.append(sp)
        for sp in got:
            for e in sp:
                if e is not None and any(i in pk and o for i, o in e):
                    return None
        if out is None:
            out = got
        elif out != got:
            return None
    cat = SplitCat(ps, orig) if split else Cat(ps)
    return [SymMatch(rx, cat, sp) for sp in out]


class SplitCat(Cat):
    """A string with some parts cut into pieces."""

    __slots__ = ("orig",)

    def __init__(self, parts, orig):
        super().__init__(parts)
        self.orig = orig


def rx_info(rx):
    k = (rx.pattern, rx.flags)
    i = _PARSED.get(k)
    if i is None:
        i = _PARSED[k] = _Info(rx.pattern, rx.flags)
    return i


def single_class(rx):
    """(class regex, repeated, grouped) when rx is one char class / class+."""
    try:
        t = sre_parse.parse(rx.pattern, rx.flags)
    except Exception:
        return None
    t = list(t)
    grouped = False
    if len(t) == 1 and str(t[0][0]) == "SUBPATTERN":
        grouped = True
        t = list(t[0][1][3])
    rep = False
    if len(t) == 1 and str(t[0][0]) == "MAX_REPEAT":
        lo, hi, sub = t[0][1]
        if lo != 1 or hi != sre_c.MAXREPEAT:
            return None
        rep = True
        t = list(sub)
        if len(t) == 1 and str(t[0][0]) == "SUBPATTERN":
            return None
    if len(t) == 1 and str(t[0][0]) in ("IN", "LITERAL", "NOT_LITERAL", "ANY"):
        return rep, grouped
    return None


def rx_split(rx, x, maxsplit=0):
    if isinstance(x, str):
        return rx.split(x, maxsplit)
    sc = single_class(rx)
    if sc is None or maxsplit:
        ms = rx_finditer(rx, x)
        return _split_by(rx, x, ms, maxsplit)
    rep, grouped = sc
    if not grouped:
        rx = re.compile("(%s)" % rx.pattern, rx.flags)
    # tokens as a list of lists of parts: text, sep, text, sep, ..., text
    toks = [[]]
    for p in parts_of(x):
        if isinstance(p, IntStr):
            d = rx.split("0123456789")
            if len(d) != 1:
                raise Unsupported("split digits")
            toks[-1].append(p)
            continue
        if isinstance(p, str):
            pieces = rx.split(p)
        else:
            u = p.map(lambda v: rx.split(v), ("rxsplit", rx.pattern, rx.flags))
            if isinstance(u, U):
                n = core.CUR.fork_groups(u, lambda v: (len(v), v[0] == "", v[-1] == ""))[0]
                pieces = [
                    u.map(lambda v, i=i: v[i], ("[]", i)) for i in range(n)
                ]
            else:
                pieces = u
        # homomorphism: glue the first piece to the last token
        first = pieces[0]
        rest = list(pieces[1:])
        empty_first = isinstance(first, str) and first == ""
        if rep and len(toks) > 1 and not toks[-1] and empty_first and rest:
            # run of separators continues across the boundary
            toks[-2].append(rest[0])
            rest = rest[1:]
            toks[-1].append(rest[0])
            rest = rest[1:]
        else:
            toks[-1].append(first)
        for q in rest:
            toks.append([q])
        if len(toks[-1]) == 1 and isinstance(toks[-1][0], str) and toks[-1][0] == "":
            toks[-1] = []
    out = [mkcat(t) for t in toks]
    if not grouped:
        out = out[::2]
    return out


def _template(rx, x):
    """Run rx on a representative of x.

    Returns (concrete template, spans of the parts, part list).  Unions are
    narrowed (by forking) until all their values have the same class vector
    for the pattern, so the representative behaves like every value.
    """
    info = rx_info(rx)
    if not info.ok:
        return None
    ps = parts_of(x)
    inert_sig = None
    reps = []
    newps = []
    for p in ps:
        if isinstance(p, str):
            reps.append(p)
            newps.append(p)
            continue
        if isinstance(p, IntStr):
            sigs = {info.sig(d) for d in "0123456789"}
            if len(sigs) != 1:
                return None
            s = sigs.pop()
            if any(s):
                p = str(p.si.concrete())
                reps.append(p)
                newps.append(p)
            else:
                reps.append("7")
                newps.append(p)
            continue

        def key(v):
            sg = [info.sig(c) for c in v]
            if v and not info.lookaround and all(not any(s) for s in sg):
                return "inert"
            return tuple(sg)

        neg = _has_negation(rx)
        if neg:
            k = core.CUR.fork_groups(p, lambda v: tuple(info.sig(c) for c in v))
        else:
            k = core.CUR.fork_groups(p, key)
        v = p.feasible()[0][0]
        reps.append(v)
        newps.append(p)
    return reps, newps


def _has_negation(rx):
    """Could a character outside every atomic set be consumed?"""
    return bool(re.search(r"\[\^|\\[WSDB]|(?<!\\)\.", rx.pattern))


def rx_finditer(rx, x):
    """[(start, end, groups)] with positions as (part, offset) pairs."""
    x = x if isinstance(x, Cat) else (Cat([x]) if x != "" else Cat([]))
    if rx_info(rx).ok and rx_info(rx).linear:
        ms = _linear_finditer(rx, rx_info(rx), x)
        if ms is not None:
            return ms
    t = _template(rx, x)
    if t is None:
        raise Unsupported("regular expression " + rx.pattern)
    reps, ps = t
    s = "".join(reps)
    offs = [0]
    for r in reps:
        offs.append(offs[-1] + len(r))
    cat = Cat(ps)

    def loc(n):
        for i in range(len(reps)):
            if n < offs[i + 1] or (n == offs[i] and n < offs[i + 1]):
                return (i, n - offs[i])
        return (len(reps), 0)

    out = []
    for m in rx.finditer(s):
        spans = []
        for g in range(0, (rx.groups or 0) + 1):
            a, b = m.span(g)
            if a < 0:
                spans.append(None)
            else:
                spans.append((loc(a), loc(b)))
        out.append(spans)
    return [SymMatch(rx, cat, sp) for sp in out]


class SymMatch:
    def __init__(self, rx, cat, spans):
        self.re = rx
        self.cat = cat
        self.spans = spans
        self.string = mkcat(cat.orig) if type(cat) is SplitCat else cat

    def _cut(self, span):
        (ai, ao), (bi, bo) = span
        return _slice(self.cat, Pos(self.cat, ai, ao), Pos(self.cat, bi, bo))

    def group(self, *gs):
        gs = gs or (0,)
        out = []
        for g in gs:
            if isinstance(g, str):
                g = self.re.groupindex[g]
            sp = self.spans[g]
            out.append(None if sp is None else self._cut(sp))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(
            default if sp is None else self._cut(sp) for sp in self.spans[1:]
        )

    def groupdict(self, default=None):
        return {k: self.group(i) for k, i in self.re.groupindex.items()}

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def span(self, g=0):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        sp = self.spans[g]
        if sp is None:
            return (-1, -1)
        out = []
        for i, o in sp:
            p = Pos(self.cat, i, o)
            n = p._int() if all(isinstance(q, str) for q in self.cat.parts[:i]) else p
            out.append(n)
        return tuple(out)

    def expand(self, t):
        raise Unsupported("expand")


def _split_by(rx, x, ms, maxsplit):
    cat = ms[0].cat if ms else x
    out = []
    pos = (0, 0)
    for n, m in enumerate(ms):
        if maxsplit and n >= maxsplit:
            break
        (a, b) = m.spans[0]
        out.append(m._cut((pos, a)))
        out.extend(m.groups())
        pos = b
    if not ms:
        return [x]
    out.append(_slice(cat, Pos(cat, *pos), None))
    return out


def rx_nomatch(rx, x, how="search"):
    """Try to decide with one formula that a pattern without repetition does
    not occur in x (a Cat of few single-character unions)."""
    info = rx_info(rx)
    if not info.ok:
        return None
    ps = parts_of(x)
    classes = []
    total = 1
    for p in ps:
        if isinstance(p, IntStr):
            return None
        if isinstance(p, str):
            classes.append([(p, None)])
            continue
        by = {}
        rep = {}
        for v, m in p.feasible():
            k = tuple(info.sig(c) for c in v)
            by[k] = by.get(k, 0) | m
            rep.setdefault(k, v)
        classes.append([(rep[k], SB(p.base, by[k])) for k in by])
        total *= len(by)
        if total > 4000:
            return None
    bases = [p.base for p in ps if isinstance(p, U)]
    if len(set(bases)) != len(bases):
        return None
    f = getattr(rx, how)
    alts = []
    for combo in itertools.product(*classes):
        if f("".join(v for v, _ in combo)):
            alts.append(sb_all([c for _, c in combo if c is not None]))
    return sb_not(sb_any(alts))


def rx_match(rx, x, how):
    """match / search / fullmatch -> SymMatch or None."""
    if isinstance(x, str):
        return getattr(rx, how)(x)
    nm = rx_nomatch(rx, x, how)
    if nm is not None:
        nm = sb_of(nm)
        if nm is True or (nm is not False and bool(nm)):
            return None
    t = _template(rx, x)
    if t is None:
        raise Unsupported("regular expression " + rx.pattern)
    reps, ps = t
    s = "".join(reps)
    m = getattr(rx, how)(s)
    if m is None:
        return None
    offs = [0]
    for r in reps:
        offs.append(offs[-1] + len(r))

    def loc(n):
        for i in range(len(reps)):
            if n < offs[i + 1]:
                return (i, n - offs[i])
        return (len(reps), 0)

    spans = []
    for g in range(0, (rx.groups or 0) + 1):
        a, b = m.span(g)
        spans.append(None if a < 0 else (loc(a), loc(b)))
    return SymMatch(rx, Cat(ps), spans)


def rx_sub(rx, repl, x, count=0):
    if isinstance(x, str) and isinstance(repl, str):
        return rx.sub(repl, x, count)
    if isinstance(x, U) and isinstance(repl, str):
        return x.map(
            lambda v: rx.sub(repl, v, count),
            ("rxsub", rx.pattern, rx.flags, repl, count),
        )
    sc = single_class(rx)
    if sc is not None and not sc[0] and not count and isinstance(repl, str):
        # one character at a time: part by part
        out = []
        for p in parts_of(x):
            if isinstance(p, str):
                p = rx.sub(repl, p)
            elif isinstance(p, U):
                p = p.map(lambda v: rx.sub(repl, v), ("rxsub", rx.pattern, rx.flags, repl, count))
            elif any(rx.fullmatch(d) for d in "-0123456789"):
                out = None
                break
            out.append(p)
        if out is not None:
            return mkcat(out)
    nm = rx_nomatch(rx, x)
    if nm is not None:
        nm = sb_of(nm)
        if nm is True or (nm is not False and bool(nm)):
            return x
    ms = rx_finditer(rx, x)
    if not ms:
        return x
    if isinstance(repl, str) and "\\" in repl:
        raise Unsupported("sub template")
    cat = ms[0].cat
    out = []
    pos = (0, 0)
    for n, m in enumerate(ms):
        if count and n >= count:
            break
        a, b = m.spans[0]
        out.append(m._cut((pos, a)))
        out.append(repl if isinstance(repl, (str, U, Cat)) else repl(m))
        pos = b
    out.append(_slice(cat, Pos(cat, *pos), None))
    return mkcat(out)


def rx_findall(rx, x):
    if isinstance(x, str):
        return rx.findall(x)
    out = []
    for m in rx_finditer(rx, x):
        g = m.groups()
        out.append(m.group(0) if not g else (g[0] if len(g) == 1 else g))
    return out
