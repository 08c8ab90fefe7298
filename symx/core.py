"""Symbolic values and path exploration.

Inputs are *finite-domain* symbolic variables (`Base`): an SMT integer `v`
with 0 <= v < n plus a table giving the Python value for every index.  A
symbolic Python value derived from one variable is a `U` (variable + table of
results); a symbolic string made from several variables is a `Cat`
(concatenation); an integer combining several variables is an `SI` (an SMT
integer term); a symbolic truth value is an `SB`.

Execution forks at branches on symbolic truth values.  A path is identified by
its list of decisions and is re-executed from the start.
"""
import time
import z3

MAXLIFT = 700


class EngineExit(BaseException):
    """Base of everything the engine raises through the code under test."""


class Hang(BaseException):
    """The time of a path, or of a call of the real code, has run out."""


class PathAbort(EngineExit):
    """The current path is infeasible or cut by an assumption."""


class Unsupported(EngineExit):
    """The engine cannot encode an operation."""


class SpecAbort(EngineExit):
    """A speculative evaluation tried to branch."""


class Violation(EngineExit):
    def __init__(self, msg, assignment):
        self.msg = msg
        self.assignment = assignment


CUR = None  # the current Path


def cur():
    return CUR


# --------------------------------------------------------------------------
# tables and bases


def _key(v):
    """A dictionary key that identifies a concrete value (type-exact)."""
    t = type(v)
    if t is str or v is None:
        return v
    if t in (int, bool, float):
        return (t.__name__, v)
    if t in (list, tuple):
        return (t.__name__, tuple(_key(x) for x in v))
    if t is dict:
        return ("dict", tuple((_key(k), _key(x)) for k, x in v.items()))
    try:
        hash(v)
        return ("obj", v)
    except TypeError:
        return ("id", id(v))


class Table:
    """Immutable list of values, one per index of some domain."""

    __slots__ = ("values", "_groups", "memo", "root", "_allstr", "persist", "_feas", "_rs")

    def __init__(self, values, root=None, persist=False):
        self.persist = persist
        self._feas = None
        self._rs = None
        self.values = values
        self._groups = None
        self.memo = {}
        self.root = root or self
        self._allstr = None

    def raises(self):
        if self._rs is None:
            self._rs = any(type(v) is Raised for v in self.values)
        return self._rs

    @property
    def groups(self):
        """dict: key -> (value, mask)"""
        g = self._groups
        if g is None:
            idx = {}
            vals = {}
            for i, v in enumerate(self.values):
                if v is MISSING:
                    continue
                k = _key(v)
                if k in idx:
                    idx[k].append(i)
                else:
                    idx[k] = [i]
                    vals[k] = v
            if len(self.values) <= 4096:
                g = {}
                for k, ii in idx.items():
                    m = 0
                    for i in ii:
                        m |= 1 << i
                    g[k] = (vals[k], m)
            else:
                g = {}
                for k, ii in idx.items():
                    if len(ii) < 64:
                        m = 0
                        for i in ii:
                            m |= 1 << i
                    else:
                        b = bytearray((len(self.values) + 7) // 8)
                        for i in ii:
                            b[i >> 3] |= 1 << (i & 7)
                        m = int.from_bytes(b, "little")
                    g[k] = (vals[k], m)
            self._groups = g
        return g

    def mapped(self, opkey, fn):
        """Table of fn(value); memoised under opkey when it is not None."""
        if opkey is not None:
            try:
                t = self.memo.get(opkey)
            except TypeError:
                opkey = None
                t = None
            if t is not None:
                return t
        cache = {}
        out = []
        for v in self.values:
            if v is MISSING:
                out.append(MISSING)
                continue
            k = _key(v)
            if k in cache:
                out.append(cache[k])
            else:
                try:
                    r = fn(v)
                except Exception as e:  # outcome of the operation itself
                    r = Raised(e)
                cache[k] = r
                out.append(r)
        t = Table(out, self.root)
        if opkey is not None:
            self.memo[opkey] = t
            t.persist = self.persist
        return t


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class Raised:
    """Marker: the operation raises for this index."""

    def __init__(self, exc):
        self.exc = exc

    def __hash__(self):
        return hash((type(self.exc), str(self.exc)))

    def __eq__(self, o):
        return (
            isinstance(o, Raised)
            and type(o.exc) is type(self.exc)
            and str(o.exc) == str(self.exc)
        )


class Base:
    """A finite-domain input variable."""

    __slots__ = ("name", "n", "table", "full", "z", "_fcache")

    def __init__(self, name, table):
        self.name = name
        self.table = table
        self.n = len(table.values)
        self.full = (1 << self.n) - 1
        self.z = z3.Int(name)
        self._fcache = {}

    def formula(self, mask):
        f = self._fcache.get(mask)
        if f is None:
            f = self._fcache[mask] = self._mk(mask)
        return f

    def _mk(self, mask):
        if mask == 0:
            return z3.BoolVal(False)
        if mask == self.full:
            return z3.And(self.z >= 0, self.z < self.n)
        ors = []
        for a, b in runs(mask):
            if a == b:
                ors.append(self.z == a)
            else:
                ors.append(z3.And(self.z >= a, self.z <= b))
        return ors[0] if len(ors) == 1 else z3.Or(*ors)


LEMMAS = set()


def _mask_formula(z, mask):
    ors = []
    for a, b in runs(mask):
        ors.append(z == a if a == b else z3.And(z >= a, z <= b))
    return ors[0] if len(ors) == 1 else z3.Or(*ors)


def runs(mask):
    """[(first, last)] of the runs of ones."""
    out = []
    s = bin(mask)[2:][::-1]
    i = 0
    n = len(s)
    while True:
        a = s.find("1", i)
        if a < 0:
            return out
        b = s.find("0", a)
        if b < 0:
            b = n
        out.append((a, b - 1))
        i = b


def bits(mask):
    while mask:
        low = mask & -mask
        yield low.bit_length() - 1
        mask ^= low


# --------------------------------------------------------------------------
# paths


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.qtime = 0.0
        self.checks = 0
        self.unknown = 0
        self.identities = 0
        self.aborted = 0
        self.unsupported = 0
        self.validated = 0
        self.mismatch = 0
        self.sat_paths = 0
        self.functions = set()
        self.unsup_msgs = {}

    def merge(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, set):
                getattr(self, k).update(v)
            elif isinstance(v, dict):
                d = getattr(self, k)
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                setattr(self, k, getattr(self, k) + v)


class Path:
    def __init__(self, prefix, stats, bases_cache, timeout_ms=20000):
        self.prefix = prefix
        self.trace = []
        self.pending = []  # alternative prefixes discovered
        self.stats = stats
        self.bases = {}
        self.bases_cache = bases_cache
        self.masks = {}
        self.rel = []  # relational constraints (z3)
        self.clauses = []  # boxes known not to hold
        self._solver = None
        self._flushed_masks = {}
        self._flushed_rel = 0
        self.timeout_ms = timeout_ms
        self.speculating = 0
        self.who = 0  # which of two concurrent calls runs
        self.race = None  # called before statements of the code under test
        self.log = []  # observable values recorded by the harness
        self.tainted = set()
        self.keep = []
        self.atoms = {}
        self.prods = {}

    # -- inputs
    def new_base(self, name, table):
        if name in self.bases:
            raise RuntimeError("duplicate input " + name)
        k = (name, id(table))
        b = self.bases_cache.get(k)
        if b is None:
            b = self.bases_cache[k] = Base(name, table)
        self.bases[name] = b
        self.masks[b] = b.full
        return b

    # -- integer terms
    def atom_var(self, a):
        if a.var is None:
            if a.base is None:
                a.var = a.term
                return a.var
            v = a.var = z3.Int("%s#%d" % (a.base.name, a.serial))
            self.rel.append(v >= a.lo)
            self.rel.append(v <= a.hi)
            for x, m in a.groups():
                self.rel.append(z3.Implies(a.base.formula(m), v == x))
        return a.var

    def key_term(self, key):
        if len(key) == 1:
            return self.atom_var(key[0])
        t = self.prods.get(key)
        if t is None:
            # linearise over the factor with the fewest values
            cand = [a for a in key if a.base is not None]
            if not cand:
                raise Unsupported("non-linear integer term")
            q = min(cand, key=lambda a: len(a.groups()))
            rest = list(key)
            rest.remove(q)
            r = self.key_term(tuple(rest))
            t = z3.Int("prod#%d" % len(self.prods))
            self.prods[key] = t
            lo, hi = _kbounds(key, 1)
            if lo is not None:
                self.rel.append(t >= lo)
                self.rel.append(t <= hi)
            for x, m in q.groups():
                self.rel.append(z3.Implies(q.base.formula(m), t == x * r))
        return t

    def poly_term(self, terms):
        ts = []
        for k in sorted(terms, key=_order):
            c = terms[k]
            if k == ():
                ts.append(z3.IntVal(c))
            else:
                t = self.key_term(k)
                ts.append(t if c == 1 else c * t)
        if not ts:
            return z3.IntVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def lemma(self, b, mask, lst, merged):
        """For every feasible index: sum of c * tables == merged table.  The
        step is put to the solver once and remembered."""
        k = (merged, tuple((c, tuple(a.values for a in m)) for m, c in lst))
        if k in LEMMAS:
            return
        s = z3.Solver()
        i = z3.Int("i")
        tot = z3.IntVal(0)
        idx = list(bits(mask))

        def tab(vals, name):
            v = z3.Int(name)
            g = {}
            for x in idx:
                g[vals[x]] = g.get(vals[x], 0) | 1 << x
            for x, mm in g.items():
                s.add(z3.Implies(_mask_formula(i, mm), v == x))
            return v

        s.add(_mask_formula(i, mask))
        n = 0
        for m, c in lst:
            t = None
            for a in m:
                v = tab(a.values, "t%d" % n)
                n += 1
                if t is None:
                    t = v
                else:
                    u = z3.Int("p%d" % n)
                    g = {}
                    for x in idx:
                        g[a.values[x]] = g.get(a.values[x], 0) | 1 << x
                    for x, mm in g.items():
                        s.add(z3.Implies(_mask_formula(i, mm), u == x * t))
                    t = u
            tot = tot + c * t
        r = tab(merged, "r")
        t0 = time.time()
        ok = s.check(tot != r)
        self.stats.queries += 1
        self.stats.identities += 1
        self.stats.qtime += time.time() - t0
        if ok != z3.unsat:
            raise Unsupported("rewriting step not confirmed by the solver")
        LEMMAS.add(k)

    # -- solver
    def solver(self):
        s = self._solver
        if s is None:
            s = self._solver = z3.Solver()
            s.set("timeout", self.timeout_ms)
        for b, m in self.masks.items():
            if self._flushed_masks.get(b) != m:
                s.add(b.formula(m))
                self._flushed_masks[b] = m
        while self._flushed_rel < len(self.rel):
            s.add(self.rel[self._flushed_rel])
            self._flushed_rel += 1
        return s

    def query(self, *extra):
        s = self.solver()
        t = time.time()
        r = s.check(*extra)
        self.stats.queries += 1
        self.stats.qtime += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def model_assignment(self, *extra):
        """A satisfying assignment {input: index} or None."""
        r = self.query(*extra)
        if r != z3.sat:
            return None
        m = self._solver.model()
        out = {}
        for name, b in self.bases.items():
            v = m.eval(b.z, model_completion=False)
            if z3.is_int_value(v):
                i = v.as_long()
            else:
                i = next(bits(self.masks[b]))
            out[name] = i
        return out

    # -- decisions
    def _take(self, label):
        self.trace.append(label)

    def add(self, sb, truth):
        """Assume sb == truth."""
        if sb.base is not None:
            b = sb.base
            m = sb.mask if truth else (b.full & ~sb.mask)
            self.masks[b] &= m
        elif sb.box is not None and sb.pos == truth:
            for b, m in sb.box.items():
                self.masks[b] &= m
        else:
            self.rel.append(sb.z if truth else z3.Not(sb.z))
            if sb.box is not None:
                self.clauses.append(sb.box)
        if self.clauses:
            self.propagate()

    def propagate(self):
        """Unit propagation of the negated boxes."""
        changed = True
        masks = self.masks
        while changed:
            changed = False
            keep = []
            for box in self.clauses:
                left = None
                n = 0
                for b, m in box.items():
                    c = masks[b]
                    if not c & m:
                        n = -1
                        break
                    if c & ~m:
                        n += 1
                        left = b
                        if n > 1:
                            break
                if n == -1:
                    continue
                if n == 0:
                    raise PathAbort()
                if n == 1:
                    masks[left] &= ~box[left]
                    changed = True
                    continue
                keep.append(box)
            self.clauses = keep

    def branch(self, sb):
        if self.speculating:
            raise SpecAbort()
        self.stats.branches += 1
        if sb.base is not None:
            c = self.masks[sb.base]
            t = c & sb.mask
            f = c & ~sb.mask
            if not f:
                if not t:
                    raise PathAbort()
                return True
            if not t:
                return False
            can_t = can_f = True
        elif sb.box is not None:
            k = sb.known()
            if k is not None:
                return k
            can_t = can_f = True
        else:
            can_t = can_f = None
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(sb, d == 1)
            return d == 1
        if can_t is None:
            can_t = self.query(sb.z) != z3.unsat
            can_f = self.query(z3.Not(sb.z)) != z3.unsat if can_t else True
            if can_t and not can_f:
                self.trace.append(1)
                return True
            if not can_t:
                self.trace.append(0)
                return False
        self.stats.forks += 1
        self.pending.append(self.trace + [0])
        self.trace.append(1)
        self.add(sb, True)
        return True

    def choose(self, n, feasible=None):
        """Fork over range(n) without constraints."""
        if self.speculating:
            raise SpecAbort()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d
        opts = list(range(n)) if feasible is None else list(feasible)
        if not opts:
            raise PathAbort()
        for d in reversed(opts[1:]):
            self.pending.append(self.trace + [d])
        if len(opts) > 1:
            self.stats.forks += len(opts) - 1
        self.trace.append(opts[0])
        return opts[0]

    def fork_groups(self, u, keyfn):
        """Fork on keyfn(value); returns the key; the mask is narrowed."""
        b = u.base
        c = self.masks[b]
        groups = {}
        order = []
        for k, (v, m) in u.table.groups.items():
            m &= c
            if m:
                g = keyfn(v)
                if g in groups:
                    groups[g] |= m
                else:
                    groups[g] = m
                    order.append(g)
        if len(order) == 1:
            return order[0]
        if not order:
            raise PathAbort()
        d = self.choose(len(order))
        g = order[d]
        self.masks[b] = c & groups[g]
        if self.clauses:
            self.propagate()
        return g


# --------------------------------------------------------------------------
# booleans


class SB:
    """Symbolic truth value: unary (base, mask), a box (several variables each
    in a set: a conjunction; or its negation), or a z3 term."""

    __slots__ = ("base", "mask", "_z", "box", "pos")

    def __init__(self, base=None, mask=None, z=None, box=None, pos=True):
        self.base = base
        self.mask = mask
        self._z = z
        self.box = box
        self.pos = pos

    @property
    def z(self):
        if self._z is None:
            if self.box is not None:
                t = z3.And(*[b.formula(m) for b, m in self.box.items()])
                self._z = t if self.pos else z3.Not(t)
            else:
                self._z = self.base.formula(self.mask)
        return self._z

    def shrink(self):
        """bool, or this condition without the parts already decided."""
        k = self.known()
        if k is not None:
            return k
        if self.box is not None:
            masks = CUR.masks
            left = {b: m for b, m in self.box.items() if masks[b] & ~m}
            if len(left) < len(self.box):
                return mk_box(left, self.pos)
        return self

    def __bool__(self):
        return CUR.branch(self)

    def known(self):
        """True/False when decided by the current masks, else None."""
        if self.base is not None:
            c = CUR.masks[self.base]
            if not c & ~self.mask:
                return True
            if not c & self.mask:
                return False
        elif self.box is not None:
            inside = True
            for b, m in self.box.items():
                c = CUR.masks[b]
                if not c & m:
                    return not self.pos
                if c & ~m:
                    inside = False
            if inside:
                return self.pos
        else:
            if z3.is_true(self._z):
                return True
            if z3.is_false(self._z):
                return False
        return None

    def neg(self):
        if self.base is not None:
            return SB(self.base, self.base.full & ~self.mask)
        if self.box is not None:
            return SB(box=self.box, pos=not self.pos)
        return SB(z=z3.Not(self._z))

    def asint(self):
        k = self.known()
        if k is not None:
            return int(k)
        if self.base is not None:
            c = CUR.masks[self.base]
            vals = [None] * self.base.n
            for i in bits(c):
                vals[i] = (self.mask >> i) & 1
            return SI({(mk_atom(self.base, tuple(vals)),): 1})
        return opaque(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    __invert__ = None

    def __and__(self, o):
        return sb_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return self.neg()
        if isinstance(o, SB):
            return SB(z=self.z == o.z)
        if isinstance(o, (int, SI, U)):
            return self.asint() == o
        return False

    def __ne__(self, o):
        return sb_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return self.asint() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.asint() * o

    __rmul__ = __mul__

    def __repr__(self):
        return "SB(%s)" % (self.base.name if self.base is not None else self._z)


def sb_of(x):
    """Truth of any value as SB or bool."""
    if isinstance(x, SB):
        return x.shrink()
    if isinstance(x, bool):
        return x
    if isinstance(x, U):
        return x.truth()
    if isinstance(x, SI):
        return x != 0
    if isinstance(x, Cat):
        return x.truth()
    return bool(x)


def sb_not(x):
    x = sb_of(x)
    if isinstance(x, SB):
        return x.neg()
    return not x


def mk_box(box, pos):
    if len(box) == 1:
        ((b, m),) = box.items()
        return SB(b, m if pos else b.full & ~m)
    return SB(box=box, pos=pos)


def _as_box(x, pos):
    """The box of a condition: x is box (pos) or x is not box (not pos)."""
    if x.base is not None:
        return {x.base: x.mask if pos else x.base.full & ~x.mask}
    if x.box is not None and x.pos == pos:
        return x.box
    return None


def _meet(x, y, pos):
    box = dict(x)
    for b, m in y.items():
        box[b] = box[b] & m if b in box else m
    return mk_box(box, pos)


def sb_and(a, b):
    a = sb_of(a)
    if a is False:
        return False
    b = sb_of(b)
    if b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a.base is not None and a.base is b.base:
        return sb_of(SB(a.base, a.mask & b.mask))
    x, y = _as_box(a, True), _as_box(b, True)
    if x is not None and y is not None:
        return sb_of(_meet(x, y, True))
    return SB(z=z3.And(a.z, b.z))


def sb_or(a, b):
    a = sb_of(a)
    if a is True:
        return True
    b = sb_of(b)
    if b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a.base is not None and a.base is b.base:
        return sb_of(SB(a.base, a.mask | b.mask))
    x, y = _as_box(a, False), _as_box(b, False)
    if x is not None and y is not None:
        return sb_of(_meet(x, y, False))
    return SB(z=z3.Or(a.z, b.z))


def sb_all(xs):
    r = True
    for x in xs:
        r = sb_and(r, x)
        if r is False:
            return False
    return r


def sb_any(xs):
    """Disjunction; unary terms on one base are merged first."""
    per = {}
    rest = []
    for x in xs:
        x = sb_of(x)
        if x is True:
            return True
        if x is False:
            continue
        if x.base is not None:
            per[x.base] = per.get(x.base, 0) | x.mask
        else:
            rest.append(x)
    r = False
    for b, m in per.items():
        r = sb_or(r, SB(b, m))
    for x in rest:
        r = sb_or(r, x)
    return r


# --------------------------------------------------------------------------
# integers
#
# A symbolic integer is a polynomial over atoms.  An atom is the value of a
# table at an input variable, or an opaque SMT term.


class Atom:
    __slots__ = ("base", "values", "term", "lo", "hi", "serial", "var", "vpath")

    def __init__(self, base, values, term, lo, hi, serial):
        self.base = base
        self.values = values
        self.term = term
        self.lo = lo
        self.hi = hi
        self.serial = serial
        self.var = None
        self.vpath = None

    def order(self):
        return (self.base.name if self.base is not None else "~", self.serial)

    def groups(self):
        """[(value, mask)] of the feasible indices."""
        c = CUR.masks[self.base]
        g = {}
        vs = self.values
        for i in bits(c):
            v = vs[i]
            g[v] = g.get(v, 0) | 1 << i
        return list(g.items())


def mk_atom(base, values):
    """values: tuple over the feasible indices of base (others: None)."""
    p = CUR
    k = (base, values)
    a = p.atoms.get(k)
    if a is None:
        f = [v for v in values if v is not None]
        a = Atom(base, values, None, min(f), max(f), len(p.atoms))
        p.atoms[k] = a
    return a


def opaque(z, lo=None, hi=None):
    if isinstance(z, int):
        return z
    if z3.is_int_value(z):
        return z.as_long()
    p = CUR
    k = ("z", z.get_id())
    a = p.atoms.get(k)
    if a is None:
        a = Atom(None, None, z, lo, hi, len(p.atoms))
        p.atoms[k] = a
        p.keep.append(z)
    return SI({(a,): 1})


def _order(key):
    return [a.order() for a in key]


def _kbounds(key, c):
    lo = hi = c
    for a in key:
        if a.lo is None or a.hi is None:
            return None, None
        xs = (lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi)
        lo, hi = min(xs), max(xs)
    return lo, hi


def as_poly(x):
    """-> int or SI; None when x is not an integer."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SI):
        return x.norm_self()
    if isinstance(x, SB):
        return x.asint()
    if isinstance(x, U):
        return x.as_si()
    return None


def mk_si(terms):
    terms = {k: c for k, c in terms.items() if c}
    if not terms:
        return 0
    if len(terms) == 1 and () in terms:
        return terms[()]
    return SI(terms)


def _product(terms, o):
    out = {}
    for k1, c1 in terms.items():
        for k2, c2 in o.items():
            k = tuple(sorted(k1 + k2, key=Atom.order))
            out[k] = out.get(k, 0) + c1 * c2
    return out


def normalise(terms):
    """Merge, per input variable, the tables that multiply the same factor."""
    terms = {k: c for k, c in terms.items() if c}
    for rnd in range(2):
        bases = []
        for k in terms:
            for a in k:
                if a.base is not None and a.base not in bases:
                    bases.append(a.base)
        bases.sort(key=lambda b: b.name)
        for b in bases:
            grp = {}
            out = {}
            for k, c in terms.items():
                mine = [a for a in k if a.base is b]
                if not mine:
                    out[k] = out.get(k, 0) + c
                    continue
                rest = tuple(a for a in k if a.base is not b)
                grp.setdefault(rest, []).append((mine, c))
            if not grp:
                continue
            mask = CUR.masks[b]
            for rest, lst in grp.items():
                tot = [None] * b.n
                for i in bits(mask):
                    t = 0
                    for mine, c in lst:
                        for a in mine:
                            c = c * a.values[i]
                        t += c
                    tot[i] = t
                vals = {t for t in tot if t is not None}
                if not vals:
                    raise PathAbort()
                if len(lst) > 1 or len(vals) == 1 or len(lst[0][0]) > 1:
                    CUR.lemma(b, mask, lst, tuple(tot))
                if len(vals) == 1:
                    (v,) = vals
                    if v:
                        out[rest] = out.get(rest, 0) + v
                    continue
                k = tuple(sorted(rest + (mk_atom(b, tuple(tot)),), key=Atom.order))
                out[k] = out.get(k, 0) + 1
            terms = {k: c for k, c in out.items() if c}
        if rnd == 0 and len(bases) < 2:
            break
    return terms


class SI:
    """Symbolic integer."""

    __slots__ = ("terms", "_lo", "_hi", "_b")

    def __init__(self, terms):
        self.terms = terms
        self._b = False

    def norm_self(self):
        return self

    def _bounds(self):
        if not self._b:
            lo = hi = 0
            for k, c in self.terms.items():
                a, b = _kbounds(k, c)
                if a is None:
                    lo = hi = None
                    break
                lo += a
                hi += b
            self._lo, self._hi = lo, hi
            self._b = True

    @property
    def lo(self):
        self._bounds()
        return self._lo

    @property
    def hi(self):
        self._bounds()
        return self._hi

    @property
    def z(self):
        return CUR.poly_term(self.terms)

    def __add__(self, o):
        n = as_poly(o)
        if n is None:
            return NotImplemented
        t = dict(self.terms)
        if isinstance(n, int):
            t[()] = t.get((), 0) + n
        else:
            for k, c in n.terms.items():
                t[k] = t.get(k, 0) + c
        return mk_si(t)

    __radd__ = __add__

    def __neg__(self):
        return SI({k: -c for k, c in self.terms.items()})

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __sub__(self, o):
        n = as_poly(o)
        if n is None:
            return NotImplemented
        return self + (-n)

    def __rsub__(self, o):
        n = as_poly(o)
        if n is None:
            return NotImplemented
        return (-self) + n

    def __mul__(self, o):
        n = as_poly(o)
        if n is None:
            return NotImplemented
        if isinstance(n, int):
            return mk_si({k: c * n for k, c in self.terms.items()})
        return mk_si(_product(self.terms, n.terms))

    __rmul__ = __mul__

    def _bin_opaque(self, z, lo, hi):
        return opaque(z, lo, hi)

    def __floordiv__(self, o):
        o = concretize(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        if all(c % o == 0 for c in self.terms.values()):
            return mk_si({k: c // o for k, c in self.terms.items()})
        b = [None if x is None else x // o for x in (self.lo, self.hi)]
        return opaque(self.z / o, *b)

    def __mod__(self, o):
        o = concretize(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            raise Unsupported("mod negative")
        t = {k: c % o for k, c in self.terms.items()}
        r = mk_si(t)
        if isinstance(r, int):
            return r % o
        if r.lo is not None and r.lo >= 0 and r.hi < o:
            return r
        return opaque(self.z % o, 0, o - 1)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        o = concretize(o)
        if o == 0:
            raise ZeroDivisionError("division by zero")
        # exact only: int / int that divides evenly and is small enough that
        # the float is exact (|x| < 2**53); anything else is not encoded
        if (
            isinstance(o, int)
            and o > 0
            and (self % o) == 0
            and self.lo is not None
            and self.hi is not None
            and max(abs(self.lo), abs(self.hi)) < 2**53
        ):
            return self // o
        raise Unsupported("true division")

    def __pow__(self, o):
        o = concretize(o)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** concretize(self)

    def _cmp(self, o, op):
        n = as_poly(o)
        if n is None:
            return NotImplemented
        lo, hi = (n, n) if isinstance(n, int) else (n.lo, n.hi)
        if None not in (self.lo, self.hi, lo, hi):
            if op == "<":
                if self.hi < lo:
                    return True
                if self.lo >= hi:
                    return False
            elif op == "<=":
                if self.hi <= lo:
                    return True
                if self.lo > hi:
                    return False
            elif op == "==":
                if self.hi < lo or self.lo > hi:
                    return False
        d = self - n
        if isinstance(d, int):
            return {"<": d < 0, "<=": d <= 0, "==": d == 0}[op]
        d = mk_si(normalise(d.terms))
        if isinstance(d, int):
            return {"<": d < 0, "<=": d <= 0, "==": d == 0}[op]
        lo, hi = d.lo, d.hi
        if lo is not None:
            if op == "<":
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            elif op == "<=":
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            elif lo > 0 or hi < 0:
                return False
        # one variable: exact mask
        ks = [k for k in d.terms if k]
        if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0].base is not None:
            a = ks[0][0]
            c, c0 = d.terms[ks[0]], d.terms.get((), 0)
            m = 0
            for v, mm in a.groups():
                x = c * v + c0
                if x < 0 if op == "<" else x <= 0 if op == "<=" else x == 0:
                    m |= mm
            return sb_of(SB(a.base, m))
        pos = {k: c for k, c in d.terms.items() if c > 0}
        neg = {k: -c for k, c in d.terms.items() if c < 0}
        x, y = CUR.poly_term(pos), CUR.poly_term(neg)
        return SB(z=x < y if op == "<" else x <= y if op == "<=" else x == y)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return r if r is NotImplemented else sb_not(r)

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return r if r is NotImplemented else sb_not(r)

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "==")
        return True if r is NotImplemented else sb_not(r)

    def __bool__(self):
        return bool(self != 0)

    def concrete(self):
        """Fork until the value is fixed."""
        p = CUR
        if p.speculating:
            raise SpecAbort()
        t = self.z
        for _ in range(400):
            if p.query() != z3.sat:
                raise PathAbort()
            v = p._solver.model().eval(t, model_completion=True).as_long()
            if p.branch(SB(z=t == v)):
                return v
        raise Unsupported("integer has too many values")

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        return self.concrete()

    __int__ = __index__

    def __repr__(self):
        return "SI(%s)" % {
            tuple((a.base.name if a.base is not None else str(a.term)) for a in k): c
            for k, c in self.terms.items()
        }


# --------------------------------------------------------------------------
# finite-domain values


class U:
    """Value that is a function (table) of one input variable."""

    __slots__ = ("base", "table")

    def __init__(self, base, table):
        self.base = base
        self.table = table

    # -- inspection
    def feasible(self):
        """[(value, mask)] under the current path."""
        c = CUR.masks[self.base]
        t = self.table
        f = t._feas
        if f is not None and f[0] == c:
            return f[1]
        if self.base.n > 2048 and c.bit_count() < 64:
            out = {}
            for i in bits(c):
                v = t.values[i]
                if v is MISSING:
                    continue
                k = _key(v)
                out[k] = (v, out[k][1] | 1 << i) if k in out else (v, 1 << i)
            r = list(out.values())
        else:
            r = [(v, m & c) for v, m in t.groups.values() if m & c]
        t._feas = (c, r)
        return r

    def is_str(self):
        a = self.table._allstr
        if a is None:
            a = self.table._allstr = all(
                isinstance(v, str) for v in self.table.values if v is not MISSING
            )
        return a or all(isinstance(v, str) for v, _ in self.feasible())

    def where(self, pred):
        m = 0
        for v, mm in self.feasible():
            if pred(v):
                m |= mm
        return sb_of(SB(self.base, m))

    def simp(self):
        """Concrete when only one value is left."""
        f = self.feasible()
        if len(f) == 1:
            v = f[0][0]
            if isinstance(v, Raised):
                raise v.exc
            return v
        if not f:
            raise PathAbort()
        return self

    def settle(self):
        """Fork off the indices for which the operation raises."""
        if not self.table.raises():
            return self.simp()
        f = self.feasible()
        if any(isinstance(v, Raised) for v, _ in f):
            CUR.fork_groups(self, lambda v: _key(v) if isinstance(v, Raised) else 0)
        return self.simp()

    def map(self, fn, opkey=None):
        """Pointwise application of a pure function."""
        if opkey is None and self.base.n > MAXLIFT:
            c = CUR.masks[self.base]
            vals = [MISSING] * self.base.n
            for i in bits(c):
                v = self.table.values[i]
                if v is not MISSING:
                    try:
                        vals[i] = fn(v)
                    except Exception as e:
                        vals[i] = Raised(e)
            return U(self.base, Table(vals, self.table.root)).settle()
        if opkey is None:
            # only the feasible values
            vals = [MISSING] * self.base.n
            for v, m in self.feasible():
                try:
                    r = fn(v)
                except Exception as e:
                    r = Raised(e)
                for i in bits(m):
                    vals[i] = r
            return U(self.base, Table(vals, self.table.root)).settle()
        return U(self.base, self.table.mapped(opkey, fn)).settle()

    def truth(self):
        return self.where(bool)

    def __bool__(self):
        t = self.truth()
        return t if isinstance(t, bool) else bool(t)

    def concrete(self):
        f = self.feasible()
        if not f:
            raise PathAbort()
        if len(f) > 1:
            if len(f) > 3000:
                raise Unsupported("cannot enumerate %d values" % len(f))
            CUR.fork_groups(self, _key)
            f = self.feasible()
        v = f[0][0]
        if isinstance(v, Raised):
            raise v.exc
        return v

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        return self.concrete().__index__()

    def __int__(self):
        return int(self.concrete())

    def __len__(self):
        return len(self.concrete())

    # -- as integer
    def as_si(self):
        f = self.feasible()
        if not f:
            raise PathAbort()
        if not all(isinstance(v, int) for v, _ in f):
            raise Unsupported("not an integer: %r" % (f[0][0],))
        if len(f) == 1:
            return int(f[0][0])
        vals = [None] * self.base.n
        tv = self.table.values
        for i in bits(CUR.masks[self.base]):
            v = tv[i]
            if v is not MISSING:
                vals[i] = int(v)
            else:
                vals[i] = 0
        return SI({(mk_atom(self.base, tuple(vals)),): 1})

    # -- operators
    def _bin(self, o, fn, opname, rev=False):
        if isinstance(o, U):
            if o.base is self.base:
                vals = []
                for a, b in zip(self.table.values, o.table.values):
                    if a is MISSING or b is MISSING:
                        vals.append(MISSING)
                        continue
                    try:
                        vals.append(fn(b, a) if rev else fn(a, b))
                    except Exception as e:
                        vals.append(Raised(e))
                return U(self.base, Table(vals, self.table.root)).settle()
            return None
        if isinstance(o, (str, int, float, bool, type(None), tuple, list)):
            key = None
            if not isinstance(o, (list, tuple)):
                key = (opname, rev, type(o), o)
            return self.map((lambda v: fn(o, v)) if rev else (lambda v: fn(v, o)), key)
        return None

    def _strlike(self):
        return self.is_str()

    def __add__(self, o):
        if isinstance(o, (str, Cat)) or (isinstance(o, U) and o.is_str()):
            if self.is_str():
                return mkcat([self, o])
            if isinstance(o, str):
                return self.map(lambda v: v + o, None)
        r = self._bin(o, lambda a, b: a + b, "+")
        if r is None:
            return self.as_num() + o
        return r

    def __radd__(self, o):
        if isinstance(o, (str, Cat)) and self.is_str():
            return mkcat([o, self])
        r = self._bin(o, lambda a, b: a + b, "+", True)
        if r is None:
            return o + self.as_num()
        return r

    def as_num(self):
        s = self.as_si()
        return s

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b, "-")
        return self.as_num() - o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: a - b, "-", True)
        return o - self.as_num() if r is None else r

    def __mul__(self, o):
        r = self._bin(o, lambda a, b: a * b, "*")
        if r is None:
            return self.as_num() * o
        return r

    __rmul__ = __mul__

    def __floordiv__(self, o):
        r = self._bin(o, lambda a, b: a // b, "//")
        return self.as_num() // o if r is None else r

    def __truediv__(self, o):
        r = self._bin(o, lambda a, b: a / b, "/")
        return self.as_num() / o if r is None else r

    def __mod__(self, o):
        r = self._bin(o, lambda a, b: a % b, "%")
        return self.as_num() % o if r is None else r

    def __pow__(self, o):
        r = self._bin(o, lambda a, b: a**b, "**")
        return self.as_num() ** o if r is None else r

    def __rpow__(self, o):
        r = self._bin(o, lambda a, b: a**b, "**", True)
        if r is None:
            raise Unsupported("pow")
        return r

    def __neg__(self):
        return self.map(lambda v: -v, ("neg",))

    def _rel(self, o, fn, name):
        if isinstance(o, U) and o.base is self.base:
            m = 0
            c = CUR.masks[self.base]
            for i in bits(c):
                a, b = self.table.values[i], o.table.values[i]
                if a is not MISSING and b is not MISSING and fn(a, b):
                    m |= 1 << i
            return sb_of(SB(self.base, m))
        if isinstance(o, (int, str, float, type(None))):
            return self.where(lambda v: fn(v, o))
        if self.is_str() and isinstance(o, (U, Cat)):
            # one of the two texts value by value
            s = concretize(o)
            return self.where(lambda v: fn(v, s))
        return None

    def __lt__(self, o):
        r = self._rel(o, lambda a, b: a < b, "<")
        return self.as_num() < o if r is None else r

    def __le__(self, o):
        r = self._rel(o, lambda a, b: a <= b, "<=")
        return self.as_num() <= o if r is None else r

    def __gt__(self, o):
        r = self._rel(o, lambda a, b: a > b, ">")
        return self.as_num() > o if r is None else r

    def __ge__(self, o):
        r = self._rel(o, lambda a, b: a >= b, ">=")
        return self.as_num() >= o if r is None else r

    def __eq__(self, o):
        return sym_eq(self, o)

    def __ne__(self, o):
        return sb_not(sym_eq(self, o))

    def __iter__(self):
        f = self.feasible()
        if self.is_str():
            n = CUR.fork_groups(self, len)
            for i in range(n):
                yield self.map(lambda v, i=i: v[i], ("[]", i))
            return
        v = self.concrete()
        yield from v

    def __contains__(self, o):
        raise Unsupported("contains on union (uninstrumented)")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import rt

        return rt.bound(self, name)

    def __repr__(self):
        return "U(%s:%s)" % (self.base.name, [v for v, _ in self.feasible()][:4])

    def __str__(self):
        raise Unsupported("native str() of a symbolic value")

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic value")


def concretize(x):
    if isinstance(x, (U, SI)):
        return x.concrete()
    if isinstance(x, SB):
        return bool(x)
    if isinstance(x, Cat):
        return x.concrete()
    return x


# --------------------------------------------------------------------------
# strings


class IntStr:
    """Decimal rendering of a symbolic non-negative integer."""

    __slots__ = ("si",)

    def __init__(self, si):
        self.si = si

    def __repr__(self):
        return "IntStr(%r)" % (self.si,)


def mkcat(parts):
    """Normalised concatenation: str, U, or Cat."""
    out = []
    for p in parts:
        if isinstance(p, Cat):
            for q in p.parts:
                _push(out, q)
        else:
            _push(out, p)
    if not out:
        return ""
    if len(out) == 1 and not isinstance(out[0], IntStr):
        return out[0]
    return Cat(out)


def _push(out, p):
    if isinstance(p, U):
        p = p.simp()
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
        return
    if isinstance(p, IntStr):
        if isinstance(p.si, int):
            return _push(out, str(p.si))
        out.append(p)
        return
    if isinstance(p, U):
        if not p.is_str():
            raise Unsupported("concatenating a non-string union")
        out.append(p)
        return
    raise TypeError("cannot concatenate %s" % type(p).__name__)


def part_bases(parts):
    return {p.base for p in parts if isinstance(p, U)}


class Cat:
    """Concatenation of strings, string unions and rendered integers."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def simp(self):
        return mkcat(self.parts)

    def concrete(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, U):
                out.append(p.concrete())
            else:
                out.append(str(p.si.concrete()))
        return "".join(out)

    def flat(self):
        """A single U when all symbolic parts share one base, else None."""
        bs = part_bases(self.parts)
        if len(bs) != 1 or any(isinstance(p, IntStr) for p in self.parts):
            return None
        (b,) = bs
        vals = []
        c = CUR.masks[b]
        if c.bit_count() > 20000:
            return None
        vals = [MISSING] * b.n
        for i in bits(c):
            s = ""
            for p in self.parts:
                if isinstance(p, str):
                    s += p
                else:
                    v = p.table.values[i]
                    if v is MISSING:
                        s = MISSING
                        break
                    s += v
            vals[i] = s
        root = next(p for p in self.parts if isinstance(p, U)).table.root
        return U(b, Table(vals, root)).simp()

    def truth(self):
        r = False
        for p in self.parts:
            if isinstance(p, (str, IntStr)):
                return True
            r = sb_or(r, p.truth())
        return r

    def __bool__(self):
        return bool(self.truth())

    def __hash__(self):
        return hash(self.concrete())

    def __add__(self, o):
        return mkcat([self, o])

    def __radd__(self, o):
        return mkcat([o, self])

    def __mul__(self, n):
        return mkcat([self] * concretize(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        return sym_eq(self, o)

    def __ne__(self, o):
        return sb_not(sym_eq(self, o))

    def __lt__(self, o):
        return self.concrete() < concretize(o)

    def __gt__(self, o):
        return self.concrete() > concretize(o)

    def __le__(self, o):
        return self.concrete() <= concretize(o)

    def __ge__(self, o):
        return self.concrete() >= concretize(o)

    def __len__(self):
        from . import strs

        return concretize(strs.length(self))

    def __iter__(self):
        from . import strs

        return strs.iterate(self)

    def __getitem__(self, k):
        from . import strs

        return strs.getitem(self, k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import rt

        return rt.bound(self, name)

    def __repr__(self):
        return "Cat(%r)" % (self.parts,)

    def __str__(self):
        raise Unsupported("native str() of a symbolic value")

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic value")


# --------------------------------------------------------------------------
# equality


def sym_eq(a, b):
    """Equality of arbitrary (possibly symbolic) values as SB/bool."""
    if isinstance(a, U) and isinstance(b, U) and a.base is b.base:
        if a.table is b.table:
            return True
        r = a._rel(b, lambda x, y: type(x) is not MISSING and x == y, "==")
        return r
    if isinstance(a, (U, SI, SB)) and isinstance(b, SI):
        return _int_eq(a, b)
    if isinstance(a, SI):
        return _int_eq(b, a)
    if isinstance(a, SB) or isinstance(b, SB):
        if isinstance(b, SB):
            a, b = b, a
        if isinstance(b, U):
            return sb_any(
                [sb_and(b.where(bool), a), sb_and(b.where(lambda v: not v), sb_not(a))]
            )
        return a == b
    if isinstance(a, U) and isinstance(b, U):
        # different variables: match value by value
        fa, fb = a.feasible(), b.feasible()
        kb = {}
        for v, m in fb:
            kb[_eqkey(v)] = kb.get(_eqkey(v), 0) | m
        alts = []
        ka = {}
        for v, m in fa:
            ka[_eqkey(v)] = ka.get(_eqkey(v), 0) | m
        for k, m in ka.items():
            if k in kb:
                alts.append(sb_and(SB(a.base, m), SB(b.base, kb[k])))
        return sb_any(alts)
    if isinstance(b, U):
        a, b = b, a
    if isinstance(a, U):
        if isinstance(b, Cat):
            return cat_eq(mkcat([a]), b)
        if isinstance(b, (str, int, type(None), float)):
            return a.where(lambda v: v == b)
        if isinstance(b, (list, tuple, dict)):
            return a.where(lambda v: type(v) is type(b) and v == b)
        return a.where(lambda v: v == b)
    if isinstance(a, Cat) or isinstance(b, Cat):
        if not isinstance(a, Cat):
            a, b = b, a
        if isinstance(b, (str, Cat)):
            return cat_eq(a, b)
        return False
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return sb_all([sym_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a.keys()) != list(b.keys()) and set(a) != set(b):
            return False
        return sb_all([sym_eq(a[k], b[k]) for k in a])
    return a == b


def _eqkey(v):
    if isinstance(v, bool):
        v = int(v)
    return _key(v)


def _int_eq(x, si):
    """si (SI) == x"""
    if isinstance(x, U):
        m = 0
        for v, mm in x.feasible():
            if isinstance(v, int):
                m |= mm
        if not m:
            return False
        allint = sb_of(SB(x.base, m))
        if allint is not True and not bool(allint):
            return False
    r = si._cmp(x, "==")
    return False if r is NotImplemented else r


def _aslist(x):
    if isinstance(x, Cat):
        return list(x.parts)
    if x == "" if isinstance(x, str) else False:
        return []
    return [x]


def cat_eq(a, b):
    """Equality of two string expressions."""
    conds = []
    A = _aslist(a.simp() if isinstance(a, Cat) else a)
    B = _aslist(b.simp() if isinstance(b, Cat) else b)
    while A and B:
        x, y = A[0], B[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            A[0:1] = [x[n:]] if x[n:] else []
            B[0:1] = [y[n:]] if y[n:] else []
            continue
        if isinstance(x, IntStr) or isinstance(y, IntStr):
            if not isinstance(x, IntStr):
                x, y, A, B = y, x, B, A
            # what may follow must not be able to start with a digit
            if isinstance(y, IntStr):
                if _may_start_digit(A[1:]) or _may_start_digit(B[1:]):
                    raise Unsupported("ambiguous digits")
                c = sym_eq(x.si, y.si)
                del A[0], B[0]
            elif isinstance(y, str):
                i = 0
                while i < len(y) and y[i].isdigit() and y[i].isascii():
                    i += 1
                if i == 0:
                    return False
                if _may_start_digit(A[1:]) or (
                    i == len(y) and _may_start_digit(B[1:])
                ):
                    raise Unsupported("ambiguous digits")
                if i > 1 and y[0] == "0":
                    return False
                c = sym_eq(x.si, int(y[:i]))
                del A[0]
                B[0:1] = [y[i:]] if y[i:] else []
            elif _digit_run(B) is not None and not _may_start_digit(A[1:]):
                n, val, first, rest = _digit_run(B)
                c = sym_eq(x.si, val)
                if n > 1:
                    c = sb_and(c, sb_not(sym_eq(first, "0")))
                del A[0]
                B[:] = rest
            else:  # U: fork on its value
                if any(v[:1].isdigit() for v, _ in y.feasible()):
                    B[0] = y.concrete()
                    if not B[0]:
                        del B[0]
                    continue
                ne = y.where(lambda v: v == "")
                if ne is False:
                    return False
                if ne is True or bool(ne):
                    del B[0]
                    continue
                return False
            if c is False:
                return False
            conds.append(c)
            continue
        if isinstance(x, U) and isinstance(y, U):
            if x.base is y.base:
                d = [
                    i
                    for i in bits(CUR.masks[x.base])
                    if x.table.values[i] is not MISSING
                    and y.table.values[i] is not MISSING
                    and len(x.table.values[i]) != len(y.table.values[i])
                ]
                if not d:
                    c = sym_eq(x, y)
                    if c is False:
                        return False
                    conds.append(c)
                    del A[0], B[0]
                    continue
            la = {len(v) for v, _ in x.feasible()}
            lb = {len(v) for v, _ in y.feasible()}
            if la == lb and len(la) == 1:
                c = sym_eq(x, y)
                if c is False:
                    return False
                conds.append(c)
                del A[0], B[0]
                continue
            if len(A) == 1 and len(B) == 1:
                c = sym_eq(x, y)
                if c is False:
                    return False
                conds.append(c)
                A, B = [], []
                continue
            if (
                _all_digits(x)
                and _all_digits(y)
                and not _may_start_digit(A[1:])
                and not _may_start_digit(B[1:])
            ):
                # two maximal runs of digits
                c = sym_eq(x, y)
                if c is False:
                    return False
                conds.append(c)
                del A[0], B[0]
                continue
            if len(la) == 1 and len(lb) == 1:
                (n,) = (min(min(la), min(lb)),)
                if not n:
                    del (A if min(la) == 0 else B)[0]
                    continue
                for L, u, k in ((A, x, min(la)), (B, y, min(lb))):
                    if k > n:
                        L[0:1] = [u.map(lambda v: v[:n]), u.map(lambda v: v[n:])]
                        L[0:1] = _aslist(mkcat(L[0:1]))
                        L[0:2] = _aslist(mkcat(L[0:2]))
                continue
            # fork on lengths, shorter list of alternatives first
            if len(la) > 1:
                CUR.fork_groups(x, len)
            else:
                CUR.fork_groups(y, len)
            continue
        # U against str
        if isinstance(x, str):
            x, y, A, B = y, x, B, A
        # x: U, y: str
        if all(not isinstance(p, (U, IntStr)) for p in B):
            # B is a constant: exact formula
            c = match_const(A, "".join(B))
            if c is None:
                raise Unsupported("match")
            conds.append(c)
            A, B = [], []
            break
        ok = {}
        m_ok = 0
        for v, m in x.feasible():
            n = min(len(v), len(y))
            if v[:n] == y[:n]:
                m_ok |= m
                ok[len(v)] = ok.get(len(v), 0) | m
        if not m_ok:
            return False
        if len(ok) == 1:
            (L,) = ok
            if L <= len(y):
                c = sb_of(SB(x.base, m_ok))
                conds.append(c)
                del A[0]
                B[0:1] = [y[L:]] if y[L:] else []
                continue
        # several lengths possible: fork on which
        c = sb_of(SB(x.base, m_ok))
        if c is not True and not bool(c):
            return False
        L = CUR.fork_groups(x, len)
        if L > len(y):
            v = x.concrete()
            A[0] = v
    for R in (A, B):
        for p in R:
            if isinstance(p, (str, IntStr)):
                return False
            c = p.where(lambda v: v == "")
            if c is False:
                return False
            conds.append(c)
    return sb_all(conds)


def _digit_run(parts):
    """A leading run of digits that ends before something else: (length,
    value, first character, what follows), or None."""
    n = 0
    pieces = []
    first = None
    rest = []
    for i, p in enumerate(parts):
        if isinstance(p, str):
            k = 0
            while k < len(p) and p[k] in "0123456789":
                k += 1
            if k:
                if first is None:
                    first = p[0]
                pieces.append((int(p[:k]), k))
            if k < len(p):
                rest = [p[k:]] + list(parts[i + 1 :])
                break
            continue
        if not isinstance(p, U):
            return None
        f = p.feasible()
        ls = {len(v) for v, _ in f}
        if len(ls) != 1 or 0 in ls:
            return None
        if all(v.isdigit() and v.isascii() for v, _ in f):
            if first is None:
                first = p.map(lambda v: v[0])
            pieces.append((p.map(int), ls.pop()))
            continue
        if any(v[0].isdigit() for v, _ in f):
            return None
        rest = list(parts[i:])
        break
    if first is None:
        return None
    n = sum(k for _, k in pieces)
    val = 0
    for v, k in pieces:
        val = val * 10**k + v
    return n, val, first, rest


def _all_digits(u):
    return all(isinstance(v, str) and v.isdigit() for v, _ in u.feasible())


def _may_start_digit(parts):
    for p in parts:
        if isinstance(p, str):
            return p[:1].isdigit()
        if isinstance(p, IntStr):
            return True
        f = p.feasible()
        if any(v[:1].isdigit() for v, _ in f):
            return True
        if any(v == "" for v, _ in f):
            continue
        return False
    return False


def match_const(parts, s, prefix=False):
    """Formula: the concatenation of parts equals s (or starts with s)."""
    state = {0: True}  # consumed -> condition
    done = False
    for p in parts:
        new = {}
        if isinstance(p, str):
            for pos, c in state.items():
                if prefix and len(s) - pos <= len(p):
                    if p.startswith(s[pos:]):
                        done = sb_or(done, c)
                    continue
                if s.startswith(p, pos):
                    q = pos + len(p)
                    new[q] = sb_or(new.get(q, False), c)
        elif isinstance(p, IntStr):
            for pos, c in state.items():
                e = pos
                while e < len(s) and s[e].isdigit() and s[e].isascii():
                    e += 1
                # every split of the digit run
                for q in range(pos + 1, e + 1):
                    d = s[pos:q]
                    if len(d) > 1 and d[0] == "0":
                        continue
                    new[q] = sb_or(
                        new.get(q, False), sb_and(c, sym_eq(p.si, int(d)))
                    )
                if prefix and e == len(s):
                    raise Unsupported("prefix match inside a rendered integer")
        else:
            f = p.feasible()
            for pos, c in state.items():
                by = {}
                dm = 0
                for v, m in f:
                    if prefix and len(s) - pos <= len(v):
                        if v.startswith(s[pos:]):
                            dm |= m
                        continue
                    if s.startswith(v, pos):
                        q = pos + len(v)
                        by[q] = by.get(q, 0) | m
                if dm:
                    done = sb_or(done, sb_and(c, SB(p.base, dm)))
                for q, m in by.items():
                    new[q] = sb_or(new.get(q, False), sb_and(c, SB(p.base, m)))
        state = {q: c for q, c in new.items() if c is not False}
        if not state:
            break
    if prefix:
        return sb_or(done, state.get(len(s), False))
    return state.get(len(s), False)
