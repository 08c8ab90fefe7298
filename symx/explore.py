"""Path exploration: harness objects, workers, scheduling."""
import json
import multiprocessing
import os
import signal
import sys
import threading
import time
import traceback
from multiprocessing.connection import wait

import z3

from . import core, loader
from .core import (
    EngineExit,
    Hang,
    PathAbort,
    SB,
    SI,
    Cat,
    IntStr,
    Path,
    Stats,
    Table,
    U,
    Unsupported,
    Violation,
    sb_of,
)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Outcome:
    """Result of a call: `exc` is None when it returned."""

    def __init__(self, value, exc):
        self.value = value
        self.exc = exc

    @property
    def kind(self):
        return None if self.exc is None else type(self.exc).__name__


PATH_SECONDS = 40  # CPU time of one path
CALL_SECONDS = 15  # CPU time of one call of the real code


class timed:
    """Raises Hang after some seconds of CPU time."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            signal.signal(signal.SIGPROF, ring)
            self.before = signal.setitimer(signal.ITIMER_PROF, self.seconds)[0]
        return self

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_PROF, self.before)
        return False


def ring(*a):
    raise Hang()


class Broken(Exception):
    """A property violation seen in a concrete run."""


_TABLES = {}


def intern_table(values):
    t = _TABLES.get(id(values))
    if t is None or t[0] is not values:
        k = tuple(values)
        t2 = _TABLES.get(k)
        if t2 is None:
            t2 = _TABLES[k] = (k, Table(list(k), persist=True))
        t = (values, t2[1])
        _TABLES[id(values)] = t
    return t[1]


class SymH:
    """Harness interface, symbolic."""

    symbolic = True
    symbolic_marker = True

    def __init__(self, pkg, path, tier):
        self.pkg = pkg
        self.path = path
        self.tier = tier
        self.calls = []
        self.choices = {}

    def word(self, name, values):
        """A symbolic value ranging over `values`."""
        b = self.path.new_base(name, intern_table(values))
        return U(b, b.table).simp()

    def choice(self, name, options):
        """One of `options`, by forking."""
        i = self.path.choose(len(options))
        self.choices[name] = i
        return options[i]

    def assume(self, c):
        c = sb_of(c)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.path.add(c, True)
        if c.base is None and not (c.box is not None and c.pos):
            if self.path.query() == z3.unsat:
                raise PathAbort()
        elif c.base is not None and not self.path.masks[c.base]:
            raise PathAbort()

    def api(self):
        return self.pkg.load("number_parser")

    def call(self, name, *args, **kw):
        f = getattr(self.api(), name)
        try:
            o = Outcome(f(*args, **kw), None)
        except MemoryError:
            raise Unsupported("memory")
        except Exception as e:
            o = Outcome(None, e)
        self.calls.append((name, args, kw, o))
        return o

    def call_in(self, module, name, *args):
        """A function of another module of the package under test."""
        try:
            m = self.pkg.load(module)
        except (Unsupported, PathAbort, Violation, MemoryError):
            raise
        except Exception as e:
            if isinstance(e, ModuleNotFoundError) and e.name and module.startswith(e.name):
                raise Unsupported("there is no %s any more" % module)
            self.fail("loading %s raised %s: %s" % (module, type(e).__name__, e))
        f = getattr(m, name, None)
        if f is None:
            raise Unsupported("there is no %s.%s any more" % (module, name))
        try:
            o = Outcome(f(*args), None)
        except MemoryError:
            raise Unsupported("memory")
        except Exception as e:
            o = Outcome(None, e)
        self.calls.append((name, args, {}, o))
        return o

    def value(self, name, *args, **kw):
        """Result of a call that must not raise."""
        o = self.call(name, *args, **kw)
        if o.exc is not None:
            self.fail("%s raised %s: %s" % (name, type(o.exc).__name__, o.exc))
        return o.value

    def reset(self):
        """Forget all module state of the code under test."""
        self.pkg.fresh()

    def files(self):
        """The files of the table generator."""
        return self.pkg.files()

    def module(self, name):
        return self.pkg.load(name)

    def race(self, a, b, steps=range(4096)):
        """Call `a`, interrupted before one of its statements by all of `b`.

        The number of the statement is symbolic.  Returns the two outcomes and
        those of the calls on their own.
        """
        alone = []
        for c in (a, b):
            self.reset()
            alone.append(self.call(*c))
        self.reset()
        self.api()
        p = self.path
        self.word("statement", steps)
        base = p.bases["statement"]
        n = 0
        ob = None

        def step(first, last):
            nonlocal n, ob
            if p.speculating:
                raise core.SpecAbort()
            if n >= base.n:
                raise Unsupported("more than %d statements" % base.n)
            bit = 1 << n
            n += 1
            if p.choose(2):
                p.masks[base] = bit
                p.race = None
                self.choices["lines"] = [first, last]
                p.who = 1
                ob = self.call(*b)
                p.who = 0
            else:
                p.masks[base] &= ~bit

        p.race = step
        oa = self.call(*a)
        p.race = None
        if ob is None:
            p.masks[base] = 1 << n
            ob = self.call(*b)
        self.calls[-2:] = sorted(self.calls[-2:], key=lambda c: c[3] is not oa)
        return oa, ob, alone[0], alone[1]

    def overlap(self, a, b, steps=range(4096)):
        """Call `a` is left before one of its statements, `b` before one of
        its own; then the rest of `a`, then the rest of `b`.

        Both numbers are symbolic.  `b` runs in a thread of its own, one of
        the two at a time.
        """
        alone = []
        for c in (a, b):
            self.reset()
            alone.append(self.call(*c))
        self.reset()
        self.api()
        p = self.path
        bases = []
        for n in ("statement", "statement of the other"):
            self.word(n, steps)
            bases.append(p.bases[n])
        count = [0, 0]
        go = [threading.Semaphore(0), threading.Semaphore(0)]
        box = []
        state = {"left": False, "stop": False, "thread": None}

        def at(who, first, last):
            if p.speculating:
                raise core.SpecAbort()
            base, n = bases[who], count[who]
            if n >= base.n:
                raise Unsupported("more than %d statements" % base.n)
            count[who] += 1
            if p.choose(2):
                p.masks[base] = 1 << n
                self.choices[("lines", "lines of the other")[who]] = [first, last]
                return True
            p.masks[base] &= ~(1 << n)
            return False

        def step_b(first, last):
            if at(1, first, last):
                state["left"] = True
                p.race = None
                p.who = 0
                go[0].release()
                go[1].acquire()
                if state["stop"]:
                    raise PathAbort()
                p.who = 1

        def other():
            try:
                box.append(self.call(*b))
            except BaseException as e:
                box.append(e)
            go[0].release()

        def step_a(first, last):
            if at(0, first, last):
                p.race = step_b
                p.who = 1
                t = state["thread"] = threading.Thread(target=other, daemon=True)
                t.start()
                go[0].acquire()
                p.race = None
                p.who = 0
                if box and isinstance(box[0], BaseException):
                    raise box[0]
                if not state["left"]:
                    # a call within the other, see race
                    raise PathAbort()

        p.race = step_a
        try:
            oa = self.call(*a)
            p.race = None
            if state["thread"] is None:
                raise PathAbort()
            p.who = 1
            go[1].release()
            go[0].acquire()
        finally:
            p.race = None
            p.who = 0
            if state["thread"] is not None and not box:
                state["stop"] = True
                go[1].release()
                state["thread"].join(10)
        if isinstance(box[0], BaseException):
            raise box[0]
        return oa, box[0], alone[0], alone[1]

    def fail(self, msg):
        a = self.path.model_assignment()
        if a is None:
            raise PathAbort()
        raise Violation(msg, {**a, **self.choices})

    def check(self, c, msg):
        self.path.stats.checks += 1
        c = sb_of(c)
        if c is True:
            return
        if c is False:
            self.fail(msg)
        r = self.path.query(z3.Not(c.z))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise Unsupported("solver: unknown")
        a = self.path.model_assignment(z3.Not(c.z))
        raise Violation(msg, {**a, **self.choices})

    def same(self, a, b):
        from . import rt

        return rt.eq(a, b)


def same_outcome(x, y):
    if x.exc is not None or y.exc is not None:
        return type(x.exc) is type(y.exc)
    return x.value == y.value and type(x.value) is type(y.value)


class ConcH:
    """The same interface on concrete values and the untouched code."""

    symbolic = False

    def __init__(self, pkg, assignment, tier):
        self.pkg = pkg
        self.a = assignment
        self.tier = tier
        self.calls = []
        self.thorough = False

    def word(self, name, values):
        return values[self.a.get(name, 0)]

    def choice(self, name, options):
        return options[self.a.get(name, 0)]

    def assume(self, c):
        if not c:
            raise PathAbort()

    def race(self, a, b, steps=None):
        """The same with a thread, at a line of the untouched code."""
        alone = []
        for c in (a, b):
            self.reset()
            alone.append(self.call(*c))
        lines = self.a.get("lines")
        keep = len(self.calls)
        end = time.time() + 30
        # statements and lines do not correspond exactly: first the lines of
        # the statement, then every line
        for where in (lines, None) if self.thorough and lines else (lines,):
            at = 0
            while True:
                del self.calls[keep:]
                oa, ob, total = self._race(a, b, at, where)
                if not (same_outcome(oa, alone[0]) and same_outcome(ob, alone[1])):
                    return oa, ob, alone[0], alone[1]
                if at >= total or not self.thorough or time.time() > end:
                    break
                at += 1
        return oa, ob, alone[0], alone[1]

    def _race(self, a, b, at, lines):
        root = os.path.join(self.pkg.root, "number_parser")
        self.reset()
        self.api()
        n = 0
        box = []
        thread = None

        def other():
            box.append(self.call(*b))

        def trace(frame, event, arg):
            nonlocal n, thread
            code = frame.f_code
            if not code.co_filename.startswith(root) or code.co_name.startswith("<"):
                return None
            if event == "line" and (not lines or lines[0] <= frame.f_lineno <= lines[1]):
                if n == at:
                    thread = threading.Thread(target=other, daemon=True)
                    thread.start()
                    thread.join(2)
                n += 1
            return trace

        sys.settrace(trace)
        try:
            oa = self.call(*a)
        finally:
            sys.settrace(None)
        if thread is None:
            other()
        else:
            thread.join(20)
        self.calls[-2:] = sorted(self.calls[-2:], key=lambda c: c[3] is not oa)
        if not box:
            return oa, Outcome(None, TimeoutError()), n
        return oa, box[0], n

    def overlap(self, a, b, steps=None):
        """The same with threads, at lines of the untouched code."""
        alone = []
        for c in (a, b):
            self.reset()
            alone.append(self.call(*c))
        one, two = self.a.get("lines"), self.a.get("lines of the other")
        keep = len(self.calls)
        end = time.time() + 60
        for ra, rb in ((one, two), (one, None), (None, None)) if self.thorough and one else ((one, two),):
            i = 0
            while True:
                j = 0
                while True:
                    del self.calls[keep:]
                    oa, ob, na, nb = self._overlap(a, b, i, j, ra, rb)
                    if not (same_outcome(oa, alone[0]) and same_outcome(ob, alone[1])):
                        return oa, ob, alone[0], alone[1]
                    j += 1
                    if j >= nb or not self.thorough or time.time() > end:
                        break
                i += 1
                if i >= na or not self.thorough or time.time() > end:
                    break
        return oa, ob, alone[0], alone[1]

    def _overlap(self, a, b, i, j, la, lb):
        root = os.path.join(self.pkg.root, "number_parser")
        self.reset()
        self.api()
        n = [0, 0]
        go = [threading.Semaphore(0), threading.Semaphore(0)]
        box = []
        thread = []

        def tracer(who, limit, lines, at):
            def trace(frame, event, arg):
                code = frame.f_code
                if not code.co_filename.startswith(root) or code.co_name.startswith("<"):
                    return None
                if event == "line" and (not lines or lines[0] <= frame.f_lineno <= lines[1]):
                    n[who] += 1
                    if n[who] == limit + 1:
                        at()
                return trace

            return trace

        def leave():
            go[0].release()
            go[1].acquire(timeout=20)

        def other():
            sys.settrace(tracer(1, j, lb, leave))
            try:
                box.append(self.call(*b))
            finally:
                sys.settrace(None)
                go[0].release()

        def start():
            thread.append(threading.Thread(target=other, daemon=True))
            thread[0].start()
            go[0].acquire(timeout=2)

        sys.settrace(tracer(0, i, la, start))
        try:
            oa = self.call(*a)
        finally:
            sys.settrace(None)
        if thread:
            go[1].release()
            thread[0].join(20)
        else:
            box.append(self.call(*b))
        self.calls[-2:] = sorted(self.calls[-2:], key=lambda c: c[3] is not oa)
        if not box:
            return oa, Outcome(None, TimeoutError()), n[0], n[1]
        return oa, box[0], n[0], n[1]

    files = SymH.files
    module = SymH.module
    api = SymH.api

    def call(self, name, *args, **kw):
        try:
            with timed(CALL_SECONDS):
                return SymH.call(self, name, *args, **kw)
        except Hang:
            raise Broken(name + " does not return")

    def call_in(self, module, name, *args):
        try:
            with timed(CALL_SECONDS):
                return SymH.call_in(self, module, name, *args)
        except Hang:
            raise Broken(name + " does not return")

    value = SymH.value

    def reset(self):
        self.pkg.fresh()

    def fail(self, msg):
        raise Broken(msg)

    def check(self, c, msg):
        if not c:
            raise Broken(msg)

    def same(self, a, b):
        return a == b


# --------------------------------------------------------------------------


def eval_sym(x, model, assignment):
    """Value of a symbolic result under a model."""
    if isinstance(x, U):
        v = x.table.values[assignment[x.base.name]]
        return v
    if isinstance(x, SI):
        n = 0
        for k, c in x.terms.items():
            for a in k:
                if a.base is not None:
                    c *= a.values[assignment[a.base.name]]
                else:
                    c *= model.eval(a.term, model_completion=True).as_long()
            n += c
        return n
    if isinstance(x, SB):
        return z3.is_true(model.eval(x.z, model_completion=True))
    if isinstance(x, Cat):
        out = ""
        for p in x.parts:
            if isinstance(p, IntStr):
                v = p.si
                out += str(v if isinstance(v, int) else eval_sym(v, model, assignment))
            else:
                out += p if isinstance(p, str) else eval_sym(p, model, assignment)
        return out
    if isinstance(x, (list, tuple)):
        return type(x)(eval_sym(e, model, assignment) for e in x)
    return x


class Runner:
    """Runs paths of the jobs of one property in this process."""

    def __init__(self, propmod, tier, root=None):
        root = root or loader.ROOT
        self.tier = tier
        self.sym = loader.SymPackage(root)
        self.nat = loader.SymPackage(root, symbolic=False)
        self.hsym = loader.SymPackage(HERE, ("props", "spec"))
        self.hnat = loader.SymPackage(HERE, ("props", "spec"), symbolic=False)
        # prefer code generators next to the package
        for p in (self.sym, self.nat):
            p.tops = ("number_parser", "number_parser_scripts")
        self.modname = "props." + propmod
        with open(os.path.join(HERE, "props", propmod + ".py"), encoding="utf-8") as fh:
            self.sym.ticks = "h.race(" in fh.read()
        self._shared = None
        core.CUR = Path([], Stats(), {})
        self.hs = self.hsym.load(self.modname)
        self.hn = self.hnat.load(self.modname)
        self.jobs = self.hn.jobs(tier)
        self.caches = {}

    def concrete(self, ji, assignment, thorough=True):
        """-> (violation message or None, calls)"""
        name, fname, params = self.jobs[ji][:3]
        saved, core.CUR = core.CUR, None
        h = ConcH(self.nat.fresh(), assignment, self.tier)
        h.thorough = thorough
        try:
            msg, h = self._concrete(fname, params, h)
            again = self.confirmation(fname, params)
            if msg is not None and again is not None:
                # a step of the code under test is not what was expected of
                # it: a violation only if its observable result is not
                g = ConcH(self.nat.fresh(), assignment, self.tier)
                g.thorough = thorough
                msg, g = self._concrete(fname, again, g)
                if msg is not None:
                    return msg, g
            return msg, h
        finally:
            core.CUR = saved

    def confirmation(self, fname, params):
        """The parameters of the job that looks at the observable result."""
        import inspect

        given = inspect.signature(getattr(self.hn, fname)).parameters
        for name, (step, whole) in getattr(self.hn, "CONFIRM", {}).items():
            if name in given and params.get(name, given[name].default) == step:
                return {**params, name: whole}
        return None

    def _concrete(self, fname, params, h):
        try:
            getattr(self.hn, fname)(h, **params)
        except Broken as e:
            return str(e), h
        except (PathAbort, Unsupported):
            return None, h
        return None, h

    def run(self, ji, prefix, stats, validate=True):
        """Execute one path; returns (pending prefixes, violation or None)."""
        name, fname, params = self.jobs[ji][:3]
        path = Path(prefix, stats, self.caches.setdefault(ji, {}))
        core.CUR = path
        h = SymH(self.sym.fresh(), path, self.tier)
        viol = None
        stats.paths += 1
        unsup = None
        try:
            with timed(PATH_SECONDS):
                getattr(self.hs, fname)(h, **params)
        except PathAbort:
            stats.aborted += 1
            return path.pending, None
        except Hang:
            unsup = "time of the path is over"
            # what the rest of the path would look like is not known
            path.speculating = 0
        except Violation as v:
            viol = v
        except Unsupported as e:
            unsup = str(e)
        except RecursionError:
            unsup = "recursion"
        except z3.Z3Exception as e:
            unsup = "z3: %s" % e
        except EngineExit as e:
            unsup = "engine: %r" % e
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            unsup = "internal %s: %s (%s:%s)" % (
                type(e).__name__,
                e,
                os.path.basename(tb.filename),
                tb.lineno,
            )
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        try:
            return path.pending, self.conclude(ji, path, h, viol, unsup, stats, validate)
        except z3.Z3Exception as e:
            stats.unsupported += 1
            return path.pending, None

    def conclude(self, ji, path, h, viol, unsup, stats, validate):
        if viol is not None:
            msg, hc = self.concrete(ji, viol.assignment)
            if msg is not None:
                return self.found(ji, viol.assignment, msg, hc, viol.msg)
            stats.mismatch += 1
            k = "counterexample did not reproduce: " + viol.msg[:80]
            stats.unsup_msgs[k] = stats.unsup_msgs.get(k, 0) + 1
            if os.environ.get("SYMX_DEBUG") and stats.mismatch < 3:
                print("NOREPRO", viol.msg, viol.assignment, self.describe(ji, viol.assignment))
            return None
        if unsup is not None:
            stats.unsupported += 1
            k = unsup[:160]
            stats.unsup_msgs[k] = stats.unsup_msgs.get(k, 0) + 1
            # the rest of the path is tried on some of its models
            n = 0
            extra = []
            while n < 6:
                a = path.model_assignment(*extra)
                if a is None:
                    break
                aa = {**a, **h.choices}
                msg, hc = self.concrete(ji, aa)
                if msg is not None:
                    return self.found(ji, aa, msg, hc, msg)
                n += 1
                blk = [
                    b.z != a[nm] for nm, b in path.bases.items() if b.n > 1
                ]
                if not blk:
                    break
                extra.append(z3.Or(*blk) if n % 2 else blk[n // 2 % len(blk)])
            return None
        # reachability witness and validation of the encoding
        a = path.model_assignment()
        if a is None:
            if stats.unknown == 0:
                stats.aborted += 1
            return None
        stats.sat_paths += 1
        if validate:
            model = path._solver.model()
            aa = {**a, **h.choices}
            msg, hc = self.concrete(ji, aa, False)
            if msg is not None:
                return self.found(ji, aa, msg, hc, msg)
            ok = len(hc.calls) == len(h.calls)
            if ok:
                for (n1, a1, k1, o1), (n2, a2, k2, o2) in zip(h.calls, hc.calls):
                    if (o1.exc is None) != (o2.exc is None):
                        ok = False
                        break
                    if o1.exc is not None:
                        ok = type(o1.exc) is type(o2.exc)
                        continue
                    v1 = eval_sym(o1.value, model, a)
                    if v1 != o2.value or (
                        type(v1) is not type(o2.value)
                        and not isinstance(v1, (int, bool))
                    ):
                        ok = False
                        break
            if ok:
                stats.validated += 1
            else:
                stats.mismatch += 1
                k = "encoding disagrees with the real code"
                stats.unsup_msgs[k] = stats.unsup_msgs.get(k, 0) + 1
                if os.environ.get("SYMX_DEBUG") and stats.mismatch < 3:
                    print("DISAGREE", self.describe(ji, aa))
                    for x, y in zip(h.calls, hc.calls):
                        print("   ", x[0], y[1], [eval_sym(x[3].value, model, a), x[3].exc], [y[3].value, y[3].exc])
        return None

    def describe(self, ji, a):
        msg, h = self.concrete(ji, a)
        return [
            {
                "call": "%s(%s)" % (n, ", ".join(repr(x) for x in ar)),
                "result": repr(o.value) if o.exc is None else repr(o.exc),
            }
            for n, ar, kw, o in h.calls
        ]

    def found(self, ji, assignment, msg, h, symmsg):
        return {
            "job": self.jobs[ji][0],
            "assignment": assignment,
            "message": msg,
            "calls": [
                {
                    "call": "%s(%s)"
                    % (
                        n,
                        ", ".join(
                            [repr(x) for x in ar]
                            + ["%s=%r" % kv for kv in kw.items()]
                        ),
                    ),
                    "result": repr(o.value) if o.exc is None else repr(o.exc),
                }
                for n, ar, kw, o in h.calls
            ],
        }

    def sample(self, ji, prefix):
        """A concrete instance of a path, for the evidence."""
        st = Stats()
        name, fname, params = self.jobs[ji][:3]
        path = Path(prefix, st, self.caches.setdefault(ji, {}))
        core.CUR = path
        h = SymH(self.sym.fresh(), path, self.tier)
        try:
            getattr(self.hs, fname)(h, **params)
            a = path.model_assignment()
        except BaseException:
            return None
        if a is None:
            return None
        return {"job": name, "calls": self.describe(ji, {**a, **h.choices})[:6]}


def worker(conn, propmod, tier, vfrac):
    try:
        import resource

        lim = 3500 * 2**20
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    sys.setrecursionlimit(4000)
    # what the code under test prints
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        r = Runner(propmod, tier)
    except BaseException:
        conn.send(("error", traceback.format_exc()))
        return
    conn.send(("ready", [(j[0],) for j in r.jobs]))
    done = {}
    while True:
        m = conn.recv()
        if m is None:
            return
        if m[0] == "sample":
            conn.send(("sampled", m[1], [r.sample(ji, pf) for ji, pf in m[1]]))
            continue
        _, ji, stack, quantum = m
        stats = Stats()
        viols = []
        smp = []
        end = time.time() + quantum
        try:
            while stack and time.time() < end:
                pf = stack.pop()
                n = done[ji] = done.get(ji, 0) + 1
                pend, v = r.run(ji, pf, stats, validate=n <= 10 or n % vfrac == 0)
                stack.extend(pend)
                if v is not None:
                    viols.append(v)
                    if len(viols) >= 3:
                        break
                if n in (1, 2, 5) and len(smp) < 2:
                    smp.append(list(core.CUR.trace) if core.CUR is not None else pf)
        except MemoryError:
            stats.unsup_msgs["memory"] = stats.unsup_msgs.get("memory", 0) + 1
            stats.unsupported += 1
        conn.send(("done", ji, stack, stats, viols, smp))


def explore(propmod, tier, budget, nproc=None, vfrac=4, stop_on_first=True, skip=None):
    """Explore all jobs.  Returns a result dict."""
    nproc = nproc or min(8, os.cpu_count() or 1)
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    procs = []
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, propmod, tier, vfrac), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    jobs = None
    for p, a in procs:
        try:
            m = a.recv()
        except EOFError:
            m = ("error", "worker died")
        if m[0] == "error":
            for q, _ in procs:
                q.kill()
            raise RuntimeError(m[1])
        jobs = [j[0] for j in m[1]]
    perjob = [Stats() for _ in jobs]
    queue = [[] for _ in jobs]
    for i in range(len(jobs)):
        queue[i].append([])
    busy = {}
    inflight = [0] * len(jobs)
    viols = []
    samples = []
    idle = [a for _, a in procs]
    rr = 0
    dead = 0

    jobtime = [0.0] * len(jobs)
    while True:
        now = time.time()
        stop = now - t0 > budget or (viols and stop_on_first)
        if not stop:
            pend = [i for i in range(len(jobs)) if queue[i]]
            while idle and pend:
                # the job that has had the least time first
                pend.sort(key=lambda i: (jobtime[i] + 0.3 * inflight[i], i))
                ji = pend[0]
                q = queue[ji]
                need = max(1, len(idle))
                if len(q) == 1:
                    take = [q.pop()]
                else:
                    k = max(1, min(50, len(q) // (2 * need)))
                    take, queue[ji] = q[:k], q[k:]
                a = idle.pop()
                total = sum(len(x) for x in queue)
                quantum = 0.15 if total < 3 * nproc else 1.0
                try:
                    a.send(("run", ji, take, quantum))
                except (BrokenPipeError, OSError):
                    dead += 1
                    queue[ji].extend(take)
                    continue
                busy[a] = (ji, take, time.time())
                inflight[ji] += 1
                pend = [i for i in range(len(jobs)) if queue[i]]
        if not busy:
            break
        ready = wait(list(busy), timeout=max(0.05, min(5, budget - (now - t0))))
        if not ready and now - t0 > budget + 45:
            break
        for a in ready:
            ji, take, ts = busy.pop(a)
            inflight[ji] -= 1
            jobtime[ji] += time.time() - ts
            try:
                m = a.recv()
            except (EOFError, OSError):
                dead += 1
                perjob[ji].unsupported += len(take)
                perjob[ji].unsup_msgs["worker died"] = (
                    perjob[ji].unsup_msgs.get("worker died", 0) + 1
                )
                continue
            _, _, left, stats, vs, smp = m
            queue[ji].extend(left)
            perjob[ji].merge(stats)
            for v in vs:
                if skip is None or not skip(v):
                    viols.append(v)
            if len(samples) < 60:
                samples.extend((ji, s) for s in smp)
            idle.append(a)
    for ji, take, ts in busy.values():
        # not back in time
        queue[ji].extend(take)
    # sample instances
    smps = []
    if idle and samples and not viols:
        by = {}
        for ji, s in samples:
            by.setdefault(ji, []).append(s)
        pick = []
        while len(pick) < 12 and any(by.values()):
            for ji in list(by):
                if by[ji] and len(pick) < 12:
                    pick.append((ji, by[ji].pop()))
        a = idle[0]
        try:
            a.send(("sample", pick))
            if a.poll(30):
                smps = [s for s in a.recv()[2] if s]
        except (OSError, EOFError):
            pass
    for p, a in procs:
        try:
            p.kill()
        except Exception:
            pass
    for p, a in procs:
        p.join(5)
    return {
        "jobs": jobs,
        "stats": perjob,
        "left": [len(q) for q in queue],
        "violations": viols,
        "samples": smps,
        "wall": time.time() - t0,
        "dead": dead,
    }
