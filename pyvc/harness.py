"""Contract harnesses.

A harness is one function over a specification object S.  The same function is used
  * symbolically  - inputs are arbitrary values, the code is /repo's source re-extracted by loader.py,
                    each S.check on each path is a proof obligation for the SMT solver;
  * concretely    - inputs come from a counterexample model, from a path model, or from a seeded
                    generator, and the code is the unmodified /repo package run by CPython.
"""
import contextlib
import importlib
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

import z3

from pyvc import core, loader, resub, sbytes, text
from pyvc.core import (CTX, SymNum, SymInt, SymReal, SymBool, Unsupported, PathKilled, EngineTimeout, b_and, b_or,
                       b_not, b_implies, mknum, atom, mkbool, zb)
from pyvc.sbytes import SymBytes

_real_time = time.time
_real_sleep = time.sleep
REPO = loader.REPO


class Discard(BaseException):
    "A precondition does not hold for this concrete input."


class CheckFailed(Exception):
    pass


class Outcome(object):
    "Result of calling the code under contract: a value, or the exception it ended with."

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "raised %r" % (self.exc,) if self.exc is not None else "returned %s" % (str(self.value)[:300],)


class Clock(object):
    "Virtual clock: code only sees the time the harness gives it."

    def __init__(self, t=0):
        self.t = t
        self.slept = []
        self.reads = 0

    def time(self):
        self.reads += 1
        return self.t

    def sleep(self, x):
        self.slept.append(x)
        self.t = self.t + x

    def randint(self, a, b):
        return a


_active_clock = [None]


def _tramp_time():
    c = _active_clock[0]
    return c.time() if c is not None else _real_time()


def _tramp_sleep(x):
    c = _active_clock[0]
    return c.sleep(x) if c is not None else _real_sleep(x)


_NAMESPACES = []
_CODE = {}


def install_real_repo():
    "Make `import dashlivesim` mean /repo's current tree, with a clock the harness controls."
    if time.time is not _tramp_time:
        time.time = _tramp_time
        time.sleep = _tramp_sleep
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


PASS_THROUGH = {"__call__", "mod", "eq", "ne", "isin", "notin", "join", "vlen", "unpack", "unpack_from", "pack", "vopen",
                "vrange", "visinstance", "_strftime", "_gmtime", "_re_sub", "fmt_one", "mod_format", "bytes_mod",
                "__getattr__", "f", "<lambda>"}


def engine_exception(e):
    """Reason why an exception must not be blamed on the code (it comes from the machinery), or None.

    Exceptions of the stand-ins are meant for the code when they are raised explicitly, or when a stand-in
    passes ordinary values on to the builtin it replaces."""
    import linecache
    import traceback
    msg = str(e)
    if isinstance(e, (TypeError, AttributeError, OverflowError, NotImplementedError)) and \
            any(w in msg for w in ("SymInt", "SymReal", "SymBool", "SymBytes", "SymNum", "SymRange", "SymFile", "SymTm",
                                   "SymMatch", "SymUnion", "OpaqueText", "vint", "vfloat", "vbytes")):
        return "symbolic value reached an unmodelled operation: %s" % msg
    if isinstance(e, (RecursionError, AssertionError)) and not e.__traceback__:
        return "engine"
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return None
    fn = last.tb_frame.f_code.co_filename
    if not fn.startswith(os.path.dirname(os.path.abspath(__file__)) + os.sep):
        return None
    line = linecache.getline(fn, last.tb_lineno).strip()
    if line.startswith("raise "):
        return None
    if last.tb_frame.f_code.co_name in PASS_THROUGH and not isinstance(e, (OverflowError, RecursionError)):
        return None
    return "%s in the engine (%s:%d): %s" % (type(e).__name__, os.path.basename(fn), last.tb_lineno, msg)


class Base(object):
    And = staticmethod(b_and)
    Or = staticmethod(b_or)
    Not = staticmethod(b_not)
    Implies = staticmethod(b_implies)

    def iff(self, a, b):
        return b_and(b_implies(a, b), b_implies(b, a))

    def flag(self, name):
        return self.choice(name, [False, True])

    def eq(self, a, b):
        return loader.eq(a, b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, a, b):
        return a if a <= b else b

    def max(self, a, b):
        return a if a >= b else b

    def floor(self, x):
        "The greatest whole number not above x."
        import math
        return core.real_floor(x) if isinstance(x, SymNum) else math.floor(x)

    def u32(self, v):
        return self.field(4, v)

    def u64(self, v):
        return self.field(8, v)

    def call(self, fn, *a, **k):
        try:
            with self.quiet():
                return Outcome(fn(*a, **k))
        except (PathKilled, Unsupported, EngineTimeout, Discard):
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if os.environ.get("PYVC_TRACE"):
                import traceback
                sys.__stderr__.write(traceback.format_exc()[-1200:])
            if self.symbolic:
                why = engine_exception(e)
                if why:
                    raise Unsupported(why)
            return Outcome(None, e)

    @contextlib.contextmanager
    def quiet(self):
        yield


class SymS(Base):
    mode = "sym"
    symbolic = True

    def __init__(self, run, variant):
        self.run = run
        self.variant = variant
        self.inputs = []
        self.root = "/vfs"
        self.world = loader.World(run.h.contracts)
        self.clock = Clock(0)
        CTX.clock = self.clock
        CTX.vfs = []
        CTX.written = []
        CTX.opened = []
        CTX.harness = self
        CTX.loop_cuts = dict(run.cuts)
        CTX.cuts_used = run.cuts_used
        self.patched = []

    # inputs ------------------------------------------------------------------------------
    def _in(self, name, kind, val):
        if any(n == name for n, _, _ in self.inputs):
            raise AssertionError("duplicate input %s" % name)
        self.inputs.append((name, kind, val))
        return val

    def int(self, name, lo=None, hi=None, near=(), **k):
        a = atom(("var", "int", name), name=name)
        v = mknum({(a.id,): 1})
        if lo is not None:
            CTX.assume(v >= lo)
        if hi is not None:
            CTX.assume(v <= hi)
        return self._in(name, "int", v)

    def real(self, name, lo=None, hi=None, near=(), **k):
        a = atom(("var", "real", name), real=True, name=name)
        v = mknum({(a.id,): 1}, None, True)
        if lo is not None:
            CTX.assume(v >= lo)
        if hi is not None:
            CTX.assume(v <= hi)
        return self._in(name, "real", v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self._in(name, "choice", 0)
            return options[0]
        a = atom(("var", "choice", name), name="choice:" + name)
        v = mknum({(a.id,): 1})
        CTX.assume(b_and(v >= 0, v < len(options)))
        self._in(name, "choice", v)
        for i in range(len(options) - 1):
            if CTX.branch((v == i).e if isinstance(v == i, SymBool) else (v == i)):
                return options[i]
        return options[-1]

    def blob(self, name, ln=None, lo=0, hi=None, cls=None):
        "Arbitrary bytes of length ln (or of an arbitrary length in [lo, hi])."
        if ln is None:
            a = atom(("var", "len", name), name="len:" + name)
            ln = mknum({(a.id,): 1})
            CTX.assume(ln >= lo)
            if hi is not None:
                CTX.assume(ln <= hi)
        v = sbytes.mk([sbytes.Blob(name, 0, ln)])
        return self._in(name, "blob", v)

    def clean(self, name):
        """Arbitrary text without digits that begins with '>' and ends with '<' (or is a lone '><')."""
        resub.CLEAN.add(name)
        return self.blob(name, lo=2)

    def utc(self, t):
        "ISO text of the instant t (whole seconds since the epoch)."
        return text.hole("ts:%Y-%m-%dT%H:%M:%SZ", t) if isinstance(t, SymNum) else \
            time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(t))

    def enc(self, s):
        "UTF-8 bytes of a text."
        return sbytes.of_text(s)

    def field(self, n, v):
        if isinstance(v, int):
            return v.to_bytes(n, "big")
        return sbytes.field(n, v)

    def le(self, n, v):
        "Little-endian field."
        return sbytes.field(n, v, False)

    def cat(self, *ps):
        r = b""
        for p in ps:
            r = r + p
        return r

    def len(self, x):
        return loader.vlen(x)

    def unum(self, b):
        "Unsigned big-endian value of a byte string."
        return sbytes.num_of(b, sbytes.blen(b)) if isinstance(b, SymBytes) else int.from_bytes(b, "big")

    def lnum(self, b):
        "Unsigned little-endian value of a byte string."
        return sbytes.num_of(b, sbytes.blen(b), False) if isinstance(b, SymBytes) else int.from_bytes(b, "little")

    def fmt(self, f, *args):
        return text.mod_format(f, args if len(args) != 1 else (args[0],))

    def parse_int(self, s):
        return loader.vint(s)

    def parse_num(self, s):
        return loader.vfloat(s)

    def tokens(self, s):
        return text.tokens(s)

    # state -------------------------------------------------------------------------------
    def mod(self, name):
        return self.world.load("dashlivesim." + name)

    def file(self, path, content):
        CTX.vfs.append((self.root + "/" + path, content))
        return self.root + "/" + path

    def written(self, name):
        "What the code wrote to the file of that name (relative to where it ran), or None."
        out = None
        for p, sink in CTX.written:
            if p == name:
                out = sink[0] if sink else b""
                for x in sink[1:]:
                    out = out + x
        return out

    @contextlib.contextmanager
    def workdir(self):
        "The working directory of the code."
        yield

    def patch(self, mod, name, val):
        setattr(mod, name, val)

    def shared(self, old=None):
        "The state that requests share: what it is, or (given an earlier one) where it differs from that."
        from . import frame
        if old is None:
            return set(self.world.mods), frame.snapshot(dict(self.world.mods)), len(CTX.written)
        if len(CTX.written) != old[2]:
            return "file " + str(CTX.written[-1][0])
        return frame.difference(old[1], frame.snapshot({k: self.world.mods[k] for k in old[0]}))

    def timestamp(self, s):
        "The epoch second denoted by an xs:dateTime text."
        t = text.tokens(s)
        if len(t) == 1 and isinstance(t[0], tuple) and t[0][0].startswith("ts:"):
            if t[0][0] != "ts:%Y-%m-%dT%H:%M:%SZ":
                raise Unsupported("timestamp format " + t[0][0])
            return t[0][1]
        import calendar
        return calendar.timegm(time.strptime(s, "%Y-%m-%dT%H:%M:%SZ"))

    def iso(self, s):
        "Seconds denoted by an xs:duration text (days, hours, minutes, seconds)."
        if isinstance(s, str):
            t = text.tokens(s)
            if len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == "iso":
                return t[0][1]
        return iso_value(s, self.parse_int, text.tokens)

    # logic -------------------------------------------------------------------------------
    def assume(self, c):
        CTX.assume(c)

    def check(self, name, c):
        self.run.obligation(self, name, c)

    def cover(self, name):
        self.run.covers.add(name)

    def note(self, **k):
        pass

    def fail(self, name):
        self.check(name, False)


def iso_value(s, parse_int, tokens):
    import re
    t = tokens(s)
    if len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == "iso":
        return t[0][1]
    m = re.fullmatch(r"P(?:(\d+)Y)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?", s)
    if m is None or s.endswith("T") or s == "P":
        return None
    v = 0
    for g, f in zip(m.groups(), (365 * 86400, 86400, 3600, 60, 1)):
        if g is not None:
            v = v + parse_int(g) * f
    return v


class ConcS(Base):
    "Concrete run: inputs from `values` (a model) or from the generator."
    mode = "conc"
    symbolic = False

    def __init__(self, h, variant, values=None, rng=None, tier="quick"):
        self.h, self.variant, self.values, self.rng = h, variant, values, rng
        self.used = {}
        self.failed = []
        self.checked = 0
        self.tmp = None
        self.clock = Clock(0)
        self.covers = set()
        self.undo = []
        self.check_names = []

    # inputs
    def _get(self, name, gen):
        if name in self.used:
            raise AssertionError("duplicate input %s" % name)
        if self.values is not None and name in self.values:
            v = self.values[name]
        else:
            v = gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, near=(), typ=None, gmax=None):
        "gmax: the generator's own upper bound (the specification's is hi)."
        def gen():
            if gmax is not None:
                return draw(gmax if hi is None else min(hi, gmax))
            return draw(hi)

        def draw(hi):
            r = self.rng
            l = lo if lo is not None else -100
            x = r.random()
            near_ = list(near)
            if near_ and x < 0.6:
                v = int(r.choice(near_)) + r.choice((0, 0, 0, 1, -1, 1, -1, 2, -2))
            elif typ and x < 0.9:
                v = r.choice(list(typ))
            elif x < 0.75:
                top = hi if hi is not None else l + 40
                v = r.randint(l, min(top, l + 40))
            elif x < 0.85 and hi is not None:
                v = r.choice((hi, hi - 1, (l + hi) // 2))
            elif hi is not None:
                v = r.randint(l, hi)
            else:
                v = l + int(10 ** (r.random() * 9))
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return v
        v = int(self._get(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard("range " + name)
        return v

    def real(self, name, lo=None, hi=None, near=(), typ=None):
        def gen():
            r = self.rng
            l = float(lo) if lo is not None else -100.0
            x = r.random()
            near_ = list(near)
            if near_ and x < 0.7:
                v = float(r.choice(near_)) + r.choice((0, 0, 0, 0, 0.001, -0.001, 0.5, -0.5, 1, -1, 0.25))
            elif typ and x < 0.9:
                v = float(r.choice(list(typ)))
            elif hi is not None:
                v = l + (float(hi) - l) * r.random()
            else:
                v = l + 10 ** (r.random() * 9)
            if r.random() < 0.3:
                v = float(round(v))
            return v
        # multiples of 1/64 keep the float arithmetic of code and oracle exact (values below 2**46)
        v = float(self._get(name, lambda: round(gen() * 64) / 64.0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard("range " + name)
        return v

    def choice(self, name, options):
        options = list(options)
        i = int(self._get(name, lambda: self.rng.randrange(len(options))))
        if not 0 <= i < len(options):
            raise Discard("choice " + name)
        return options[i]

    def blob(self, name, ln=None, lo=0, hi=None, cls=None):
        def gen():
            r = self.rng
            n = ln if ln is not None else r.choice((lo, lo + 1, lo + r.randint(0, 40), lo + r.randint(0, 9)))
            if hi is not None:
                n = min(n, hi)
            if cls is not None:
                return bytes(cls(r) for _ in range(n))
            return bytes(r.choice((0, 1, 255, r.randrange(256))) for _ in range(n))
        v = self._get(name, gen)
        if isinstance(v, str):
            v = bytes.fromhex(v)
            self.used[name] = v
        if ln is not None and len(v) != ln:
            v = (v + bytes(ln))[:ln]
        if len(v) < lo or (hi is not None and len(v) > hi):
            raise Discard("len " + name)
        return v

    def clean(self, name):
        r = self.rng
        words = [b"Segment # ", b"begin=", b' end="', b" : ", b"eng", b"<br/>", "\u00e5\u4e2d".encode(), b"\n", b":", b".",
                 b'"', b"UTC = ", b"\xff\xfe", b"\x00"]
        v = self.blob(name, lo=2)
        if self.values is None or name not in self.values:
            v = b"".join(r.choice(words) for _ in range(r.randint(0, 5))).join((b">", b"<"))
            self.used[name] = v
        v = bytes(v[1:-1]).translate(None, b"0123456789") + b"_" * sum(48 <= x <= 57 for x in v[1:-1])
        return b">" + v + b"<"

    def utc(self, t):
        return time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(t))

    def enc(self, s):
        return s.encode("utf-8")

    def field(self, n, v):
        if not 0 <= v < 256 ** n:
            raise Discard("field")
        return int(v).to_bytes(n, "big")

    def le(self, n, v):
        if not 0 <= v < 256 ** n:
            raise Discard("field")
        return int(v).to_bytes(n, "little")

    def cat(self, *ps):
        return b"".join(ps)

    def len(self, x):
        return len(x)

    def unum(self, b):
        return int.from_bytes(b, "big")

    def lnum(self, b):
        return int.from_bytes(b, "little")

    def fmt(self, f, *args):
        return f % args

    def parse_int(self, s):
        return int(s)

    def parse_num(self, s):
        return float(s)

    def tokens(self, s):
        return [s] if s else []

    # state
    @property
    def root(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="pyvc")
        return self.tmp

    def mod(self, name):
        install_real_repo()
        m = importlib.import_module("dashlivesim." + name)
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError("imported %s from %s" % (name, m.__file__))
        return m

    def file(self, path, content):
        p = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content.encode("utf-8") if isinstance(content, str) else content)
        return p

    def written(self, name):
        try:
            with open(os.path.join(self.root, "work", name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    @contextlib.contextmanager
    def workdir(self):
        old = os.getcwd()
        os.makedirs(os.path.join(self.root, "work"), exist_ok=True)
        os.chdir(os.path.join(self.root, "work"))
        try:
            yield
        finally:
            os.chdir(old)

    def fresh(self):
        "A server that has just been started."
        import xml.etree.ElementTree as ET
        if not _CODE:       # the modules are executed anew, but compiled only once
            from importlib.machinery import SourceFileLoader
            compiled = SourceFileLoader.get_code

            def get_code(loader, name):
                if name.split(".")[0] != "dashlivesim":
                    return compiled(loader, name)
                if name not in _CODE:
                    _CODE[name] = compiled(loader, name)
                return _CODE[name]
            SourceFileLoader.get_code = get_code
        if not _NAMESPACES:
            _NAMESPACES.append(dict(ET._namespace_map))
        ET._namespace_map.clear()
        ET._namespace_map.update(_NAMESPACES[0])
        for k in [k for k in sys.modules if k.split(".")[0] == "dashlivesim"]:
            del sys.modules[k]

    def watch(self):
        from . import frame
        return frame.Watch({k: m for k, m in sys.modules.items() if k.split(".")[0] == "dashlivesim" and m is not None})

    def patch(self, mod, name, val):
        self.undo.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def timestamp(self, s):
        import calendar
        return calendar.timegm(time.strptime(s, "%Y-%m-%dT%H:%M:%SZ"))

    def iso(self, s):
        return iso_value(s, int, lambda x: [x])

    @contextlib.contextmanager
    def quiet(self):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield

    # logic
    def assume(self, c):
        if not c:
            raise Discard("assume")

    def check(self, name, c):
        self.checked += 1
        self.check_names.append(name)
        if not c:
            self.failed.append(name)
            raise CheckFailed(name)

    def fail(self, name):
        self.check(name, False)

    def cover(self, name):
        self.covers.add(name)

    def note(self, **k):
        pass

    def run(self):
        "Returns 'ok', 'discard' or 'fail'."
        install_real_repo()
        _active_clock[0] = self.clock
        rs = random.getstate()
        try:
            with self.quiet():
                self.h.fn(self)
            return "ok"
        except Discard:
            return "discard"
        except CheckFailed:
            return "fail"
        finally:
            _active_clock[0] = None
            random.setstate(rs)
            for m, n, v in reversed(self.undo):
                setattr(m, n, v)
            if self.tmp is not None:
                shutil.rmtree(self.tmp, ignore_errors=True)


class Harness(object):
    def __init__(self, name, fn, variants=(None,), contracts=None, cuts=None, symbolic=True, n_random=150,
                 unroll=12, functions=(), bounded=None, budget=120, max_paths=4000, assumes=(), contracts_used=(),
                 thorough=None, slow=()):
        self.slow = list(slow)                # variants that only the thorough tier explores
        self.name, self.fn, self.variants = name, fn, list(variants)
        self.contracts = contracts or {}
        self.cuts = cuts or {}
        self.symbolic, self.n_random, self.unroll = symbolic, n_random, unroll
        self.functions = list(functions)      # "dashlib/dash_proxy.py:process_media_segment"
        self.bounded = bounded                # text of the bound, or None for unbounded
        self.budget = budget
        self.max_paths = max_paths
        self.assumes = list(assumes)
        self.contracts_used = list(contracts_used)
        self.thorough = thorough or {}


def to_smt2(pc, goal_neg):
    s = z3.Solver()
    for c in pc:
        s.add(c)
    s.add(goal_neg)
    return s.to_smt2()


def run_external(cmd, smt, secs):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
        p = f.name
    try:
        out = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=secs + 5).stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(p)
    first = out.strip().splitlines()[0] if out.strip() else "unknown"
    return first


class SymRun(object):
    "Symbolic exploration of one harness variant."

    def __init__(self, h, variant, use_cuts=True, budget=None, check_timeout=None, unroll=None):
        self.h, self.variant = h, variant
        self.cuts = dict(h.cuts) if use_cuts else {}
        self.cuts_used = set()
        self.obl = {}           # name -> dict(proved=n, refuted=[...], unknown=n)
        self.covers = set()
        self.paths = 0
        self.killed = 0
        self.truncated = 0
        self.unsupported = []
        self.errors = []
        self.path_models = []
        self.backends = {}
        self.budget = budget or h.budget
        self.check_timeout = check_timeout or 15000
        self.unroll = unroll or h.unroll
        self.refutations = []
        self.timed_out = False

    def explore(self):
        t0 = _real_time()
        loader.LOOP_ANNOTATIONS.update(self.cuts)
        CTX.unroll = self.unroll
        CTX.deadline = t0 + self.budget
        CTX.stats = {"queries": 0, "solver_s": 0.0}
        work = [([], {})]
        while work:
            if _real_time() - t0 > self.budget or self.paths > self.h.max_paths:
                self.timed_out = True
                break
            prefix, vals = work.pop()
            CTX.start_path(prefix, vals)
            S = SymS(self, self.variant)
            done = False
            try:
                self.h.fn(S)
                done = True
            except PathKilled:
                self.killed += 1
            except Unsupported as e:
                import traceback
                if len(self.unsupported) < 5:
                    self.unsupported.append("%s @ %s" % (e, _where(e)))
                self.n_unsupported = getattr(self, "n_unsupported", 0) + 1
            except EngineTimeout:
                self.timed_out = True
                break
            except z3.Z3Exception as e:
                self.unsupported.append("z3: %s @ %s" % (e, _where(e)))
            except (RecursionError, Exception) as e:
                if os.environ.get("PYVC_DEBUG"):
                    raise
                self.errors.append("%s: %s @ %s" % (type(e).__name__, e, _where(e)))
                if len(self.errors) > 3:
                    break
            if CTX.truncated:
                self.truncated += 1
            if done:
                self.paths += 1
                if len(self.path_models) < 400:
                    m = self.model_inputs(S)
                    if m is not None:
                        self.path_models.append(m)
            work.extend(CTX.pending)
        self.solver_s = CTX.stats["solver_s"]
        self.queries = CTX.stats["queries"]
        CTX.active = False
        self.wall = _real_time() - t0
        return self

    # ------------------------------------------------------------------------------------
    def obligation(self, S, name, c):
        rec = self.obl.setdefault(name, {"proved": 0, "refuted": 0, "unknown": 0})
        if c is True or (not isinstance(c, (bool, SymBool)) and c):
            rec["proved"] += 1
            self.backends["evaluation"] = self.backends.get("evaluation", 0) + 1
            return
        if isinstance(c, SymBool):
            e = c.e
        else:
            e = z3.BoolVal(False)
        k = CTX.known.get(e.get_id())
        if k is True:
            rec["proved"] += 1
            self.backends["path condition"] = self.backends.get("path condition", 0) + 1
            return
        t0 = _real_time()
        ne = z3.Not(e)
        dead = z3.is_false(e)       # only provable when the path is infeasible
        r = CTX.check_sat(ne, timeout=self.check_timeout)
        if r == z3.unsat:
            self.backends["z3"] = self.backends.get("z3", 0) + 1
            rec["proved"] += 1
            if dead:
                raise PathKilled("infeasible")
            CTX.add(e)
            return
        if r == z3.unknown:
            smt = to_smt2(CTX.pc, ne)
            for nm, cmd in (("cvc5", ["cvc5", "--tlimit=%d" % (self.check_timeout)]),
                            ("z3-new", ["z3-new", "-T:%d" % (self.check_timeout // 1000)])):
                o = run_external(cmd, smt, self.check_timeout / 1000.0)
                if o == "unsat":
                    self.backends[nm] = self.backends.get(nm, 0) + 1
                    rec["proved"] += 1
                    CTX.stats["solver_s"] += _real_time() - t0
                    if dead:
                        raise PathKilled("infeasible")
                    CTX.add(e)
                    return
                if o == "sat":
                    r = "sat?"
                    break
        CTX.stats["solver_s"] += _real_time() - t0
        if r == z3.sat:
            rec["refuted"] += 1
            if sum(1 for x in self.refutations if x[0] == name) < 6:
                self.refutations.append((name, self.model_inputs(S, ne)))
            # continue on the part of the path where the obligation holds
            CTX.add(e)
            if CTX.check_sat() == z3.unsat:
                raise PathKilled("refuted")
            return
        rec["unknown"] += 1
        CTX.add(e)
        if z3.is_false(e) or CTX.check_sat() == z3.unsat:
            raise PathKilled("undecided")

    def model_inputs(self, S, extra=None):
        "Concrete input values satisfying the path (preferring small ones)."
        sv = CTX.solver
        sv.push()
        try:
            if extra is not None:
                sv.add(extra)
            sv.set("timeout", 4000)
            nums = []
            for n, k, v in S.inputs:
                if k == "blob":
                    l = sbytes.blen(v)
                    if isinstance(l, SymNum):
                        nums.append((l, (8, 64, 400)))
                elif isinstance(v, SymNum) and k in ("int", "real"):
                    nums.append((v, (12, 4000, 10 ** 6, 10 ** 9, 4 * 10 ** 9)))
            for n, k, v in S.inputs:
                if k == "real" and isinstance(v, SymNum):
                    sv.push()
                    sv.add(v.z() * 64 == z3.ToReal(z3.Int("dy!" + n)))
                    if sv.check() != z3.sat:
                        sv.pop()
            for level in range(3):
                sv.push()
                for v, bounds in nums:
                    b = bounds[min(level * 2, len(bounds) - 1)] if len(bounds) > 3 else bounds[level]
                    c = b_and(v <= b, v >= -b)
                    if isinstance(c, SymBool):
                        sv.add(c.e)
                r = sv.check()
                if r == z3.sat:
                    m = sv.model()
                    sv.pop()
                    return self._extract(S, m)
                sv.pop()
            # individual soft bounds
            if sv.check() != z3.sat:
                return None
            for v, bounds in nums:
                for b in bounds + ((10 ** 5, 2 * 10 ** 6) if len(bounds) == 3 else ()):
                    c = b_and(v <= b, v >= -b)
                    if isinstance(c, SymBool):
                        sv.push()
                        sv.add(c.e)
                        if sv.check() == z3.sat:
                            break
                        sv.pop()
            if sv.check() != z3.sat:
                return None
            return self._extract(S, sv.model())
        except z3.Z3Exception:
            return None
        finally:
            sv.set("timeout", CTX.branch_timeout)
            while sv.num_scopes() > 0:
                sv.pop()

    def _extract(self, S, m):
        out = {}
        for n, k, v in S.inputs:
            if k == "blob":
                l = sbytes.blen(v)
                if isinstance(l, SymNum):
                    l = m.eval(l.z(), model_completion=True).as_long()
                if l > 2 * 10 ** 6:
                    return None
                a = sbytes.arr(n)
                try:
                    out[n] = (bytes((m.eval(z3.Select(a, i), model_completion=True).as_long()) % 256
                                    for i in range(min(l, 4096)))
                              + random.Random(l).randbytes(max(0, l - 4096))).hex()     # a long tail matters by its length
                except Exception:
                    return None
            elif isinstance(v, SymNum):
                e = m.eval(v.z(), model_completion=True)
                if k == "real":
                    if z3.is_algebraic_value(e):
                        e = e.approx(20)
                    if z3.is_int_value(e):
                        out[n] = float(e.as_long())
                    else:
                        out[n] = float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
                else:
                    out[n] = e.as_long()
            else:
                out[n] = v
        return out


def _where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/pyvc/" not in f.filename]
    f = (fr or tb)[-1]
    l = tb[-1]
    return "%s:%s (%s:%s)" % (os.path.basename(f.filename), f.lineno, os.path.basename(l.filename), l.lineno)
