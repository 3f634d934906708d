"""Regular expressions over symbolic bytes.

A symbolic text is a sequence of literal bytes, decimal numbers and clean texts.  The expression is run by Python's
own engine on a sample of the text in which the numbers are written with zeros; the matches found are those of every
instance of the text because the expression is required (checked on its parse tree) to treat all digits alike, a
number of varying width must give the same matches at widths 1, 2, 3, 5 and 12 (above every counted repeat of the
expressions), and a clean text - which has no digit, begins with '>' and ends with '<' - cannot take part in a match
of an expression that needs a digit and accepts neither '<' nor '>'."""
import re
try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:                                        # pragma: no cover
    import sre_parse
    import sre_constants as sre

from pyvc.core import CTX, SymNum, Unsupported, b_and
from pyvc import sbytes
from pyvc.sbytes import SymBytes, Dec, Blob, mk

CLEAN = set()            # names of blobs that are clean texts
WIDTHS = (1, 2, 3, 5, 12)
DIGITS = set(range(48, 58))


def _walk(seq, fn):
    for op, av in seq:
        fn(op, av)
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            _walk(av[2], fn)
        elif op is sre.SUBPATTERN:
            _walk(av[3], fn)
        elif op is sre.BRANCH:
            for b in av[1]:
                _walk(b, fn)
        elif op in (sre.ASSERT, sre.ASSERT_NOT):
            _walk(av[1], fn)


def _in_items(av):
    "Characters (below 256) and whether negated, of a set."
    out, neg = set(), False
    for o, a in av:
        if o is sre.NEGATE:
            neg = True
        elif o is sre.LITERAL:
            out.add(a)
        elif o is sre.RANGE:
            out.update(range(a[0], min(a[1], 255) + 1))
        elif o is sre.CATEGORY:
            out.update(i for i in range(256) if re.match(CAT[a], bytes([i])))
        else:
            raise Unsupported("set in a regular expression: %r" % (o,))
    return (set(range(256)) - out) if neg else out


CAT = {sre.CATEGORY_DIGIT: rb"\d", sre.CATEGORY_NOT_DIGIT: rb"\D", sre.CATEGORY_SPACE: rb"\s",
       sre.CATEGORY_NOT_SPACE: rb"\S", sre.CATEGORY_WORD: rb"\w", sre.CATEGORY_NOT_WORD: rb"\W"}
INFO = {}


def info(pat):
    "(treats all digits alike, cannot touch clean text, largest counted repeat) of a bytes pattern."
    key = (pat.pattern, pat.flags)
    if key in INFO:
        return INFO[key]
    tree = sre_parse.parse(pat.pattern, pat.flags)
    st = {"uniform": True, "chars": set(), "count": 1, "ok": True}

    def visit(op, av):
        if op is sre.LITERAL:
            st["chars"].add(av)
            if av in DIGITS:
                st["uniform"] = False
        elif op is sre.NOT_LITERAL:
            st["chars"] |= set(range(256)) - {av}
            if av in DIGITS:
                st["uniform"] = False
        elif op is sre.ANY:
            st["chars"] |= set(range(256))
        elif op is sre.IN:
            cs = _in_items(av)
            st["chars"] |= cs
            if cs & DIGITS and not DIGITS <= cs:
                st["uniform"] = False
        elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            for k in av[:2]:
                if k is not sre.MAXREPEAT:
                    st["count"] = max(st["count"], int(k))
        elif op in (sre.SUBPATTERN, sre.BRANCH):
            pass
        else:
            st["ok"] = False                               # back references, look-around, anchors
    _walk(tree, visit)

    def needs_digit(seq):
        for op, av in seq:
            if op is sre.IN and _in_items(av) and _in_items(av) <= DIGITS:
                return True
            if op in (sre.MAX_REPEAT, sre.MIN_REPEAT) and av[0] >= 1 and needs_digit(av[2]):
                return True
            if op is sre.SUBPATTERN and needs_digit(av[3]):
                return True
            if op is sre.BRANCH and all(needs_digit(b) for b in av[1]):
                return True
        return False
    r = (st["ok"] and st["uniform"], needs_digit(tree) and not st["chars"] & {60, 62}, st["count"])
    INFO[key] = r
    return r


def _sample(s, width, clean_ok):
    "Sample text; the start of every piece in it."
    out, starts = b"", []
    for p in s.ps:
        starts.append(len(out))
        if isinstance(p, bytes):
            out += p
        elif isinstance(p, Dec):
            out += b"0" * (p.ln if isinstance(p.ln, int) else width) if not p.kind.startswith("ts:") else ts_sample(p)
        elif isinstance(p, Blob) and p.name in CLEAN and clean_ok and is_whole(p):
            out += b"><"
        else:
            raise Unsupported("regular expression over opaque bytes")
    starts.append(len(out))
    return out, starts


def is_whole(p):
    "All of the clean text."
    from pyvc.core import atom, mknum
    return isinstance(p.off, int) and p.off == 0 and sbytes.samepoly(p.ln, clean_len(p.name))


def clean_len(name):
    from pyvc.core import atom, mknum
    return mknum({(atom(("var", "len", name), name="len:" + name).id,): 1})


def ts_sample(p):
    if p.kind != "ts:%Y-%m-%dT%H:%M:%SZ":
        raise Unsupported("regular expression over " + p.kind)
    return b"0000-00-00T00:00:00Z"


def fixed(p):
    return isinstance(p, bytes) or isinstance(p.ln, int) or p.kind.startswith("ts:")


def scan(pat, s):
    "Matches as lists of (start, end) positions per group (index 0: the match); a position is (piece, offset)."
    if not isinstance(pat.pattern, bytes):
        raise TypeError("cannot use a string pattern on a bytes-like object")
    uniform, clean_ok, count = info(pat)
    if not uniform:
        raise Unsupported("regular expression %r over symbolic text" % pat.pattern)
    if count > 4:
        raise Unsupported("large repeat count")
    widths = WIDTHS if any(isinstance(p, Dec) and not fixed(p) for p in s.ps) else (1,)
    result = None
    for w in widths:
        txt, starts = _sample(s, w, clean_ok)

        def pos(i, end):
            # an end belongs to the piece it closes, a start to the piece it opens
            ks = [k for k in range(len(s.ps)) if (starts[k] < i <= starts[k + 1] if end else
                                                  starts[k] <= i < starts[k + 1])]
            k = ks[0] if ks else (len(s.ps) - 1 if end or i else 0)
            off = i - starts[k]
            if not isinstance(s.ps[k], bytes):
                if off == 0:
                    return (k, 0)
                if i == starts[k + 1]:
                    return (k + 1, 0)
                raise Unsupported("match boundary inside a symbolic number")
            if off == len(s.ps[k]):
                return (k + 1, 0)
            return (k, off)
        res = []
        for m in pat.finditer(txt):
            if m.start() == m.end():
                raise Unsupported("empty match")
            res.append([(pos(m.start(g), False), pos(m.end(g), True)) if m.start(g) >= 0 else None
                        for g in range(pat.groups + 1)])
        if result is not None and res != result:
            raise Unsupported("matches depend on the width of a number")
        result = res
    for m in result:
        for k in range(m[0][0][0], min(m[0][1][0] + 1, len(s.ps))):
            p = s.ps[k]
            if k == m[0][1][0] and m[0][1][1] == 0:
                continue
            if isinstance(p, Dec) and not p.kind.startswith("ts:"):
                if not p.kind.endswith("d") or not CTX.entails(p.val >= 0):
                    raise Unsupported("match over a number that may be negative")
            if isinstance(p, Dec) and p.kind.startswith("ts:"):
                raise Unsupported("match over a formatted time")
    return result


def piece_range(s, a, b):
    out = []
    for k in range(a[0], min(b[0] + 1, len(s.ps))):
        p = s.ps[k]
        if isinstance(p, bytes):
            lo = a[1] if k == a[0] else 0
            hi = b[1] if k == b[0] else len(p)
            out.append(p[lo:hi])
        elif k < b[0]:
            out.append(p)
    return mk(out)


class SymMatch(object):
    def __init__(self, pat, s, spans):
        self.re, self.string, self.spans = pat, s, spans

    def _ix(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def _one(self, g, default=None):
        sp = self.spans[self._ix(g)]
        return default if sp is None else piece_range(self.string, *sp)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, len(self.spans)))

    def groupdict(self, default=None):
        return {n: self._one(n, default) for n in self.re.groupindex}

    def _at(self, p):
        n = 0
        for x in self.string.ps[:p[0]]:
            n = n + sbytes.plen(x)
        return n + p[1]

    def start(self, g=0):
        sp = self.spans[self._ix(g)]
        return -1 if sp is None else self._at(sp[0])

    def end(self, g=0):
        sp = self.spans[self._ix(g)]
        return -1 if sp is None else self._at(sp[1])

    def span(self, g=0):
        return self.start(g), self.end(g)


def finditer(pat, s):
    return [SymMatch(pat, s, m) for m in scan(pat, s)]


def sub(pat, repl, s, count=0):
    if not callable(repl):
        if b"\\" in repl:
            raise Unsupported("replacement template")
        lit = repl
        repl = lambda m: lit                                       # noqa: E731
    out, at = b"", (0, 0)
    n = 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        n += 1
        out = out + piece_range(s, at, m.spans[0][0]) + repl(m)
        at = m.spans[0][1]
    return out + piece_range(s, at, (len(s.ps), 0))
