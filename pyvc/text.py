"""Strings with symbolic holes.

A symbolic value formatted into a str becomes a *hole*: a short run of reserved characters inside a
real Python str, so that the code's own string handling (split, join, replace, XML building and
parsing, path handling) runs natively.  Integer holes are made of Unicode decimal digits (so \\d in a
regular expression accepts them as it accepts the digits they stand for); other holes are private-use
characters."""
import re

from pyvc.core import (CTX, SymNum, SymInt, SymReal, SymBool, Unsupported, b_and, pkey, num_poly, as_real,
                       atom, mknum, real_trunc)

DIG0, NDIG = 0x1D7CE, 50
PUA0 = 0xF0000
HOLES = []            # index -> (kind, value)
BY_KEY = {}
HOLE_RE = re.compile("[\U0001D7CE-\U0001D7FF]{4}|[\U000F0000-\U000FFFFD]")
NUMERIC = ("d",)


def valkey(v):
    if isinstance(v, SymNum):
        return (pkey(v.p), pkey(v.d or {}), v.real)
    return ("c", repr(v))


def hole(kind, value):
    "The placeholder text for `value` formatted in the way `kind`."
    if kind == "d" and isinstance(value, int):
        return str(value)
    key = (kind, valkey(value))
    h = BY_KEY.get(key)
    if h is not None:
        return h
    k = len(HOLES)
    HOLES.append((kind, value))
    if kind == "d":
        n, cs = k, []
        for _ in range(4):
            n, r = divmod(n, NDIG)
            cs.append(chr(DIG0 + r))
        h = "".join(cs)
    else:
        h = chr(PUA0 + k)
    BY_KEY[key] = h
    return h


def decode_hole(h):
    if len(h) == 1:
        return HOLES[ord(h) - PUA0]
    n = 0
    for c in reversed(h):
        n = n * NDIG + (ord(c) - DIG0)
    return HOLES[n]


def has_hole(s):
    return isinstance(s, str) and HOLE_RE.search(s) is not None


def tokens(s):
    "List of literal strings and (kind, value) tuples."
    out, pos = [], 0
    for m in HOLE_RE.finditer(s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        out.append(decode_hole(m.group()))
        pos = m.end()
    if pos < len(s):
        out.append(s[pos:])
    return out


def to_int(s):
    t = [x.strip() if isinstance(x, str) else x for x in tokens(s.strip())]
    t = [x for x in t if x != ""]
    if len(t) == 1 and isinstance(t[0], tuple):
        kind, v = t[0]
        if kind.endswith("d"):
            return v
        raise ValueError("invalid literal for int() with base 10: <symbolic %s>" % kind)
    if len(t) == 2 and t[0] in ("-", "+") and isinstance(t[1], tuple) and t[1][0].endswith("d"):
        return -t[1][1] if t[0] == "-" else t[1][1]
    if any(isinstance(x, str) and not re.fullmatch(r"[0-9+\-_]*", x) for x in t):
        raise ValueError("invalid literal for int() with base 10")
    raise Unsupported("int(%r)" % (t,))


def to_real(s):
    t = tokens(s.strip())
    if len(t) == 1 and isinstance(t[0], tuple):
        kind, v = t[0]
        if kind.endswith("d") or kind in ("r", "f") or kind.endswith("f"):
            return as_real(v)
        raise ValueError("could not convert string to float")
    if len(t) == 2 and t[0] in ("-", "+") and isinstance(t[1], tuple):
        v = as_real(t[1][1])
        return -v if t[0] == "-" else v
    if any(isinstance(x, str) and re.search(r"[a-df-zA-DF-Z/_:]", x) for x in t):
        raise ValueError("could not convert string to float")
    raise Unsupported("float(%r)" % (t,))


def _rx(t):
    out = ""
    for x in t:
        if isinstance(x, str):
            out += re.escape(x)
        elif x[0] == "d":
            out += r"(-?[0-9]+)"
        else:
            out += r"(.+?)"
    return out


def _fields(t):
    """The text as alternating non-digit literals and decimal numbers, or None.

    With the same literals at the same places two such texts are equal iff all their numbers are (a number
    is followed by a non-digit or the end, so it is determined by the text)."""
    out = []
    for x in t:
        if isinstance(x, str):
            for part in re.findall("[0-9]+|[^0-9]+", x):
                if part[0].isdigit():
                    if str(int(part)) != part:
                        return None
                    out.append(("num", int(part)))
                else:
                    out.append(("lit", part))
        elif x[0] == "d":
            out.append(("num", x[1]))
        else:
            return None
    for x, y in zip(out, out[1:]):
        if x[0] == "num" and y[0] == "num":
            return None
    return out


HOLE_TEXT = {"d": r"-?[0-9]+", "f": r"-?[0-9]+\.[0-9]+", "iso": r"P(?:[0-9]+D)?(?:T(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]+S)?)?",
             "ts:%Y-%m-%dT%H:%M:%SZ": r"[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z"}


def _hole_num(kind, lit):
    "Number that a literal text denotes as the text of a hole of this kind, or None."
    if kind == "d":
        return int(lit) if str(int(lit)) == lit else None
    if kind == "f":
        return float(lit) if "%f" % float(lit) == lit else None
    if kind == "iso":
        m = re.fullmatch(r"P(?:([0-9]+)D)?(?:T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)S)?)?", lit)
        return sum(int(g) * f for g, f in zip(m.groups(), (86400, 3600, 60, 1)) if g is not None)
    import calendar
    import time
    try:
        return calendar.timegm(time.strptime(lit, kind[3:]))
    except ValueError:
        return None


def _delimited(kind, nxt):
    if nxt is None:
        return True
    return not nxt.isdigit() if kind == "d" else not (nxt.isalnum() or nxt in "-+.:")


def _align(ta, tb):
    """Equality by walking both texts: holes face holes of their kind or the literal text of one.  Each such number ends at
    the same delimiter on both sides, so the texts are equal iff the numbers are.  None: not decided."""
    i = j = 0
    pa = pb = 0
    conds = []

    def nxt(t, k, p):
        if k < len(t) and isinstance(t[k], str) and p >= len(t[k]):
            k, p = k + 1, 0
        if k >= len(t):
            return None
        return t[k][p] if isinstance(t[k], str) else t[k]
    while True:
        while i < len(ta) and isinstance(ta[i], str) and pa >= len(ta[i]):
            i, pa = i + 1, 0
        while j < len(tb) and isinstance(tb[j], str) and pb >= len(tb[j]):
            j, pb = j + 1, 0
        if i >= len(ta) or j >= len(tb):
            if i >= len(ta) and j >= len(tb):
                return b_and(*conds) if conds else True
            rest = ta[i] if i < len(ta) else tb[j]
            return False if isinstance(rest, str) or rest[0] in HOLE_TEXT else None
        x, y = ta[i], tb[j]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x) - pa, len(y) - pb)
            if x[pa:pa + n] != y[pb:pb + n]:
                return False
            pa, pb = pa + n, pb + n
            continue
        if not isinstance(x, str) and not isinstance(y, str):
            if x[0] != y[0]:
                return None
            cx, cy = nxt(ta, i + 1, 0), nxt(tb, j + 1, 0)
            if isinstance(cx, tuple) or isinstance(cy, tuple) or not _delimited(x[0], cx) or not _delimited(x[0], cy):
                return None
            conds.append(x[1] == y[1])
            i, j, pa, pb = i + 1, j + 1, 0, 0
            continue
        hole, lit, p = (x, y, pb) if isinstance(y, str) else (y, x, pa)
        if hole[0] not in HOLE_TEXT:
            return None
        m = re.compile(HOLE_TEXT[hole[0]]).match(lit, p)
        ch = nxt(ta, i + 1, 0) if lit is y else nxt(tb, j + 1, 0)
        if isinstance(ch, tuple) or not _delimited(hole[0], ch):
            return None
        if m is None:
            return False
        if m.end() >= len(lit):
            k = j if lit is y else i
            if k + 1 < len(tb if lit is y else ta):
                return None
        elif not _delimited(hole[0], lit[m.end()]):
            return None if hole[0] == "iso" else False
        v = _hole_num(hole[0], m.group())
        if v is None:
            return False
        conds.append(hole[1] == v)
        if lit is y:
            i, pa, pb = i + 1, 0, m.end()
        else:
            j, pb, pa = j + 1, 0, m.end()


def str_eq(a, b):
    "Equality of two strings with holes (bool or SymBool)."
    if a == b:
        return True
    ta, tb = tokens(a), tokens(b)
    ha = any(isinstance(x, tuple) for x in ta)
    hb = any(isinstance(x, tuple) for x in tb)
    if not ha and not hb:
        return False
    if ha and hb:
        if len(ta) == len(tb):
            conds = []
            for x, y in zip(ta, tb):
                if isinstance(x, str) != isinstance(y, str):
                    break
                if isinstance(x, str):
                    if x != y:
                        break
                elif x[0] == y[0]:
                    conds.append(x[1] == y[1])
                else:
                    break
            else:
                return b_and(*conds)
        # align decimal fields: maximal literal digit runs and decimal holes
        fa, fb = _fields(ta), _fields(tb)
        if fa is not None and fb is not None and len(fa) == len(fb):
            conds = []
            for x, y in zip(fa, fb):
                if (x[0] == "lit") != (y[0] == "lit"):
                    break
                if x[0] == "lit":
                    if x[1] != y[1]:
                        break
                else:
                    conds.append(x[1] == y[1])
            else:
                return b_and(*conds)
        al = _align(ta, tb)
        if al is not None:
            return al
        # definitely different?
        def probe(t):
            return "".join(x if isinstance(x, str) else "7" for x in t)
        if re.fullmatch(_rx(ta), probe(tb)) is None and re.fullmatch(_rx(tb), probe(ta)) is None:
            return False
        k = 0
        while k < min(len(ta), len(tb)) and type(ta[k]) is type(tb[k]) and (
                ta[k] == tb[k] if isinstance(ta[k], str) else ta[k][0] == tb[k][0]):
            k += 1
        raise Unsupported("string equality from part %d of %d, %d on: %s == %s" % (
            k, len(ta), len(tb), str(ta[k:k + 2])[:300], str(tb[k:k + 2])[:300]))
    al = _align(ta, tb)
    if al is not None:
        return al
    if hb:
        ta, a, b = tb, b, a
    m = re.fullmatch(_rx(ta), b)
    if m is None:
        return False
    conds = []
    for (kind, v), g in zip([x for x in ta if isinstance(x, tuple)], m.groups()):
        if kind == "d":
            if str(int(g)) != g:
                return False
            conds.append(v == int(g))
        elif kind in ("f", "r"):
            if not re.fullmatch(r"[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?", g):
                return False
            conds.append(v == float(g))
        elif kind.startswith("0") and kind.endswith("d"):
            if not re.fullmatch("-?[0-9]+", g):
                return False
            conds.append(v == int(g))
        else:
            raise Unsupported("text of a %s compared with %r" % (kind, g))
    return b_and(*conds)


FMT_RE = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def deep_sym(x):
    from pyvc.sbytes import SymBytes
    if is_sym(x) or isinstance(x, SymBytes):
        return True
    if isinstance(x, (tuple, list)):
        return any(deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(y) for y in x.values())
    return False


def fmt_one(spec_flags, width, prec, conv, arg):
    "Format one argument of a % operation to text."
    if conv in "di":
        if isinstance(arg, SymReal):
            arg = real_trunc(arg)
        if isinstance(arg, SymBool):
            arg = arg.as_int()
        if isinstance(arg, SymInt):
            k = (spec_flags + (width or "")) + "d"
            return hole(k if k != "d" else "d", arg)
    elif conv in "fF":
        if isinstance(arg, SymNum):
            if prec is None and not width:
                return hole("f", as_real(arg))
            return hole((spec_flags + (width or "")) + "." + (prec or "6") + "f", as_real(arg))
    elif conv in "sr":
        if isinstance(arg, SymNum):
            return str(arg)
        if isinstance(arg, SymBool):
            return str(bool(arg))
    elif conv in "xX":
        if isinstance(arg, SymInt):
            return hole(spec_flags + (width or "") + conv, arg)
    return ("%" + spec_flags + (width or "") + ("." + prec if prec is not None else "") + conv) % (arg,)


def mod_format(fmt, args):
    if not deep_sym(args):
        return fmt % args
    out, pos = [], 0
    it = iter(args if isinstance(args, tuple) else (args,))
    for m in FMT_RE.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append("%")
            continue
        arg = args[key] if key is not None else next(it)
        out.append(fmt_one(flags, width, prec, conv, arg))
    out.append(fmt[pos:])
    return "".join(out)


# ------------------------------------------------------------------------------------------------
# searching
# ------------------------------------------------------------------------------------------------

ALPHABET = {"d": "-0123456789", "f": "-.0123456789", "r": "-.0123456789einfa+", "iso": "PT0123456789DHMS."}


def alphabet(kind):
    "Characters that the text of a hole of this kind can have (None: any)."
    if kind in ALPHABET:
        return ALPHABET[kind]
    if kind.startswith("ts:"):
        import re as _r
        if set(_r.findall("%(.)", kind[3:])) <= set("YmdHMS"):
            return "0123456789" + _r.sub("%.", "", kind[3:])
        return None
    if kind[:-1].isdigit() and kind.endswith("d"):
        return "-0123456789 "
    return None


def apart(hay, lit):
    """Raises Unsupported unless no occurrence of the literal text in any instance of `hay` can reach into the text of one
    of its holes."""
    t = tokens(hay)
    for i, x in enumerate(t):
        if isinstance(x, str):
            continue
        al = alphabet(x[0])
        left = t[i - 1] if i and isinstance(t[i - 1], str) else None
        right = t[i + 1] if i + 1 < len(t) and isinstance(t[i + 1], str) else None
        for a in range(len(lit)):
            pre = lit[:a]
            if pre and left is not None and not (left.endswith(pre) if len(pre) <= len(left) else pre.endswith(left)):
                continue
            if pre and left is None and i == 0:
                continue
            for b in range(a + 1, len(lit) + 1):
                if al is not None and lit[b - 1] not in al:
                    break
                post = lit[b:]
                if post and right is not None and not (right.startswith(post) if len(post) <= len(right)
                                                       else post.startswith(right)):
                    continue
                if post and right is None and i + 1 >= len(t):
                    continue
                raise Unsupported("search for %r next to a symbolic part (%s)" % (lit, x[0]))


def match_at(hay, at, needle):
    "(condition, end): that `needle` (whose parts are delimited) stands at `at` of `hay`."
    conds = []
    nt = tokens(needle)
    for i, x in enumerate(nt):
        if isinstance(x, str):
            if has_hole(hay[at:at + len(x)]) or hay[at:at + len(x)] != x:
                m = HOLE_RE.search(hay, at, at + len(x))
                if m and hay[at:m.start()] == x[:m.start() - at]:
                    kind = decode_hole(m.group())[0]
                    al = alphabet(kind)
                    if al is None or x[m.start() - at] in al:
                        raise Unsupported("search: literal %r against a symbolic part" % x)
                return False, None
            at += len(x)
            continue
        nxt = nt[i + 1][0] if i + 1 < len(nt) and isinstance(nt[i + 1], str) else None
        m = HOLE_RE.match(hay, at)
        if m:
            k, v = decode_hole(m.group())
            if k == x[0] and valkey(v) == valkey(x[1]):
                at = m.end()
                continue
            al = alphabet(x[0])
            if k != x[0] or k not in HOLE_TEXT or nxt is None or al is None or nxt in al:
                raise Unsupported("search: %s against %s" % (x[0], k))
            after = hay[m.end():m.end() + 1]
            if after != nxt:
                if after and not HOLE_RE.match(hay, m.end()) and after not in al:
                    return False, None
                raise Unsupported("search: symbolic parts with different ends")
            conds.append(v == x[1])
            at = m.end()
            continue
        if x[0] != "d" or nxt is None or nxt in ALPHABET["d"]:
            raise Unsupported("search for a text with an undelimited symbolic part")
        m = re.compile("-?[0-9]*").match(hay, at)
        if HOLE_RE.match(hay, m.end()):
            raise Unsupported("search: number next to a symbolic part")
        lit = m.group()
        if lit in ("", "-") or str(int(lit)) != lit:
            return False, None
        conds.append(x[1] == int(lit))
        at = m.end()
    return (b_and(*conds) if conds else True), at


def positions(hay, needle, start=0):
    "Occurrences (start, end) of the needle, left to right, not overlapping; branches on symbolic conditions."
    nt = tokens(needle)
    lit0 = nt[0] if nt and isinstance(nt[0], str) else None
    if lit0 is None:
        raise Unsupported("search for a text that begins with a symbolic part")
    apart(hay, lit0)
    out = []
    at = start
    while True:
        k = hay.find(lit0, at)
        if k < 0:
            return
        c, end = match_at(hay, k, needle)
        if bool(c):
            yield k, end
            at = end
        else:
            at = k + 1


def strop(name, s, a):
    "s.name(*a) for a text with holes in s or in the searched text."
    needle = a[0] if a and isinstance(a[0], str) else None
    if name in ("split", "rsplit", "partition", "rpartition", "count", "rfind", "rindex"):
        if needle:
            if has_hole(needle):
                raise Unsupported("%s by a text with holes" % name)
            apart(s, needle)
        return getattr(s, name)(*a)
    if name in ("find", "index"):
        if any(not isinstance(x, int) for x in a[1:]) or len(a) > 2:
            raise Unsupported("find with symbolic bounds")
        if needle == "":
            return s.find(*a)
        for k, _ in positions(s, needle, *a[1:]):
            return k
        if name == "index":
            raise ValueError("substring not found")
        return -1
    if name == "replace":
        if not needle:
            raise Unsupported("replace of nothing")
        n = a[2] if len(a) > 2 else -1
        out, at = [], 0
        for k, e in positions(s, needle):
            if n == 0:
                break
            n -= 1
            out += [s[at:k], a[1]]
            at = e
        return "".join(out) + s[at:]
    raise Unsupported(name)
