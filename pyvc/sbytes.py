"""Symbolic byte strings: ropes of literal pieces, integer fields and opaque blobs."""
import struct as _struct

import z3

from pyvc.core import (CTX, SymNum, SymInt, SymBool, Unsupported, PathKilled, atom, mknum, b_and, b_or, b_not,
                       mkbool, pkey, num_poly, pz3, int_divmod, pconst)


class Num(object):
    "n bytes holding an integer (unsigned value 0 <= val < 256**n)."
    __slots__ = ("n", "val", "big")

    def __init__(self, n, val, big=True):
        self.n, self.val, self.big = n, val, big

    def length(self):
        return self.n

    def at(self, i):
        k = (self.n - 1 - i) if self.big else i
        return (self.val // (256 ** k)) % 256


class Blob(object):
    "Slice [off, off+ln) of an uninterpreted byte array."
    __slots__ = ("name", "off", "ln")

    def __init__(self, name, off, ln):
        self.name, self.off, self.ln = name, off, ln

    def length(self):
        return self.ln

    def at(self, i):
        return blob_at(self.name, self.off + i)


class Dec(object):
    "Decimal text of an integer, formatted (bytes % ...)."
    __slots__ = ("kind", "val", "ln")

    def __init__(self, kind, val):
        self.kind, self.val = kind, val
        from pyvc.text import valkey


        def side(e):
            out = [e >= 1]
            if isinstance(val, SymNum):      # numbers below 10**30 and times do not take more than 64 characters
                n, d, real = num_poly(val)
                if d is None:
                    v = pz3(n, real)
                    out.append(z3.Or(e <= 64, v >= 10 ** 30, v <= -10 ** 30))
                    if kind[0] == "0" and kind[1:-1].isdigit() and kind[-1] == "d":
                        w = int(kind[1:-1])
                        out += [e >= w, z3.Or(e == w, v < 0, v >= 10 ** w)]
            return out
        if kind[0] == "0" and kind[1:-1].isdigit() and kind[-1] == "d" and isinstance(val, SymNum) and \
                CTX.entails(b_and(val >= 0, val < 10 ** int(kind[1:-1]))):
            self.ln = int(kind[1:-1])
            return
        a = atom(("declen", kind, valkey(val)), side=side)
        self.ln = mknum({(a.id,): 1})

    def length(self):
        return self.ln

    def at(self, i):
        raise Unsupported("byte of formatted number")


ARR = {}
UNPACKED = {}     # value key -> (n, big, blob piece)


def arr(name):
    a = ARR.get(name)
    if a is None:
        a = z3.Array(name, z3.IntSort(), z3.IntSort())
        ARR[name] = a
    return a


def blob_at(name, off):
    n = num_poly(off)[0]
    a = arr(name)
    at = atom(("sel", name, pkey(n)), expr=z3.Select(a, pz3(n, False)),
              side=lambda e: [e >= 0, e <= 255])
    return mknum({(at.id,): 1})


def plen(p):
    return len(p) if isinstance(p, bytes) else p.length()


def truth(c):
    return c if isinstance(c, bool) else bool(c)


def smin(a, b):
    return a if truth(a <= b) else b


class SymBytes(object):
    __slots__ = ("ps", "_len")

    def __init__(self, ps):
        self.ps = ps
        n = 0
        for p in ps:
            n = n + plen(p)
        self._len = n

    @property
    def symlen(self):
        return self._len

    def __len__(self):
        if isinstance(self._len, int):
            return self._len
        raise Unsupported("native len() of symbolic bytes")

    def __bool__(self):
        return truth(self._len != 0)

    def __add__(self, o):
        if isinstance(o, (SymBytes, bytes, bytearray)):
            return mk(self.ps + pieces(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (SymBytes, bytes, bytearray)):
            return mk(pieces(o) + self.ps)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.ps * int(n))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step")
            return self.slice(k.start, k.stop)
        n = self._len
        if truth(k < 0):
            k = k + n
        if truth(b_or(k < 0, k >= n)):
            raise IndexError("index out of range")
        for p in self.ps:
            l = plen(p)
            if truth(k < l):
                if isinstance(p, bytes):
                    return p[k if isinstance(k, int) else k.__index__()]
                if isinstance(p, Num) and not isinstance(k, int):
                    k = k.__index__()
                return p.at(k)
            k = k - l
        raise IndexError("index out of range")

    def slice(self, a, b):
        n = self._len
        if a is None:
            a = 0
        if b is None:
            b = n
        if truth(a < 0):
            a = a + n
            if truth(a < 0):
                a = 0
        if b is not n:
            if truth(b < 0):
                b = b + n
                if truth(b < 0):
                    b = 0
            elif not samepoly(b, n) and truth(b > n):
                b = n
        if truth(b <= a):
            return b""
        want = b - a
        out = []
        it = list(self.ps)
        i = 0
        # drop
        while i < len(it):
            p = it[i]
            l = plen(p)
            if isinstance(a, int) and a == 0:
                break
            if truth(a >= l):
                a = a - l
                i += 1
                continue
            it[i] = cut(p, a, None)
            if isinstance(it[i], list):
                it[i:i + 1] = it[i]
            a = 0
            break
        while i < len(it):
            if isinstance(want, int) and want <= 0:
                break
            p = it[i]
            l = plen(p)
            if samepoly(want, l):
                out.append(p)
                want = 0
                break
            if truth(want >= l):
                out.append(p)
                want = want - l
                i += 1
                continue
            c = cut(p, 0, want)
            if isinstance(c, list):
                out.extend(c)
            else:
                out.append(c)
            want = 0
            break
        return mk(out)

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)):
            return False
        return rope_eq(self, o)

    def __ne__(self, o):
        return b_not(self == o)

    __hash__ = object.__hash__

    def __iter__(self):
        i = 0
        while truth(self._len > i):
            yield self[i]
            i += 1

    def decode(self, *a):
        from pyvc import text
        out = []
        for p in self.ps:
            if isinstance(p, bytes):
                out.append(p.decode(*a))
            elif isinstance(p, Dec):
                out.append(text.hole(p.kind, p.val))
            else:
                out.append(text.hole("bytes", OpaqueText(p)))
        return "".join(out)

    def startswith(self, x):
        return self[:len(x)] == x

    def find(self, *a):
        raise Unsupported("find on symbolic bytes")

    def __repr__(self):
        return "SymBytes(%s)" % ", ".join(repr(p) if isinstance(p, bytes) else
                                          "%s[%s]" % (type(p).__name__, getattr(p, "val", getattr(p, "name", "")))
                                          for p in self.ps)


class OpaqueText(object):
    def __init__(self, p):
        self.p = p

    def __repr__(self):
        if isinstance(self.p, Blob):
            return "blob:%s:%r:%r" % (self.p.name, self.p.off, self.p.ln)
        return "num:%r" % (self.p.val,)


def samepoly(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SymNum) and isinstance(b, SymNum):
        return a.p == b.p
    return False


def pieces(o):
    if isinstance(o, SymBytes):
        return list(o.ps)
    o = bytes(o)
    return [o] if o else []


def mk(ps):
    "Normalise: merge literals and adjacent blob slices; return real bytes when fully literal."
    out = []
    for p in ps:
        if isinstance(p, bytes):
            if not p:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + p
                continue
        elif isinstance(p, Num) and isinstance(p.val, int):
            q = p.val.to_bytes(p.n, "big" if p.big else "little")
            if out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + q
            else:
                out.append(q)
            continue
        elif isinstance(p, Blob):
            if isinstance(p.ln, int) and p.ln == 0:
                continue
            if out and isinstance(out[-1], Blob) and out[-1].name == p.name and \
                    samepoly(out[-1].off + out[-1].ln, p.off):
                out[-1] = Blob(p.name, out[-1].off, out[-1].ln + p.ln)
                continue
        out.append(p)
    if not out:
        return b""
    if len(out) == 1 and isinstance(out[0], bytes):
        return out[0]
    return SymBytes(out)


def cut(p, a, b):
    "Sub-piece [a:b) of one piece (0 <= a <= b <= len); b None = end."
    if isinstance(p, bytes):
        if isinstance(a, SymNum):
            a = a.__index__()
        if isinstance(b, SymNum):
            b = b.__index__()
        return p[a:b]
    if isinstance(p, Blob):
        ln = (p.ln if b is None else b) - a
        return Blob(p.name, p.off + a, ln)
    if isinstance(p, Num):
        if isinstance(a, SymNum):
            a = a.__index__()
        if b is None:
            b = p.n
        if isinstance(b, SymNum):
            b = b.__index__()
        if a == 0 and b == p.n:
            return p
        if p.big:
            v = (p.val // (256 ** (p.n - b))) % (256 ** (b - a))
        else:
            v = (p.val // (256 ** a)) % (256 ** (b - a))
        if a == b:
            return b""
        return Num(b - a, v, p.big)
    raise Unsupported("cut of formatted number")


def num_of(ps_bytes, n, big=True):
    "Unsigned value of an n-byte rope."
    if isinstance(ps_bytes, (bytes, bytearray)):
        return int.from_bytes(ps_bytes, "big" if big else "little")
    ps = ps_bytes.ps
    if len(ps) == 1:
        p = ps[0]
        if isinstance(p, Num) and p.big == big:
            return p.val
    v = 0
    cs = []
    for i in range(n):
        cs.append(ps_bytes[i])
    if not big:
        cs.reverse()
    for c in cs:
        v = v * 256 + c
    if len(ps) == 1 and isinstance(ps[0], Blob) and isinstance(v, SymNum):
        UNPACKED[(pkey(v.p), n, big)] = ps[0]
    return v


def field(n, v, big=True):
    "Rope of n bytes for an in-range value."
    if isinstance(v, int):
        return v.to_bytes(n, "big" if big else "little")
    b = UNPACKED.get((pkey(v.p), n, big))
    if b is not None:
        return mk([b])
    return mk([Num(n, v, big)])


def rope_eq(a, b):
    la, lb = blen(a), blen(b)
    if not samepoly(la, lb):
        c = la == lb
        if not truth(c):
            return False
    pa, pb = pieces(a), pieces(b)
    conds = []
    guard = 0
    while pa and pb:
        guard += 1
        if guard > 400:
            raise Unsupported("rope equality too long")
        x, y = pa[0], pb[0]
        lx, ly = plen(x), plen(y)
        if samepoly(lx, ly) or (not (isinstance(lx, int) and isinstance(ly, int)) and
                                CTX.entails(lx == ly)):
            c = piece_eq(x, y, lx)
            if c is False:
                return False
            conds.append(c)
            pa.pop(0)
            pb.pop(0)
        elif truth(lx < ly):
            h, t = split(y, lx)
            pb[0:1] = [h, t]
        else:
            h, t = split(x, ly)
            pa[0:1] = [h, t]
    return b_and(*conds)


def split(p, n):
    return cut(p, 0, n), cut(p, n, None)


def blen(x):
    return x.symlen if isinstance(x, SymBytes) else len(x)


def piece_eq(x, y, ln):
    if isinstance(x, bytes) and isinstance(y, bytes):
        return x == y
    if isinstance(x, Num) and isinstance(y, Num) and x.big == y.big and x.n == y.n:
        return x.val == y.val
    if isinstance(x, Num) and isinstance(y, bytes):
        return x.val == int.from_bytes(y, "big" if x.big else "little")
    if isinstance(y, Num) and isinstance(x, bytes):
        return y.val == int.from_bytes(x, "big" if y.big else "little")
    if isinstance(x, Blob) and isinstance(y, Blob) and x.name == y.name:
        d = x.off - y.off
        if isinstance(d, int) and d == 0:
            return True
    if isinstance(x, Dec) and isinstance(y, Dec):
        if x.kind == y.kind:
            return x.val == y.val
        raise Unsupported("differently formatted numbers")
    if isinstance(ln, int) and ln <= 64:
        cs = []
        for i in range(ln):
            u = x[i] if isinstance(x, bytes) else x.at(i)
            v = y[i] if isinstance(y, bytes) else y.at(i)
            c = u == v
            if c is False:
                return False
            cs.append(c)
        return b_and(*cs)
    if isinstance(x, Blob) and isinstance(y, Blob):
        i = z3.Int("qi")
        ax, ay = arr(x.name), arr(y.name)
        ox, oy = (pz3(num_poly(v)[0], False) for v in (x.off, y.off))
        l = pz3(num_poly(ln)[0], False)
        e = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l),
                                      z3.Select(ax, ox + i) == z3.Select(ay, oy + i)))
        if isinstance(x.off - y.off, int) and x.name == y.name:
            return mkbool(e)
        return mkbool(e)
    raise Unsupported("piece equality %r %r" % (x, y))


# ------------------------------------------------------------------------------------------------
# struct
# ------------------------------------------------------------------------------------------------

SIZES = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8, "c": 1, "x": 1, "s": 1}


def parse_fmt(fmt):
    big = True
    order = "@"
    if fmt and fmt[0] in "<>!=@":
        order = fmt[0]
        fmt = fmt[1:]
    if order in "<=@":
        big = False
    if order == "@":
        # native alignment: only accept formats without padding
        if _struct.calcsize(fmt) != _struct.calcsize("=" + fmt):
            raise Unsupported("native struct padding %s" % fmt)
    items = []
    n = ""
    for ch in fmt:
        if ch.isdigit():
            n += ch
            continue
        if ch.isspace():
            continue
        k = int(n) if n else 1
        n = ""
        if ch == "s":
            items.append(("s", k))
        else:
            items.extend([(ch, SIZES[ch])] * k)
    return big, items


def unpack(fmt, data):
    if isinstance(data, (bytes, bytearray, memoryview)):
        return _struct.unpack(fmt, data)
    big, items = parse_fmt(fmt)
    total = sum(s for _, s in items)
    if truth(blen(data) != total):
        raise _struct.error("unpack requires a buffer of %d bytes" % total)
    out, pos = [], 0
    for ch, s in items:
        part = data[pos:pos + s]
        pos += s
        if ch == "s" or ch == "c":
            out.append(part)
        elif ch == "x":
            continue
        else:
            v = num_of(part, s, big)
            if ch in "bhilq":
                if truth(v >= 256 ** s // 2):
                    v = v - 256 ** s
            out.append(v)
    return tuple(out)


def unpack_from(fmt, data, offset=0):
    if isinstance(data, (bytes, bytearray, memoryview)) and isinstance(offset, int):
        return _struct.unpack_from(fmt, data, offset)
    _, items = parse_fmt(fmt)
    total = sum(s for _, s in items)
    return unpack(fmt, data[offset:offset + total])


def pack(fmt, *args):
    if not any(isinstance(a, (SymNum, SymBytes, SymBool)) for a in args):
        return _struct.pack(fmt, *args)
    big, items = parse_fmt(fmt)
    out = b""
    it = iter(args)
    for ch, s in items:
        if ch == "x":
            out = out + b"\0"
            continue
        v = next(it)
        if ch in "sc":
            l = blen(v)
            if truth(l >= s):
                out = out + v[:s]
            else:
                out = out + v + b"\0" * (s - l)
            continue
        if isinstance(v, SymBool):
            v = v.as_int()
        if isinstance(v, SymNum) and v.real:
            raise _struct.error("required argument is not an integer")
        if isinstance(v, int):
            out = out + _struct.pack((">" if big else "<") + ch, v)
            continue
        lo, hi = (-(256 ** s // 2), 256 ** s // 2 - 1) if ch in "bhilq" else (0, 256 ** s - 1)
        if not truth(b_and(v >= lo, v <= hi)):
            raise _struct.error("argument out of range")
        if lo < 0 and truth(v < 0):
            v = v + 256 ** s
        out = out + field(s, v, big)
    return out


def to_bytes(v, length, byteorder, signed):
    lo, hi = (-(256 ** length // 2), 256 ** length // 2 - 1) if signed else (0, 256 ** length - 1)
    if not truth(b_and(v >= lo, v <= hi)):
        raise OverflowError("int too big to convert")
    if signed and truth(v < 0):
        v = v + 256 ** length
    return field(length, v, byteorder == "big")


def from_bytes(b, byteorder="big", signed=False):
    if not isinstance(b, SymBytes):
        return int.from_bytes(b, byteorder, signed=signed)
    n = blen(b)
    if not isinstance(n, int):
        raise Unsupported("from_bytes of unknown length")
    v = num_of(b, n, byteorder == "big")
    if signed and truth(v >= 256 ** n // 2):
        v = v - 256 ** n
    return v


class Struct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def unpack(self, data):
        return unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return unpack_from(self.format, data, offset)

    def pack(self, *args):
        return pack(self.format, *args)


def of_text(s):
    "The UTF-8 bytes of a text with symbolic parts."
    from pyvc import text
    out, pos = [], 0
    for m in text.HOLE_RE.finditer(s):
        if m.start() > pos:
            out.append(s[pos:m.start()].encode("utf-8"))
        pos = m.end()
        kind, val = text.decode_hole(m.group())
        out.append(val.p if isinstance(val, OpaqueText) else Dec(kind, val))
    if pos < len(s):
        out.append(s[pos:].encode("utf-8"))
    return mk(out)


def bytes_mod(fmt, args):
    "bytes % args with symbolic arguments."
    from pyvc.text import FMT_RE
    s = fmt.decode("latin-1")
    out, pos = b"", 0
    it = iter(args if isinstance(args, tuple) else (args,))
    for m in FMT_RE.finditer(s):
        out = out + s[pos:m.start()].encode("latin-1")
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out = out + b"%"
            continue
        arg = next(it)
        if isinstance(arg, SymInt):
            out = out + mk([Dec(flags + (width or "") + conv, arg)])
        elif isinstance(arg, SymBytes):
            out = out + arg
        else:
            out = out + (("%" + flags + (width or "") + conv).encode() % (arg,))
    return out + s[pos:].encode("latin-1")
