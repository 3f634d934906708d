"""Path context, polynomials and symbolic scalars of the verification-condition generator.

The real code of /repo is executed by CPython on the proxy values defined here.  Integers are
mathematical integers held as polynomials over named atoms (this normal form discharges most of
the div/mod reasoning by cancelling common factors, see `int_divmod`); floats are exact reals.
Every conditional on a proxy forks: the run is repeated once per feasible decision prefix, so a
finished exploration covers every path, and every `check` on every path is one proof obligation.
"""
import sys
import time
from fractions import Fraction

import z3

Z = z3


class PathKilled(BaseException):
    "The current path is over (infeasible, cut at a loop head, or truncated)."


class Unsupported(BaseException):
    "The code under verification used an operation the engine does not model."


class EngineTimeout(BaseException):
    "The time budget of a harness is used up."


# ------------------------------------------------------------------------------------------------
# atoms
# ------------------------------------------------------------------------------------------------

class Atom(object):
    __slots__ = ("id", "key", "real", "expr", "side", "name")

    def __init__(self, ident, key, real, expr, side, name):
        self.id, self.key, self.real, self.expr, self.side, self.name = ident, key, real, expr, side, name


ATOMS = []
ATOM_BY_KEY = {}


def atom(key, real=False, name=None, side=None, expr=None):
    "Intern an atom. `side(expr)` gives definitional constraints which are asserted on every path using it."
    a = ATOM_BY_KEY.get(key)
    if a is None:
        ident = len(ATOMS)
        if expr is None:
            nm = name or ("a%d" % ident)
            expr = z3.Real(nm) if real else z3.Int(nm)
        a = Atom(ident, key, real, expr, [], name)
        ATOMS.append(a)
        ATOM_BY_KEY[key] = a
        if side is not None:
            a.side = side(expr)
    CTX.use_atom(a)
    return a


# ------------------------------------------------------------------------------------------------
# polynomials: dict {tuple of atom ids: coefficient}
# ------------------------------------------------------------------------------------------------

def pconst(c):
    return {(): c} if c else {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    if not k:
        return {}
    return {m: norm(c * k) for m, c in a.items()}


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            s = r.get(m, 0) + c1 * c2
            if s:
                r[m] = norm(s)
            else:
                r.pop(m, None)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pisconst(p):
    return not p or (len(p) == 1 and () in p)


def pconstval(p):
    return p.get((), 0)


_Z3CACHE = {}


def preal(p):
    "Does the polynomial have to live in the reals?"
    for m, c in p.items():
        if not isinstance(c, int):
            return True
        for i in m:
            if ATOMS[i].real:
                return True
    return False


def pz3(p, real=None):
    "z3 term for a polynomial."
    if real is None:
        real = preal(p)
    key = (real, pkey(p))
    e = _Z3CACHE.get(key)
    if e is not None:
        return e
    terms = []
    for m, c in sorted(p.items()):
        fs = []
        for i in m:
            x = ATOMS[i].expr
            if real and not ATOMS[i].real:
                x = z3.ToReal(x)
            fs.append(x)
        t = None
        for x in fs:
            t = x if t is None else t * x
        if t is None:
            t = z3.RealVal(c) if real else z3.IntVal(c)
        elif c != 1:
            t = (z3.RealVal(c) if real else z3.IntVal(c)) * t
        terms.append(t)
    if not terms:
        e = z3.RealVal(0) if real else z3.IntVal(0)
    elif len(terms) == 1:
        e = terms[0]
    else:
        e = z3.Sum(terms)
    _Z3CACHE[key] = e
    return e


# ------------------------------------------------------------------------------------------------
# context
# ------------------------------------------------------------------------------------------------

class Ctx(object):
    "State of the exploration of one harness."

    def __init__(self):
        self.active = False
        self.stats = {"queries": 0, "solver_s": 0.0}
        self.branch_timeout = 3000
        self.check_timeout = 20000
        self.unroll = 12
        self.deadline = None

    def start_path(self, prefix, vals=None):
        self.prefix = list(prefix)
        self.prefix_vals = dict(vals or {})
        self.vals_at = dict(vals or {})
        self.decisions = []
        self.pc = []
        self.known = {}
        self.keep = []
        self.sites = {}
        self.used_atoms = set()
        self.solver = z3.SolverFor("QF_NIA") if False else z3.Solver()
        self.solver.set("timeout", self.branch_timeout)
        self.pending = []
        self.truncated = False
        self.active = True
        self.fresh_n = {}
        self.events = []

    def fresh_name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def use_atom(self, a):
        if not self.active or a.id in self.used_atoms:
            return
        self.used_atoms.add(a.id)
        for c in a.side:
            self.solver.add(c)
            self.pc.append(c)

    def check_sat(self, *extra, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise EngineTimeout()
        t0 = time.time()
        self.stats["queries"] += 1
        if timeout:
            self.solver.set("timeout", timeout)
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        if timeout:
            self.solver.set("timeout", self.branch_timeout)
        self.stats["solver_s"] += time.time() - t0
        return r

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        "Assume a condition; kill the path when it is inconsistent."
        if c is True:
            return
        if c is False:
            raise PathKilled("assume False")
        if isinstance(c, SymBool):
            c = c.e
        self.add(c)
        if self.check_sat() == z3.unsat:
            raise PathKilled("assume")

    def entails(self, c):
        "True if pc entails c (z3 BoolRef or bool)."
        if isinstance(c, bool):
            return c
        if isinstance(c, SymBool):
            c = c.e
        k = self.known.get(c.get_id())
        if k is not None:
            return k
        return self.check_sat(z3.Not(c)) == z3.unsat

    def branch(self, c, site=None):
        "Decide a condition, forking when both outcomes are feasible."
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        cid = c.get_id()
        k = self.known.get(cid)
        if k is not None:
            return k
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            nc = z3.Not(c)
            t = self.check_sat(c)
            if t == z3.unsat:
                d = False
            else:
                f = self.check_sat(nc)
                if f == z3.unsat:
                    d = True
                else:
                    if site is not None:
                        n = self.sites.get(site, 0) + 1
                        self.sites[site] = n
                        if n > self.unroll:
                            self.truncated = True
                            raise PathKilled("unroll limit at %s" % (site,))
                    d = True
                    self.pending.append((self.decisions + [False], dict(self.vals_at)))
        self.decisions.append(d)
        self.keep.append(c)
        self.known[cid] = d
        self.add(c if d else z3.Not(c))
        return d


CTX = Ctx()


def _site():
    f = sys._getframe(2)
    while f is not None and "/pyvc/" in f.f_code.co_filename:
        f = f.f_back
    if f is None:
        return None
    return (f.f_code.co_filename, f.f_lineno, f.f_code.co_name)


# ------------------------------------------------------------------------------------------------
# booleans
# ------------------------------------------------------------------------------------------------

class SymBool(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e, _site())

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(zb(self) == zb(o))
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return b_not(self == o)

    def as_int(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return self.as_int()

    def __int__(self):
        return self.as_int()

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__
    __hash__ = object.__hash__


def zb(b):
    if isinstance(b, SymBool):
        return b.e
    return z3.BoolVal(bool(b))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_and(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(z3.And(*es)) if len(es) > 1 else SymBool(es[0])


def b_or(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(z3.Or(*es)) if len(es) > 1 else SymBool(es[0])


def b_not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def b_implies(a, b):
    return b_or(b_not(a), b)


# ------------------------------------------------------------------------------------------------
# numbers
# ------------------------------------------------------------------------------------------------

def is_num(x):
    return isinstance(x, (int, float, Fraction, SymNum)) or isinstance(x, SymBool)


def num_poly(x):
    "(numerator polynomial, denominator polynomial, isreal)"
    if isinstance(x, SymNum):
        return x.p, x.d, x.real
    if isinstance(x, bool):
        return pconst(int(x)), None, False
    if isinstance(x, int):
        return pconst(x), None, False
    if isinstance(x, float):
        return pconst(norm(Fraction(x))), None, True
    if isinstance(x, Fraction):
        return pconst(norm(x)), None, True
    if isinstance(x, SymBool):
        return pconst(x.as_int()), None, False
    return None


def mknum(p, d=None, real=False):
    if d is not None:
        if pisconst(d):
            p = pscale(p, Fraction(1) / pconstval(d))
            d = None
        elif not p:
            d = None
    if d is None and pisconst(p):
        c = pconstval(p)
        if not real:
            if isinstance(c, int):
                return c
            raise Unsupported("non-integral int constant")
        return float(c)
    if real:
        return SymReal(p, d)
    return SymInt(p, None)


class SymNum(object):
    __slots__ = ("p", "d")
    real = False

    def __init__(self, p, d=None):
        self.p, self.d = p, d

    def z(self):
        if self.d is not None:
            return pz3(self.p, True) / pz3(self.d, True)
        return pz3(self.p)

    def __hash__(self):
        return hash(pkey(self.p))

    # arithmetic
    def _bin(self, o, op, swap=False):
        n = num_poly(o)
        if n is None:
            return NotImplemented
        a = (self.p, self.d, self.real)
        if swap:
            a, n = n, a
        (p1, d1, r1), (p2, d2, r2) = a, n
        real = r1 or r2
        if op == "mul":
            return mknum(*pcancel(pmul(p1, p2), dmul(d1, d2)), real)
        if d1 is None and d2 is None:
            p = padd(p1, p2) if op == "add" else psub(p1, p2)
            return mknum(p, None, real)
        if d1 == d2:
            p = padd(p1, p2) if op == "add" else psub(p1, p2)
            return mknum(p, d1, real)
        e1, e2 = d1 or {(): 1}, d2 or {(): 1}
        x, y = pmul(p1, e2), pmul(p2, e1)
        p = padd(x, y) if op == "add" else psub(x, y)
        return mknum(p, pmul(e1, e2), real)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, "mul")

    def __rmul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, "mul", True)

    def __neg__(self):
        return mknum(pscale(self.p, -1), self.d, self.real)

    def __pos__(self):
        return self

    def __abs__(self):
        e = self.z()
        if CTX.entails(e >= 0):
            return self
        if CTX.entails(e <= 0):
            return -self
        a = atom(("abs", pkey(self.p), pkey(self.d or {})), real=self.real,
                 side=lambda v: [v == z3.If(e >= 0, e, -e)])
        return mknum({(a.id,): 1}, None, self.real)

    def __truediv__(self, o):
        return true_div(self, o)

    def __rtruediv__(self, o):
        return true_div(o, self)

    def __floordiv__(self, o):
        return num_divmod(self, o)[0] if num_poly(o) else NotImplemented

    def __rfloordiv__(self, o):
        return num_divmod(o, self)[0] if num_poly(o) else NotImplemented

    def __mod__(self, o):
        return num_divmod(self, o)[1] if num_poly(o) else NotImplemented

    def __rmod__(self, o):
        return num_divmod(o, self)[1] if num_poly(o) else NotImplemented

    def __divmod__(self, o):
        return num_divmod(self, o)

    def __rdivmod__(self, o):
        return num_divmod(o, self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("pow")

    def __rpow__(self, o):
        return o ** self.__index__()

    # comparisons
    def _cmp(self, o, op):
        n = num_poly(o)
        if n is None:
            return NotImplemented
        p2, d2, _ = n
        p1, d1 = self.p, self.d
        if d1 != d2:
            if d1 is not None:
                s = dsign(d1)
                p1, p2 = pscale(p1, s), pscale(pmul(p2, d1), s)
            if d2 is not None:
                s = dsign(d2)
                p1, p2 = pscale(pmul(p1, d2), s), pscale(p2, s)
        elif d1 is not None:
            s = dsign(d1)
            p1, p2 = pscale(p1, s), pscale(p2, s)
        diff = psub(p1, p2)
        return pcmp0(diff, op)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return True if r is NotImplemented else b_not(r)

    def __bool__(self):
        r = self._cmp(0, "eq")
        return not bool(r)

    def __repr__(self):
        return "<%s %s>" % (self.__class__.__name__, self.z())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def dsign(d):
    "Sign of a denominator (forking if it is not determined)."
    r = pcmp0(d, "gt")
    if isinstance(r, SymBool):
        r = CTX.branch(r.e, None)
    return 1 if r else -1


def dmul(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return pmul(a, b)


def pcancel(p, d):
    "Cancel a common monomial factor of p and d (d != 0)."
    if d is None or len(d) != 1:
        return p, d
    (m, c), = d.items()
    m = list(m)
    for i in list(m):
        if p and all(i in mm for mm in p):
            np = {}
            for mm, cc in p.items():
                l = list(mm)
                l.remove(i)
                np[tuple(l)] = cc
            p = np
            m.remove(i)
    return p, {tuple(m): c}


def pcmp0(p, op):
    "Compare polynomial with 0."
    if pisconst(p):
        c = pconstval(p)
        return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0}[op]
    # canonical sign / content so that equal facts share one literal
    real = preal(p)
    if not real:
        from math import gcd
        g = 0
        for m, c in p.items():
            if m != ():
                g = gcd(g, c)
        c0 = p.get((), 0)
        if g > 1:
            q = {m: c // g for m, c in p.items() if m != ()}
            if op == "eq":
                if c0 % g:
                    return False
                k = c0 // g
            elif op == "lt":   # q < -c0/g  <=>  q - ceil(-c0/g) < 0
                k = c0 // g
            elif op == "le":   # q <= floor(-c0/g)
                k = -((-c0) // g)
            elif op == "gt":   # q > floor(-c0/g)
                k = -((-c0) // g)
            else:              # ge: q >= ceil(-c0/g)
                k = c0 // g
            if k:
                q[()] = k
            p = q
    lead = next(c for m, c in sorted(p.items()) if m != ())
    if lead < 0:
        p = pscale(p, -1)
        op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq"}[op]
    neg = False
    if op == "lt":
        op, neg = "ge", True
    elif op == "le" :
        op, neg = "gt", True
    if op == "gt" and not real:   # p > 0 <=> p - 1 >= 0
        p = padd(p, pconst(-1))
        op = "ge"
    rest = {m: c for m, c in p.items() if m != ()}
    k = -pconstval(p)
    lhs = pz3(rest, real)
    rhs = z3.RealVal(k) if real else z3.IntVal(k)
    if op == "eq":
        e = lhs == rhs
    elif op == "gt":
        e = lhs > rhs
    else:
        e = lhs >= rhs
    # keep alive in cache for stable ids
    e = _LIT.setdefault((op, pkey(p)), e)
    return SymBool(z3.Not(e)) if neg else SymBool(e)


_LIT = {}


class SymInt(SymNum):
    __slots__ = ()
    real = False

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import sbytes
        return sbytes.to_bytes(self, length, byteorder, signed)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __str__(self):
        from pyvc import text
        return text.hole("d", self)

    def __format__(self, spec):
        from pyvc import text
        return text.hole(spec if spec.endswith("d") else spec + "d", self)

    def __and__(self, o):
        return bit_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bit_or(self, o)
    __ror__ = __or__

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return self // (1 << o.__index__())

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self * (1 << o.__index__())

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __round__(self, n=None):
        return self

    def bit_length(self):
        raise Unsupported("bit_length")


class SymReal(SymNum):
    __slots__ = ()
    real = True

    def __str__(self):
        from pyvc import text
        return text.hole("r", self)

    def __format__(self, spec):
        from pyvc import text
        return text.hole(spec or "r", self)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        return round_half_even(self)

    def __float__(self):
        raise Unsupported("native float() of symbolic real")


for _c in (SymInt, SymReal):
    _c.__hash__ = SymNum.__hash__


def concretize(x, limit=64):
    "Fork over the concrete values of a symbolic int."
    n = 0
    while True:
        i = len(CTX.decisions)
        if i < len(CTX.prefix):
            # values are recorded next to decisions to stay deterministic
            v = CTX.prefix_vals[i]
        else:
            if CTX.check_sat() == z3.unsat:
                raise PathKilled("concretize")
            CTX.solver.push()
            r = CTX.solver.check()
            if r != z3.sat:
                CTX.solver.pop()
                raise Unsupported("concretize: solver says %s" % r)
            v = CTX.solver.model().eval(x.z(), model_completion=True).as_long()
            CTX.solver.pop()
        CTX.vals_at[i] = v
        c = (x == v)
        if isinstance(c, bool):
            if c:
                return v
            continue
        if CTX.branch(c.e):
            return v
        n += 1
        if n > limit:
            CTX.truncated = True
            raise PathKilled("concretize limit")


def bit_and(a, b):
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, SymInt) and isinstance(a, SymInt):
        raise Unsupported("symbolic & symbolic")
    if b < 0:
        raise Unsupported("& negative")
    # sum of contiguous masks
    res = 0
    i = 0
    while b >> i:
        if (b >> i) & 1:
            j = i
            while (b >> j) & 1:
                j += 1
            res = res + ((a // (1 << i)) % (1 << (j - i))) * (1 << i)
            i = j
        else:
            i += 1
    return res


def bit_or(a, b):
    "a | b = a + b - (a & b); exact when one side is a constant mask, or provably disjoint."
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return a + b - bit_and(a, b)
    # try disjointness: a multiple of 2^k and 0 <= b < 2^k
    for x, y in ((a, b), (b, a)):
        for k in range(1, 33):
            if CTX.entails(b_and(y >= 0, y < (1 << k))):
                r = x % (1 << k)
                if (isinstance(r, int) and r == 0) or (not isinstance(r, int) and CTX.entails(r == 0)):
                    return x + y
                break
    raise Unsupported("symbolic | symbolic")


def true_div(a, b):
    pa, pb = num_poly(a), num_poly(b)
    if pa is None or pb is None:
        return NotImplemented
    z = b == 0
    if z if isinstance(z, bool) else bool(z):
        raise ZeroDivisionError("division by zero")
    (p1, d1, _), (p2, d2, _) = pa, pb
    num = p1 if d2 is None else pmul(p1, d2)
    den = p2 if d1 is None else pmul(p2, d1)
    if pisconst(den):
        return mknum(pscale(num, Fraction(1) / pconstval(den)), None, True)
    if num == den:
        return 1.0
    num, den = pcancel(num, den)
    return mknum(num, den, True)


def to_int_poly(x):
    "Return (num, den) integer-coefficient polys over int atoms for a rational-valued number, or None."
    p, d, _ = num_poly(x)
    d = d or {(): 1}
    l = 1
    for c in list(p.values()) + list(d.values()):
        if isinstance(c, Fraction):
            from math import lcm
            l = lcm(l, c.denominator)
    p, d = pscale(p, l), pscale(d, l)
    for q in (p, d):
        for m in q:
            if any(ATOMS[i].real for i in m):
                return None
    return p, d


def real_floor(x):
    "floor of a symbolic real as SymInt."
    if not isinstance(x, SymNum):
        from math import floor
        return floor(x)
    if not x.real:
        return x
    t = to_int_poly(x)
    if t is not None:
        p, d = t
        if pisconst(d) and pconstval(d) == 1:
            return mknum(p)
        return int_divmod(p, d)[0]
    if x.d is None or (pisconst(x.d) and pconstval(x.d) == 1):      # a whole part can be taken out
        whole = {m: c for m, c in x.p.items()
                 if (isinstance(c, int) or c.denominator == 1) and not any(ATOMS[i].real for i in m)}
        rest = {m: c for m, c in x.p.items() if m not in whole}
        if whole and rest:
            return mknum({m: int(c) for m, c in whole.items()}) + real_floor(mknum(rest, None, True))
    key = ("floor", pkey(x.p), pkey(x.d or {}))
    xe = x.z()
    a = atom(key, side=lambda e: [z3.ToReal(e) <= xe, xe < z3.ToReal(e) + 1])
    return mknum({(a.id,): 1})


def real_trunc(x):
    if not isinstance(x, SymNum):
        return int(x)
    if not x.real:
        return x
    t = to_int_poly(x)
    if t is not None and pisconst(t[1]) and pconstval(t[1]) == 1:
        return mknum(t[0])
    if x >= 0:
        return real_floor(x)
    return -real_floor(-x)


def real_ceil(x):
    if not isinstance(x, SymNum):
        from math import ceil
        return ceil(x)
    return -real_floor(-x)


def round_half_even(x):
    if not isinstance(x, SymNum):
        return round(x)
    if not x.real:
        return x
    t = to_int_poly(x)
    if t is None:
        f = real_floor(x + Fraction(1, 2))
        if x + Fraction(1, 2) == f and f % 2 == 1:
            return f - 1
        return f
    p, d = t
    q, r = int_divmod(padd(pscale(p, 2), d), pscale(d, 2))
    if r == 0:
        if q % 2 == 1:
            return q - 1
    return q


def num_divmod(a, b):
    pa, pb = num_poly(a), num_poly(b)
    if pa is None or pb is None:
        return NotImplemented
    z = b == 0
    if z if isinstance(z, bool) else bool(z):
        raise ZeroDivisionError("division by zero")
    if pa[2] or pb[2]:
        q = real_floor(true_div(a, b))
        r = a - q * b
        qf = as_real(q)
        return qf, r
    return int_divmod(pa[0], pb[0])


def as_real(x):
    "Same value, typed as float."
    if isinstance(x, SymInt):
        return SymReal(x.p, None)
    if isinstance(x, SymReal):
        return x
    return float(x)


def int_divmod(p, q):
    """Python floor divmod of integer polynomials (q != 0 on this path).

    Lemma used (proved in lemmas.py): for g != 0, (g*a + b) divmod (g*c) with b = 0 is
    (a div c, g*(a mod c)); and (q*a + b) divmod q = (a + b div q, b mod q)."""
    # constant divisor
    if pisconst(q):
        k = pconstval(q)
        if k < 0:
            d, m = int_divmod(pscale(p, -1), pconst(-k))
            return d, -m
        if k == 1:
            return mknum(p), 0
        quo, rem = {}, {}
        for m, c in p.items():
            a, b = divmod(c, k)
            if a:
                quo[m] = a
            if b:
                rem[m] = b
        return _divmod_atom(quo, rem, {(): k})
    # common monomial/content factor of q
    from math import gcd
    monos = list(q)
    common = list(monos[0])
    for m in monos[1:]:
        ml = list(m)
        nc = []
        for i in common:
            if i in ml:
                ml.remove(i)
                nc.append(i)
        common = nc
    g = 0
    for c in q.values():
        g = gcd(g, c)
    # can p be divided fully by a factor of (g, common)?
    pc = list(common)
    for m in p:
        ml = list(m)
        nc = []
        for i in pc:
            if i in ml:
                ml.remove(i)
                nc.append(i)
        pc = nc
    pg = g
    for c in p.values():
        pg = gcd(pg, c)
    if p and (pc or pg > 1):
        q2 = _pdivmono(q, pc, pg)
        p2 = _pdivmono(p, pc, pg)
        d, m = int_divmod(p2, q2)
        fac = mknum({tuple(sorted(pc)): pg})
        return d, m * fac
    if not p:
        return 0, 0
    # peel multiples of q: single-monomial q
    quo = {}
    rem = dict(p)
    if len(q) == 1:
        (qm, qc), = q.items()
        for m, c in list(rem.items()):
            ml = list(m)
            ok = True
            for i in qm:
                if i in ml:
                    ml.remove(i)
                else:
                    ok = False
                    break
            if ok:
                a, b = divmod(c, qc)
                if a:
                    quo = padd(quo, {tuple(ml): a})
                if b:
                    rem[m] = b
                else:
                    del rem[m]
    else:
        # multivariate: peel k*q for integer k matching the first monomial
        lead = sorted(q)[-1]
        if lead in rem and rem[lead] % q[lead] == 0:
            k = rem[lead] // q[lead]
            rem = psub(rem, pscale(q, k))
            quo = pconst(k)
    if len(q) == 1 and rem:
        r = _nested_divmod(rem, q)
        if r is not None:
            d, m = r
            return mknum(quo) + d, m
    return _divmod_atom(quo, rem, q)


def _nested_divmod(rem, q):
    "(f*a + r) divmod (f*h) = (a div h, f*(a mod h) + r) for 0 <= r < f and h > 0."
    (qm, qc), = q.items()
    cands = []
    if qc > 1 and qm:
        cands.append(((), qc))
    for i in sorted(set(qm)):
        if len(qm) > 1 or qc > 1:
            cands.append(((i,), 1))
        if len(qm) > 1 and qc > 1:
            cands.append(((i,), qc))
    for fm, fc in cands:
        a, r = {}, {}
        for m, c in rem.items():
            ml = list(m)
            try:
                for i in fm:
                    ml.remove(i)
            except ValueError:
                r[m] = c
                continue
            if fc > 1 and c % fc:
                k = c // fc
                if k:
                    a[tuple(ml)] = k
                r[m] = c - k * fc
            else:
                a[tuple(ml)] = c // fc
        if not a:
            continue
        hm = list(qm)
        for i in fm:
            hm.remove(i)
        h = {tuple(hm): qc // fc}
        R, F, H = mknum(r) if r else 0, mknum({fm: fc}), mknum(h)
        c = b_and(R >= 0, R < F, H > 0)
        if c is True or (c is not False and CTX.entails(c)):
            d, m = int_divmod(a, h)
            return d, m * F + R
    return None


def _pdivmono(p, monos, g):
    r = {}
    for m, c in p.items():
        l = list(m)
        for i in monos:
            l.remove(i)
        r[tuple(l)] = c // g
    return r


def _divmod_atom(quo, rem, q):
    "quo + rem divmod q"
    if not rem:
        return mknum(quo), 0
    if pisconst(rem) and pisconst(q):
        d, m = divmod(pconstval(rem), pconstval(q))
        return mknum(padd(quo, pconst(d))), m
    R, Q = mknum(rem), mknum(q)
    # cheap cases decided by the path condition
    ge0, lt = R >= 0, R < Q
    c = b_and(ge0, lt, Q > 0)
    if c is True or (c is not False and CTX.entails(c)):
        return mknum(quo), R
    c = b_and(R >= -Q, R < 0, Q > 0)
    if c is True or (c is not False and CTX.entails(c)):
        return mknum(padd(quo, pconst(-1))), R + Q
    rz, qz = pz3(rem, False), pz3(q, False)

    def side_q(e):
        return []
    kq = ("div", pkey(rem), pkey(q))
    kr = ("mod", pkey(rem), pkey(q))
    ar = atom(kr)
    if pisconst(q):
        aq = atom(kq)
        cons = [rz == qz * aq.expr + ar.expr, ar.expr >= 0, ar.expr < qz]
    else:
        aq = atom(kq)
        cons = [z3.Implies(qz > 0, z3.And(rz == qz * aq.expr + ar.expr, ar.expr >= 0, ar.expr < qz)),
                z3.Implies(qz < 0, z3.And(rz == qz * aq.expr + ar.expr, ar.expr <= 0, ar.expr > qz))]
        # helpful (implied) facts for the nonlinear solver
        cons.append(z3.Implies(z3.And(qz > 0, rz >= 0), z3.And(aq.expr >= 0, aq.expr <= rz)))
    if not aq.side:
        aq.side = cons
        CTX.used_atoms.discard(aq.id)
        CTX.use_atom(aq)
    elif aq.id not in CTX.used_atoms:
        CTX.use_atom(aq)
    return mknum(padd(quo, {(aq.id,): 1})), mknum({(ar.id,): 1})
