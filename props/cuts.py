"""Loop invariants (contracts of the loops) for the functions under contract.

Keys are "module:function:ordinal of the loop in the function".  An invariant that no longer fits the
source (other loop, other names) makes the runner fall back to bounded unrolling, labelled so."""
from pyvc.core import CTX, Unsupported
from pyvc.loader import LoopCut, SymRange

_n = [0]


def fresh_int(base, lo=None, hi=None):
    from pyvc.core import atom, mknum
    k = CTX.fresh_name(base)
    a = atom(("havoc", k), name=str(k))
    v = mknum({(a.id,): 1})
    if lo is not None:
        CTX.assume(v >= lo)
    if hi is not None:
        CTX.assume(v <= hi)
    return v


class RangeCut(LoopCut):
    "for x in range(n) with a symbolic n: index i, 0 <= i <= n."

    def enter(self, loc):
        it = self.iter
        if isinstance(it, SymRange):
            if it.a != 0 or it.step != 1:
                raise Unsupported("range shape")
            self.n_iter = it.b
        elif isinstance(it, range):
            if it.start != 0 or it.step != 1:
                raise Unsupported("range shape")
            self.n_iter = it.stop
        else:
            raise Unsupported("not a range loop")
        self.i = 0
        LoopCut.enter(self, loc)

    def havoc_heap(self, loc):
        n = self.n_iter
        hi = n if not isinstance(n, int) else max(n, 0)
        self.i = fresh_int("i")
        from pyvc.core import b_and, b_or
        CTX.assume(b_and(self.i >= 0, b_or(self.i <= hi, self.i == 0)))
        self.fresh_heap(loc)

    def has_next(self):
        c = self.i < self.n_iter
        return c if isinstance(c, bool) else bool(c)

    def next(self):
        v = self.i
        self.i = self.i + 1
        return v


def trun_entry_size(loc):
    return 4 * sum(1 for k in ("sample_duration_present", "sample_size_present", "sample_flags_present",
                               "sample_comp_time_present") if truth(loc[k] != 0))


def truth(c):
    return c if isinstance(c, bool) else bool(c)


class TrunDuration(RangeCut):
    """MediaSegmentFilter.process_trun: pos is at entry i; duration is the sum of the first i sample durations
    (ghost prefix sum: P(0) = 0, P(i+1) = P(i) + duration of entry i)."""

    def setup(self, loc):
        self.e = trun_entry_size(loc)
        self.pos0 = loc["pos"]
        self.dur = truth(loc["sample_duration_present"] != 0)
        d = loc["self"].default_sample_duration
        self.default = 0 if d is None else d
        self.data = loc["data"]

    def invariant(self, loc):
        out = [("entry position", loc["pos"] == self.pos0 + self.e * self.i)]
        if self.dur:
            out.append(("duration sum", loc["duration"] == self.sum_at(self.i)))
        else:
            out.append(("duration sum", loc["duration"] == self.default * self.i))
        return out

    def sum_at(self, i):
        h = CTX.harness
        f = getattr(h, "ghost_trun_sum", None)
        names = {getattr(x, "name", None) for x in getattr(self.data, "ps", ())}
        for table, g in getattr(h, "ghost_trun_sums", ()):
            if getattr(table, "ps", None) and table.ps[0].name in names:
                f = g
        if f is None:
            raise Unsupported("no ghost sum")
        return f(i)

    def has_next(self):
        more = RangeCut.has_next(self)
        if not more and self.dur:
            # congruence of the ghost function: equal arguments, equal sums
            from pyvc.core import b_implies
            CTX.assume(b_implies(self.i == self.n_iter, self.sum_at(self.i) == self.sum_at(self.n_iter)))
        return more

    def fresh(self, name, old):
        if name == "pos":
            return fresh_int("pos")
        if name == "duration":
            return fresh_int("duration")
        return old


class GhostSum(object):
    """Ghost prefix sums of the sample durations of a table held in a blob: P(0)=0, P(i+1)=P(i)+d(i), where d(i)
    is the 32-bit field at `off` of entry i (entry size e)."""

    def __init__(self, S, blob, e, off, n):
        self.S, self.blob, self.e, self.off, self.n = S, blob, e, off, n

    def d(self, i):
        S = self.S
        return S.unum(self.blob[i * self.e + self.off:i * self.e + self.off + 4])

    def __call__(self, i):
        from pyvc.core import atom, mknum, num_poly, pkey, SymNum, b_implies, b_and
        from pyvc import sbytes
        name = self.blob.ps[0].name if hasattr(self.blob, "ps") else "?"

        def P(x):
            if isinstance(x, int) and x == 0:
                return 0
            a = atom(("ghostsum", name, self.e, self.off, pkey(num_poly(x)[0])))
            return mknum({(a.id,): 1})
        v = P(i)
        if isinstance(i, int) and i == 0:
            return v
        # definition, unfolded at i: P(i) = P(i-1) + d(i-1) for i >= 1; P(0) = 0
        if truth(i == 0):
            CTX.assume(v == 0)
            return v
        CTX.assume(b_and(v == P(i - 1) + self.d(i - 1), v >= 0))
        return v


M = "dashlivesim.dashlib."
TRUN = {M + "mediasegmentfilter:MediaSegmentFilter.process_trun:0": TrunDuration}
