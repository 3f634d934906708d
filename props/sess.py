"""The availability window of a session: what the options mean, stated once, independently of the code."""
from props import common as c


class Window(object):
    """A session of the given kind (plain, dur, stop, offset, tfdt: restarts every three hours) with the options in `more` (snr, tsbd, ato, inf).

    All instants are by quotient and remainder of the segment duration."""

    def __init__(self, S, v, kind, more):
        D = v.D
        self.S, self.v, self.kind = S, v, kind
        a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
        r = S.int("start_rest", 0, None, typ=(0, 1, 3))
        S.assume(r < D)
        self.ast = ast = 10800 * a if kind == "tfdt" else D * a
        self.opts = opts = ["tfdt_32"] if kind == "tfdt" else [S.fmt("start_%d", ast + r)]
        self.end = None
        self.n = 0
        if kind in ("dur", "stop"):
            self.n = n = S.int("segs", 1, 2 ** 31, typ=(1, 2, 5, 600))
            x = S.int("end_rest", 0, None, typ=(0, 1, 3))
            S.assume(x < D)
            if kind == "dur":                   # ends at D*(a + n) + x, which is rounded down
                S.assume(x >= r)
                opts.append(S.fmt("dur_%d", D * n + x - r))
            else:                               # ends at D*(a + n) - x, which is rounded up
                S.assume(D * n - x >= r)
                opts.append(S.fmt("stop_%d", ast + D * n - x))
            self.end = ast + D * n
        before = 0                              # segments of media time before the start
        if kind == "offset":
            before = S.int("offset_segs", 0, 2 ** 31, typ=(0, 1, 5))
            S.assume(before <= a)
            opts.append(S.fmt("timeoffset_%d", ast - D * before))
        self.ato, self.inf, self.tsbd = 0, False, v.tsbd
        self.k0 = 0                             # the number at media time 0
        if "snr" in more:
            snr = S.int("snr", -1, 2 ** 30, typ=(-1, 0, 1, 7))
            opts.append(S.fmt("snr_%d", snr))
            self.k0 = S.ite(snr == -1, 1, snr)
        if "tsbd" in more:
            self.tsbd = S.int("tsbd", 0, None, typ=(0, 1, 3, 10, 300))
            opts.append(S.fmt("tsbd_%d", self.tsbd))
        if "ato" in more:
            self.ato = S.real("ato", 0, 1000, typ=(0, 1, 2.5, 7))
            opts.append(S.fmt("ato_%r", self.ato))
        if "inf" in more:
            self.inf = True
            opts.append("ato_inf")
        self.first = self.k0 + before           # the number at the start of the session
        self.last = self.first + self.n - 1 if self.end is not None else None

    def avail(self, N):
        "When segment N is complete."
        return self.ast + (N - self.first + 1) * self.v.D

    def near_numbers(self):
        return tuple(x for x in (self.first, self.first + 1, self.last, self.first + self.n) if x is not None)

    def near_times(self, N):
        av = self.avail(N)
        near = [av, av - self.ato, av + self.v.D + self.tsbd, self.ast]
        if self.end is not None:
            near += [self.end, self.end + 60, self.end + 61]
        if self.kind == "tfdt":
            near += [self.ast + 10799, self.ast + 5000]
        return tuple(near)

    def within(self, now):
        "The session is the one of the instant `now`."
        return self.S.And(now >= self.ast, now < self.ast + 10800) if self.kind == "tfdt" else True

    def numbered(self, N):
        S = self.S
        return N >= self.first if self.last is None else S.And(N >= self.first, N <= self.last)

    def inside(self, N, now):
        S, av = self.S, self.avail(N)
        if self.inf:
            return now >= self.ast
        if self.kind == "stop":
            return now >= av - self.ato         # what has been recorded stays available
        return S.And(now >= av - self.ato, now <= av + self.v.D + self.tsbd)

    def due(self, N, now):
        "Conditions under which the segment must be delivered."
        S = self.S
        late = now > self.end + 60 if self.kind == "dur" else False
        return S.And(self.numbered(N), self.inside(N, now), S.Not(late))

    def check(self, S, out, N, now):
        S.check("the request ends with a response", out.ok)
        S.check("a number outside the session is refused", S.Implies(S.Not(self.numbered(N)), c.refused(out)))
        S.check("outside its window a segment is refused", S.Implies(S.Not(self.inside(N, now)), c.refused(out)))
        if self.kind == "dur":
            S.check("nothing is served more than a minute after the session",
                    S.Implies(now >= self.end + 61, c.refused(out)))
        S.check("inside its window a segment of the session is served", S.Implies(self.due(N, now), c.served(S, out)))
