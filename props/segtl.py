"""Contents described by a table of segment durations, and what a timeline over them must list."""
from props import common as c
from props import cuts
from props.cuts import fresh_int, truth
from pyvc.loader import LoopCut


class Table(object):
    "Entries (repeats, start, duration) that tile the loop, with repeats and durations arbitrary within the shape."

    def __init__(self, vod, ts, entries, sym_rep, rest=None):
        self.vod, self.ts, self.entries, self.sym_rep = vod, ts, entries, sym_rep
        self.tracks = {"video": self, **(rest or {})}
        self.W = vod.D * vod.nr * ts

    def expected(self, S, ws, s, we, e, span, skip=None):
        """Runs (time, duration, repeats, index) of the segments that end at or before loop `we`, tic `e`, from the one
        that contains loop `ws`, tic `s` on (skip: from segment number `skip` on).  Loops we-span .. we are looked at,
        or 0 .. span for a session that is followed from its start."""
        nr = self.vod.nr
        runs = []
        for i in range(span + 1):
            w = (ws + i) if ws is not None else i
            # relative to loop w: window [lo, hi]
            lo = s - i * self.W
            hi = e + (we - ws - i) * self.W
            m = 0
            for k, (rep, T, d) in enumerate(self.entries):
                if self.sym_rep:
                    qlo = S.max(0, (lo - T) // d)
                    qhi = S.min(rep, (hi - T) // d - 1)
                    if qlo <= qhi:
                        runs.append((w * self.W + T + qlo * d, d, qhi - qlo, w * nr + m + qlo))
                else:
                    q0, q1 = None, None
                    for q in range(rep + 1):
                        end = T + (q + 1) * d
                        inside = S.And(end <= hi, (end > lo) if skip is None else (i * nr + m + q >= skip))
                        if inside:
                            q1 = q
                            if q0 is None:
                                q0 = q
                    if q0 is not None:
                        runs.append((w * self.W + T + q0 * d, d, q1 - q0, w * nr + m + q0))
                m = m + rep + 1
        return runs


def table(S, shape):
    if shape == "one":            # one entry, few equal segments
        D, ts = S.choice("grid", [(2, 90000), (6, 48000)])
        reps = [S.choice("repeats", [0, 2])]
        durs = [D * ts]
    elif shape == "two":          # two equal segments
        D, ts = 2, 90000
        reps, durs = [1], [D * ts]
    elif shape == "jitter":       # two entries, arbitrary durations near the nominal one
        D, ts = 2, 48000
        reps = [0, 2]
        x = S.int("jitter", 0, D * ts // 7, typ=(0, 1, 100, 142))
        durs = [D * ts + 3 * x, D * ts - x]
        if S.flag("short_first"):
            durs = [D * ts - 3 * x, D * ts + x]
    elif shape == "three":        # three entries
        D, ts = 2, 1000
        reps = [1, 0, 0]
        x = S.int("jitter", 0, D * ts // 7, typ=(0, 1, 100, 280))
        y = S.int("jitter2", 0, D * ts // 7, typ=(0, 1, 100, 280))
        durs = [D * ts - x, D * ts + 2 * x - y, D * ts + y]
    elif shape == "long":         # one entry, any number of equal segments
        D, ts = S.choice("grid", [(2, 90000), (8, 10000000)])
        reps = [S.int("repeats", 0, 65535, typ=(0, 1, 2, 20, 599), gmax=30)]
        durs = [D * ts]
    else:                         # two entries, any number of segments
        D, ts = 2, 1000
        r = S.int("repeats", 0, 30000, typ=(0, 1, 2, 10), gmax=30)
        reps = [r, r]
        durs = [1900, 2100]
    # the sound has its own timescale and, where the pictures' segments differ in length, other segments
    ats = {90000: 48000, 10000000: 48000, 48000: 44100, 1000: 2000}[ts]
    areps, adurs = (reps, [2 * d for d in durs]) if shape == "longjitter" else ([sum(r + 1 for r in reps) - 1], [D * ats])
    nr = sum(r + 1 for r in reps)
    first = S.int("first_seg", 0, 100, typ=(0, 1, 5))
    W = D * nr * ts
    v = c.vod(S, D=D, nr=nr, first=first, tsbd=300, ts={"video": ts, "audio": ats}, version="1.1",
              total={"video": W, "audio": D * nr * ats})

    def write(name, reps, durs):
        t, n, data, entries = 0, first, b"", []
        for r, d in zip(reps, durs):
            data = S.cat(data, S.le(2, n), S.le(2, r), S.le(4, t), S.le(4, d))
            entries.append((r, t, d))
            t = t + (r + 1) * d
            n = n + r + 1
        S.assume(t < 2 ** 32)
        S.assume(n < 2 ** 16)
        S.file("cfg/c_%s.dat" % name, data)
        return entries
    long = shape.startswith("long")
    audio = Table(v, ats, write("audio", areps, adurs), long)
    return Table(v, ts, write("video", reps, durs), long, {"audio": audio})


def listed(S, root, content_type="video"):
    "(SegmentTemplate, [(t or None, d, r)]) of an adaptation set; None when there is not exactly one timeline."
    for p, a, t in c.templates(root):
        if a.get("contentType") == content_type:
            tl = t.findall(c.NS + "SegmentTimeline")
            if len(tl) != 1:
                return None
            out = []
            for s in tl[0].findall(c.NS + "S"):
                out.append(tuple(None if s.get(k) is None else S.parse_int(s.get(k)) for k in ("t", "d", "r")))
            return t, out
    return None


def check_template(S, tb, root, numbered, expected, first, p):
    "The templates list what is expected of a table; the session starts with p seconds of media."
    for ct in ("video", "audio"):
        tt = tb.tracks[ct]
        want = expected(tt)
        x = listed(S, root, ct)
        S.check("there is one timeline per adaptation set", x is not None)
        t, got = x
        S.check("the timeline counts in the content's timescale, not in fixed durations",
                t.get("timescale") == "%d" % tt.ts and t.get("duration") is None)
        x = t.get("presentationTimeOffset")
        S.check("the media time at the period start is announced", (S.parse_int(x) if x is not None else 0) == p * tt.ts)
        S.check("the window's segments and no others are listed: number of runs", len(got) == len(want))
        pos = None
        for i, ((st, d, r), (wt, wd, wr, wm)) in enumerate(zip(got, want)):
            S.check("the first run has its start time", not (i == 0 and st is None))
            start = st if st is not None else pos
            S.check("the window's segments and no others are listed: start times", start == wt)
            S.check("the window's segments and no others are listed: durations", d == wd)
            S.check("the window's segments and no others are listed: repeats", (0 if r is None else r) == wr)
            pos = start + ((0 if r is None else r) + 1) * d
        sn = t.get("startNumber")
        if numbered:
            S.check("numbered addressing", t.get("media") == "$RepresentationID$/$Number$.m4s")
            if want:
                S.check("the start number is the number of the first segment listed",
                        (1 if sn is None else S.parse_int(sn)) == first + want[0][3])
            else:
                S.check("an empty timeline has a valid start number", sn is None or S.parse_int(sn) >= 0)
        else:
            S.check("addressing by time", t.get("media") == "$RepresentationID$/t$Time$.m4s" and sn is None)


class LatestBefore(LoopCut):
    """find_latest_starting_before: accumulated_end_time is the end of repeat `repeats` of the entry, and repeat `repeats`
    starts at or before rel_time."""

    def setup(self, loc):
        self.sd = loc["seg_data"]
        self.rel = loc["rel_time"]

    def invariant(self, loc):
        k = loc["repeats"]
        return [("end of the repeat", loc["accumulated_end_time"] == self.sd.start_time + (k + 1) * self.sd.duration),
                ("a repeat", k >= 0),
                ("starts before", loc["accumulated_end_time"] - self.sd.duration <= self.rel)]

    def fresh(self, name, old):
        if name in ("repeats", "accumulated_end_time"):
            return fresh_int(name)
        return old


M = "dashlivesim.dashlib."
CUTS = {M + "segtimeline:SegmentTimeLineGenerator.find_latest_starting_before:0": LatestBefore}
