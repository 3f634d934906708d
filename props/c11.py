"""C11: multi-period presentations."""
from pyvc.harness import Harness
from props import common as c
from props import segtl
from props.c10 import Client
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd,generate_period_data",
         "dashlib/mpdprocessor.py:MpdProcessor.update_periods,MpdProcessor.process_mpd_children",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,Config.adjusted_pto",
         "dashlib/dash_proxy.py:get_media,process_media_segment"]


def plan(S, n, kinds, D, aligned=False):
    "(options, start of the session, seconds of media before it, first number, DVR depth)"
    opts = ["periods_%d" % n]
    ast, p, first = 0, 0, 0
    if "start" in kinds:
        a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
        ast = a * D
        opts.append(S.fmt("start_%d", ast))
        if "timeoffset" in kinds:
            p = S.int("offset_segs", 0, None, typ=(0, 1, 5))
            S.assume(a >= p)
            opts.append(S.fmt("timeoffset_%d", ast - p * D))
    if "snr" in kinds:
        s = S.int("snr", -1, 2 ** 31, typ=(-1, 0, 1, 7))
        first = S.ite(s == -1, 1, s)
        opts.append(S.fmt("snr_%d", s))
    if "continuous" in kinds:
        opts.append("continuous_1")
    if "peroff" in kinds:
        opts.append("peroff_1")
    pd = 3600 // min(n, 60)
    t = S.int("tsbd", 0, 2 * pd, near=(0, pd, 300))
    opts.append(S.fmt("tsbd_%d", t))
    if S.flag("options_reversed"):
        opts = opts[::-1]
    return opts, ast, p, first, t


def instant(S, pd):
    "Seconds since the start of the session: (period, rest, fraction)."
    K = S.int("period", 0, 2 ** 24, near=(0, 1, 2, 5, 400000))
    x = S.int("rest", 0, pd - 1, near=(0, pd // 2, pd - 1))
    return K, x


def layout(S):
    """The periods listed follow each other from the DVR window to beyond the next update, and what an identifier stands
    for (start, numbers, media time) never changes."""
    n, kinds = S.variant
    pd = 3600 // min(n, 60)
    D = S.choice("D", [2, 6, 7])
    v = c.vod(S, D=D)
    opts, ast, p, first, tsbd = plan(S, n, kinds, D)
    c.vod_mpd_d(S, v)
    K, x = instant(S, pd)
    since = K * pd + x
    now = ast + since
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    ps = root.findall(c.NS + "Period")
    S.check("there are periods", len(ps) > 0)
    k0 = S.parse_int(ps[0].get("id")[1:])
    mup = S.iso(root.get("minimumUpdatePeriod"))
    S.check("updates are due more often than periods", S.And(mup > 0, mup < pd))
    S.check("the periods go back to the start of the time-shift window", S.Or(k0 == 0, k0 * pd <= since - tsbd - D))
    S.check("no period that is over for good is listed", S.Or(k0 == 0, (k0 + 1) * pd > since - tsbd - D))
    for i, per in enumerate(ps):
        k = k0 + i
        S.check("periods are numbered consecutively", per.get("id") == S.fmt("p%d", k))
        S.check("each starts where the one before ends", S.iso(per.get("start")) == k * pd)
        sb = per.find(c.NS + "SegmentBase")
        base = None if sb is None else sb.get("presentationTimeOffset")
        for a in per.findall(c.NS + "AdaptationSet"):
            t = a.find(c.NS + "SegmentTemplate")
            sn = t.get("startNumber")
            sn = 1 if sn is None else S.parse_int(sn)
            S.check("the first number is that of the segment that contains the start",
                    S.And((sn - first - p) * D <= k * pd, k * pd < (sn - first - p + 1) * D))
            pto = t.get("presentationTimeOffset")
            if "peroff" in kinds:
                S.check("the offset is given for the period only", pto is None)
                pto = base
            pto = 0 if pto is None else S.parse_int(pto)
            S.check("media time and start of the period go together", pto == p * D + k * pd)
            sup = [e for e in a.findall(c.NS + "SupplementalProperty")
                   if e.get("schemeIdUri") == "urn:mpeg:dash:period_continuity:2014"]
            if "continuous" in kinds and i > 0:
                S.check("continuity with the period before is signalled",
                        len(sup) == 1 and sup[0].get("value") == S.fmt("p%d", k - 1))
            else:
                S.check("no other continuity is signalled", not sup)
    last = k0 + len(ps) - 1
    S.check("the current period is listed", S.And(k0 <= K, K <= last))
    S.check("a period is announced before the last update that precedes it", (last + 1) * pd > since + mup)


def limited(S):
    """In a session of limited duration the periods cover what is available of it, and none starts at its announced end or later;
    after a stop the periods are all those of the session, at any time."""
    n, kind = S.variant
    pd = 3600 // min(n, 60)
    D = 2
    v = c.vod(S, D=D, tsbd=60)
    ast = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000)) * D
    m = S.int("periods", 0, 2 if S.symbolic else 6)
    r = S.int("end_rest", 0, pd // D - 1, near=(0, 1)) * D
    S.assume(m * pd + r > 0)
    opts = [S.fmt("start_%d", ast), "periods_%d" % n,
            S.fmt("stop_%d", ast + m * pd + r) if kind == "stop" else S.fmt("dur_%d", m * pd + r)]
    c.vod_mpd_d(S, v)
    if kind == "stop" and S.flag("over"):
        since = m * pd + r + S.int("after", 1, 2 ** 32, typ=(1, 60, 100000))
    else:
        K = S.int("period", 0, 3 if S.symbolic else 7)
        since = K * pd + S.int("rest", 0, pd - 1, near=(0, pd // 2, pd - 1))
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], ast + since))
    S.check("the MPD is served and well formed", root is not None)
    ps = root.findall(c.NS + "Period")
    S.check("there are periods", len(ps) > 0)
    end = S.iso(root.get("mediaPresentationDuration"))
    S.check("the announced duration is that of the session", end == m * pd + r)
    k0 = S.parse_int(ps[0].get("id")[1:])
    for i, per in enumerate(ps):
        S.check("periods are numbered consecutively", per.get("id") == S.fmt("p%d", k0 + i))
        S.check("each starts where the one before ends", S.iso(per.get("start")) == (k0 + i) * pd)
        S.check("each starts before the end of the session", (k0 + i) * pd < end)
    last = (k0 + len(ps)) * pd
    S.check("the periods reach to the present, or to the end of the session", S.Or(last > since, last >= end))
    if kind == "stop":
        S.check("the periods begin with the session", k0 == 0)
        S.check("after the stop the MPD is static", S.iff(root.get("type") == "static", since > end))
    else:
        S.check("the periods go back to the start of the time-shift window", S.Or(k0 == 0, k0 * pd <= since - 60 - D, last >= end))


def follow(S):
    "The segments of a period are served in the times that its MPD says, to the end of the period and on into the next."
    n, kinds = S.variant
    pd = 3600 // min(n, 60)
    D = S.choice("D", [2, 6, 10] if n > 12 else [2, 6, 15])
    v = c.vod(S, D=D)
    opts, ast, p, first, tsbd = plan(S, n, kinds, D)
    c.vod_mpd_d(S, v)
    K, x = instant(S, pd)
    now = ast + K * pd + x
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    ps = root.findall(c.NS + "Period")
    i = S.choice("which", ["first", "last", "middle"])
    i = 0 if i == "first" else len(ps) - 1 if i == "last" else len(ps) // 2
    cl = Client.__new__(Client)
    cl.S, cl.root, cl.period = S, root, ps[i]
    cl.base = root.findall(c.NS + "BaseURL")
    ct = S.choice("media", ["video", "audio"])
    cl.template(ct)
    start = S.timestamp(root.get("availabilityStartTime")) + S.iso(ps[i].get("start"))
    j = S.int("j", 0, pd // D - 1, near=(0, x // D, pd // D - 1))
    depth = S.iso(root.get("timeShiftBufferDepth"))
    S.check("the time-shift buffer is as requested", depth == tsbd)
    later = now + S.real("after", 0, None, typ=(0, 0.5, 1, 5))
    avail = start + (j + 1) * D
    S.assume(S.And(later >= avail, later <= avail + D + depth))
    N = cl.sn + j
    S.assume(N <= c.MAXN)
    # the stored segment for this media time
    m = (S.iso(ps[i].get("start")) + p * D) // D + j
    S.file(S.fmt("vod/c/" + cl.rep + "/%d.m4s", v.first + m % v.nr), c.small_segment(S, (m % v.nr) * D * v.ts[ct]))
    name = cl.media.replace("$RepresentationID$", cl.rep).replace("$Number$", S.fmt("%d", N))
    got = c.fetch_media(S, cl.parts(name), later)
    S.check("an announced segment is served", c.served(S, got))
    f = c.media_facts(S, got.value)
    S.check("it has the announced number", f is not None and f[0] == N)
    S.check("its place in the period is that of the MPD", f[1] == (j * D + cl.pto) * v.ts[ct])


def template(period, ct):
    return [a for a in period.findall(c.NS + "AdaptationSet") if a.get("contentType") == ct][0].find(c.NS + "SegmentTemplate")


def flat(S, tb, opts, now, ct):
    "The runs of an adaptation set, period by period, as segments (time, duration, number)."
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    out = []
    for p in root.findall(c.NS + "Period"):
        t = template(p, ct)
        pos, q = None, 0
        for s in t.find(c.NS + "SegmentTimeline").findall(c.NS + "S"):
            tt, r = s.get("t"), s.get("r")
            pos = pos if tt is None else S.parse_int(tt)
            for _ in range(1 + (0 if r is None else S.parse_int(r))):
                sn = t.get("startNumber")
                out.append((pos, S.parse_int(s.get("d")), None if sn is None else S.parse_int(sn) + q))
                pos, q = pos + S.parse_int(s.get("d")), q + 1
    return out, root


def timeline(S):
    "The timelines of the periods list, one after the other, exactly the segments of the single-period timeline."
    n, numbered, shape, more = S.variant
    pd = 3600 // n
    tb = segtl.table(S, shape)
    v = tb.vod
    D, loop = v.D, v.D * v.nr
    opts = ["segtimelinenr_1" if numbered else "segtimeline_1", S.fmt("tsbd_%d", S.int("tsbd", 0, 2 * D))]
    K = S.int("period", 0, 2 ** 20, typ=(0, 1, 2, 5))
    x = S.int("rest", 0, pd - 1, near=(0, 1, pd // 2, pd - 1))
    if S.flag("near_boundary"):
        S.assume(x <= 3 * D)
    else:
        S.assume(x >= pd - D)
    now = K * pd + x
    c.vod_mpd_d(S, v)
    ct = S.choice("media", ["video", "audio"] if not S.symbolic else ["audio" if numbered else "video"])
    one, _ = flat(S, tb, opts, now, ct)
    many, root = flat(S, tb, opts + ["periods_%d" % n] + more, now, ct)
    e = {"etp_30": (2, 20), "etp_6": (2, 150)}.get(more[0] if more else None)
    if e is not None:                          # every second period ends early, and what comes after its end is not listed
        T = tb.tracks[ct].ts

        def kept(s):
            k, r = (s[0] + s[1] - 1) // (pd * T), (s[0] + s[1] - 1) % (pd * T)
            return S.Or(k % e[0] != 0, r < e[1] * T)
        one = [s for s in one if kept(s)]
    S.check("as many segments are listed", len(one) == len(many))
    for a, b in zip(one, many):
        S.check("in the same order with the same times", S.And(a[0] == b[0], a[1] == b[1]))
        if numbered:
            S.check("and numbers", a[2] == b[2])
    for i, p in enumerate(root.findall(c.NS + "Period")):
        t = template(p, ct)
        pto = t.get("presentationTimeOffset")
        S.check("the media time of the period's start is given in the timeline's scale",
                (0 if pto is None else S.parse_int(pto)) == S.iso(p.get("start")) * tb.tracks[ct].ts)


def recorded(S):
    "In a session with a stop time, too, the timelines of the periods list exactly what the single-period timeline lists."
    numbered, shape = S.variant
    tb = segtl.table(S, shape)
    v = tb.vod
    D = v.D
    a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
    n = S.choice("segs", [62 // D + 1] if S.symbolic else [1, 60 // D, 62 // D + 1, 130 // D + 1])
    since = S.choice("since", [60, 61, 62 + D, 200] if S.symbolic else [0, 1, 60, 61, 62 + D, 125, 200, 1000])
    x = S.choice("more", [0, 1]) if S.symbolic else S.int("more", 0, 60)
    opts = ["segtimelinenr_1" if numbered else "segtimeline_1", S.fmt("start_%d", a * D), S.fmt("stop_%d", (a + n) * D)]
    now = a * D + since + x
    c.vod_mpd_d(S, v)
    ct = S.choice("media", ["video", "audio"] if not S.symbolic else ["audio" if numbered else "video"])
    one, _ = flat(S, tb, opts, now, ct)
    many, _ = flat(S, tb, opts + ["periods_60"], now, ct)
    S.check("as many segments are listed", len(one) == len(many))
    for g, h in zip(one, many):
        S.check("in the same order with the same times", S.And(g[0] == h[0], g[1] == h[1]))
        if numbered:
            S.check("and numbers", g[2] == h[2])


def early(S):
    "Early-terminated periods announce their shorter duration, the others none."
    n, e = S.variant
    pd = 3600 // n
    v = c.vod(S, D=2)
    c.vod_mpd_d(S, v)
    opts = ["periods_%d" % n, "etp_%d" % e]
    d = pd // 2
    if S.flag("has_duration"):
        d = S.int("duration", 1, None, near=(1, pd // 2, pd, pd + 1))
        opts.append(S.fmt("etpDuration_%d", d))
    tsbd = S.int("tsbd", 0, 2 * pd, near=(0, pd, 300))
    K, x = instant(S, pd)
    out = c.fetch_mpd(S, opts + [S.fmt("tsbd_%d", tsbd), "c", "Manifest.mpd"], K * pd + x)
    if n % e != 0 or d > pd:
        S.check("what does not fit is refused", not out.ok)
        return
    root = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", root is not None)
    for p in root.findall(c.NS + "Period"):
        k = S.parse_int(p.get("id")[1:])
        x = p.get("duration")
        if k % (n // e) == 0:
            S.check("every so many periods end early", x is not None and S.iso(x) == d)
        else:
            S.check("the others do not", x is None)


def bad(S):
    "Only numbers of periods that divide the hour are taken."
    v = c.vod(S, D=2)
    c.vod_mpd_d(S, v)
    n = S.int("n", -5, 200, near=(0, 1, 7, 60, 61))
    out = c.fetch_mpd(S, [S.fmt("periods_%d", n), "tsbd_10", "c", "Manifest.mpd"], S.int("now", 0, 2 ** 33))
    n = S.min(n, 60)
    good = S.Or(n == -1, n == 0, S.And(n > 0, 60 % S.max(n, 1) == 0))
    if good:
        S.check("they are served", c.mpd_root(S, out) is not None)
    else:
        S.check("others are refused", not out.ok)


NS = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60, 90)
KINDS = [("snr", "continuous"), ("start", "timeoffset", "snr"), ("start", "peroff")]
LV = [(n, k) for n in NS for k in KINDS]
LQ = [(60, KINDS[0]), (10, KINDS[1]), (2, KINDS[2]), (90, KINDS[0])]
FV = [(n, k) for n in (2, 10, 15, 60) for k in [("snr",), ("start", "timeoffset")]]
FQ = [(60, ("snr",)), (15, ("start", "timeoffset"))]
TV = [(n, b, s, m) for n in (60, 12) for b in (True, False) for s in ("one", "jitter") for m in ([], ["etp_%d" % (n // 2)] + (
    ["etpDuration_20"] if n == 60 else ["continuous_1"]))]
TV += [(60, True, "two", ["etp_30", "etpDuration_20"])]
TQ = [TV[-1], TV[4]]
B = "time-shift buffers of up to two periods"
HARNESSES = [
    Harness("layout", layout, variants=LV, n_random=60, budget=150, functions=FUNCS, bounded=B, slow=[v for v in LV if v not in LQ],
            contracts=ISO, contracts_used=USES_ISO),
    Harness("follow", follow, variants=FV, n_random=60, budget=150, functions=FUNCS, bounded=B, slow=[v for v in FV if v not in FQ],
            contracts=ISO, contracts_used=USES_ISO),
    Harness("timeline", timeline, variants=TV, n_random=60, budget=200, functions=FUNCS, slow=[v for v in TV if v not in TQ],
            contracts=ISO, contracts_used=USES_ISO, cuts=segtl.CUTS,
            bounded="contents of 1 to 4 segments; time-shift buffers of up to two segments"),
    Harness("limited", limited, variants=[(60, "stop"), (60, "dur"), (4, "stop"), (4, "dur")], n_random=100, budget=100, functions=FUNCS,
            bounded="sessions of up to 3 periods; longer ones in random runs only", contracts=ISO, contracts_used=USES_ISO,
            slow=[(4, "stop"), (4, "dur")]),
    Harness("recorded", recorded, variants=[(True, "one"), (False, "one"), (True, "jitter"), (False, "jitter")], n_random=60, budget=150,
            functions=FUNCS, contracts=ISO, contracts_used=USES_ISO, bounded="listed instants of sessions of 62 to 68 s; contents of 1 to 4 segments",
            slow=[(True, "jitter"), (False, "jitter")]),
    Harness("early", early, variants=[(60, 60), (30, 10), (10, 4), (6, 3)], n_random=60, budget=150, functions=FUNCS, bounded=B,
            contracts=ISO, contracts_used=USES_ISO),
    Harness("bad", bad, n_random=200, budget=100, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO),
]
