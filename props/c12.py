"""C12: time-limited sessions end when they say they end."""
from pyvc.harness import Harness
from props import common as c
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/configprocessor.py:ConfigProcessor.process_url,Config.process_start_time,Config.update_with_aet,"
         "Config.stop_number,Config.adjusted_start_number,quantize",
         "dashlib/dash_proxy.py:get_media,process_media_segment",
         "dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd,generate_period_data",
         "dashlib/mpdprocessor.py:MpdProcessor.process_mpd,process_mpd_children,update_periods"]
EXTRA = 60


def limited(S, v, n):
    "Options start_/dur_*n (snr, mup optional). Returns opts, AST, first number, [end of each duration], mup."
    D = v.D
    # by quotient and remainder: start = D*a + r; the i-th duration ends at D*q_i + s_i
    a = S.int("start_segs", 0, 2 ** 32, typ=(0, 1, 100, 250000000))
    r = S.int("start_rest", 0, None, typ=(0, 1, 3))
    S.assume(r < D)
    ast = D * a
    start = ast + r
    durs, ends, t, q = [], [], start, a
    for i in range(n):
        q = q + S.int("segs%d" % i, 0, 2 ** 31, typ=(0, 1, 5, 10, 600))
        x = S.int("rest%d" % i, 0, None, typ=(0, 0, 1, 3))
        S.assume(S.And(x < D, D * q + x >= t))
        durs.append(D * q + x - t)
        ends.append(D * q)
        t = D * q + x
    opts = [S.fmt("start_%d", start)] + [S.fmt("dur_%d", d) for d in durs]
    first = 0
    if S.flag("has_snr"):
        snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
        opts.append(S.fmt("snr_%d", snr))
        first = S.ite(snr == -1, 1, snr)
    mup = 10
    if S.flag("has_mup"):
        mup = S.int("mup", 0, None, typ=(0, 1, 5, 30))
        opts.append(S.fmt("mup_%d", mup))
    return opts, ast, first, ends, mup, durs


def media(S):
    "Requests in a session with one to three durations."
    v = c.vod(S)
    D = v.D
    opts, ast, first, ends, mup, _ = limited(S, v, S.variant)
    last = first + (ends[-1] - ast) // D - 1
    N = S.int("N", 0, c.MAXN, near=(last, last + 1, first))
    avail = ast + (N - first + 1) * D
    now = S.real("now", 0, None, near=(avail, avail + D + v.tsbd, ends[-1] + EXTRA, ends[-1], ends[-1] + EXTRA + 1))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + (N - first) % v.nr), c.small_segment(S, 0))
    out = c.fetch_media(S, opts + ["c", "V1", S.fmt("%d.m4s", N)], now)
    S.check("the request ends with a response", out.ok)
    S.check("no segment after the last one is ever served", S.Implies(N > last, c.refused(out)))
    S.check("no segment before the first one is ever served", S.Implies(N < first, c.refused(out)))
    inwin = S.And(now >= avail, now <= avail + D + v.tsbd)
    S.check("nothing is served more than 60 s after the end of the session",
            S.Implies(now >= ends[-1] + EXTRA + 1, c.refused(out)))
    S.check("every segment of the session is served in its window",
            S.Implies(S.And(N >= first, N <= last, inwin, now <= ends[-1] + EXTRA), c.served(S, out)))
    S.check("nothing is served outside its window", S.Implies(S.Not(inwin), c.refused(out)))


def mpd(S):
    "What the MPD of a session with one to three durations announces at any time."
    v = c.vod(S)
    opts, ast, first, ends, mup, durs = limited(S, v, S.variant)
    c.vod_mpd(S)
    S.assume(ends[0] > 0)
    ds = []
    t = 0
    for d in durs:
        t = t + d
        ds.append(t)
    now = S.int("now", 0, None, near=tuple(ends) + tuple(e - 2 * mup for e in ends))
    out = c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now)
    r = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", r is not None)
    S.check("a session with durations is dynamic", r.get("type") == "dynamic")
    S.check("the availability start is the start in whole segments", S.timestamp(r.get("availabilityStartTime")) == ast)
    aet = S.timestamp(r.get("availabilityEndTime"))
    mpd_ = S.iso(r.get("mediaPresentationDuration"))
    S.check("the presentation duration is announced", mpd_ is not None)
    S.check("end time and duration belong to one and the same announced end",
            S.Or(*[S.And(aet == e, mpd_ == d) for e, d in zip(ends, ds)]))
    S.check("an end before the last one is announced no later than two update periods ahead",
            S.Implies(aet != ends[-1], now <= aet - 2 * mup))
    for i in range(len(ends) - 1):
        S.check("the nearest coming end is announced",
                S.Implies(now <= ends[i] - 2 * mup, aet <= ends[i]))
    S.check("the update period is announced", S.iso(r.get("minimumUpdatePeriod")) == mup)


def stop(S):
    "Requests in a session with start and stop."
    v = c.vod(S)
    D = v.D
    opts, ast, stop_, first, n = stopped(S, v)
    N = S.int("N", 0, c.MAXN, near=(first, first + n, first + n - 1))
    avail = ast + (N - first + 1) * D
    now = S.real("now", 0, None, near=(avail, avail + D, ast + n * D, ast + n * D + 3600))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + (N - first) % v.nr), c.small_segment(S, 0))
    out = c.fetch_media(S, opts + ["c", "V1", S.fmt("%d.m4s", N)], now)
    S.check("exactly the segments up to the stop time are served, and then for ever",
            S.iff(c.served(S, out), S.And(N >= first, N < first + n, now >= avail)))
    S.check("the others are refused", S.iff(c.refused(out), S.Not(S.And(N >= first, N < first + n, now >= avail))))


def stopped(S, v):
    D = v.D
    # start and stop by quotient and remainder: start = D*a + r, stop = D*(a + n) - s
    a = S.int("start_segs", 0, 2 ** 32, typ=(0, 1, 100))
    r = S.int("start_rest", 0, None, typ=(0, 1, 3))
    n = S.int("segs", 0, 2 ** 32, typ=(0, 1, 2, 10, 600))
    s = S.int("stop_rest", 0, None, typ=(0, 1, 3))
    S.assume(S.And(r < D, s < D))
    ast = D * a
    start = ast + r
    stop_ = ast + D * n - s
    S.assume(stop_ >= start)
    opts = [S.fmt("start_%d", start), S.fmt("stop_%d", stop_)]
    first = 0
    if S.flag("has_snr"):
        snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
        opts.append(S.fmt("snr_%d", snr))
        first = S.ite(snr == -1, 1, snr)
    return opts, ast, stop_, first, n


def stop_mpd(S):
    "What the MPD of a session with start and stop announces: dynamic until the stop, static afterwards."
    v = c.vod(S)
    D = v.D
    opts, ast, stop_, first, n = stopped(S, v)
    mup = 10
    if S.flag("has_mup"):
        mup = S.int("mup", 0, None, typ=(0, 1, 5, 30))
        opts.append(S.fmt("mup_%d", mup))
    c.vod_mpd(S)
    end = ast + n * D
    now = S.int("now", 0, None, near=(end, end + 1, ast))
    out = c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now)
    r = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", r is not None)
    S.check("the session is dynamic until its end and static afterwards",
            S.And(S.iff(r.get("type") == "dynamic", now <= end), S.iff(r.get("type") == "static", now > end)))
    S.check("the availability start is the start in whole segments", S.timestamp(r.get("availabilityStartTime")) == ast)
    S.check("the presentation duration covers all segments", S.iso(r.get("mediaPresentationDuration")) == n * D)
    if r.get("type") == "static":
        S.check("a static MPD has no update period", r.get("minimumUpdatePeriod") is None)
    else:
        S.check("a dynamic MPD has its update period", S.iso(r.get("minimumUpdatePeriod")) == mup)
    for p, a, t in c.templates(r):
        sn = t.get("startNumber")
        S.check("the first number is the first one served", first == (1 if sn is None else S.parse_int(sn)))


def rel(S):
    "startrel/stoprel: the MPD redirects to the absolute session, and stays the same session afterwards."
    v = c.vod(S)
    D = v.D
    # now + rel_start = D*x + r, now + rel_stop = D*(x + n) - s
    x = S.int("start_segs", 1, 2 ** 32, typ=(100, 200000000))
    r = S.int("start_rest", 0, None, typ=(0, 1, 3))
    n = S.int("segs", 0, 2 ** 20, typ=(0, 1, 2, 10, 600))
    s = S.int("stop_rest", 0, None, typ=(0, 1, 3))
    S.assume(S.And(r < D, s < D))
    a = S.int("rel_start", -2 ** 20, 2 ** 20, typ=(-20, -7, 0, 10))
    now = D * x + r - a
    b = D * (x + n) - s - now
    S.assume(S.And(b >= a, now >= 0))
    c.vod_mpd(S)
    pre = ["tsbd_30"] if S.flag("more") else []
    out = c.fetch_mpd(S, pre + [S.fmt("startrel_%d", a), S.fmt("stoprel_%d", b), "c", "Manifest.mpd"], now)
    r = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", r is not None)
    loc = r.findall(c.NS + "Location")
    S.check("exactly one Location and no BaseURL", len(loc) == 1 and not r.findall(c.NS + "BaseURL"))
    ast = D * x
    end = D * (x + n)
    want = S.fmt("http://%s/%s/%sstart_%%d/stop_%%d/c/Manifest.mpd" % (c.HOST, c.PREFIX, "".join(x + "/" for x in pre)),
                 ast, end)
    S.check("the Location is the absolute form of the session", S.eq(loc[0].text, want))
    S.check("the availability start is the relative start in whole segments",
            S.timestamp(r.get("availabilityStartTime")) == ast)
    S.check("the duration is that of the absolute session", S.iso(r.get("mediaPresentationDuration")) == end - ast)
    # the absolute session, asked at any later time
    out2 = c.fetch_mpd(S, pre + [S.fmt("start_%d", ast), S.fmt("stop_%d", end), "c", "Manifest.mpd"],
                       now + S.int("later", 0, 2 ** 20, typ=(0, 10, 100)))
    r2 = c.mpd_root(S, out2)
    S.check("the absolute session is served", r2 is not None)
    S.check("start and duration stay the same", S.And(S.timestamp(r2.get("availabilityStartTime")) == ast,
                                                        S.iso(r2.get("mediaPresentationDuration")) == end - ast))


HARNESSES = [
    Harness("media", media, variants=(1, 2, 3), n_random=250, budget=150, functions=FUNCS),
    Harness("mpd", mpd, contracts=ISO, contracts_used=USES_ISO, variants=(1, 2, 3), n_random=150, budget=150, functions=FUNCS),
    Harness("stop", stop, n_random=400, budget=150, functions=FUNCS,
            assumes=["0.999*D and int() of the stop time are computed in real numbers"]),
    Harness("stop_mpd", stop_mpd, contracts=ISO, contracts_used=USES_ISO, n_random=200, budget=150, functions=FUNCS),
    Harness("rel", rel, contracts=ISO, contracts_used=USES_ISO, n_random=200, budget=150, functions=FUNCS),
]
