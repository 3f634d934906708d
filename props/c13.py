"""C13: modulo sessions."""
from pyvc.harness import Harness
from props import common as c
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/moduloperiod.py:ModuloPeriod.*,quantize",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,Config.update_with_modulo_period",
         "dashlib/dash_proxy.py:get_media,process_media_segment",
         "dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd,generate_period_data",
         "dashlib/mpdprocessor.py:MpdProcessor.process_mpd,process_mpd_children,update_periods"]


def clock(S, M, frac=False):
    "An arbitrary instant: (now, start of its session, announced duration). 1/20 of the period is 3M seconds."
    k = S.int("period", 0, 2 ** 32 // (60 * M), typ=(0, 1, 1000, 25000))
    f = S.int("rest", 0, 60 * M - 1, near=tuple(x * M for x in (6, 18, 30, 48, 51, 54, 60)))
    x = 0
    if frac:
        x = S.real("fraction", 0, 1)
        S.assume(x < 1)
    if f < 6 * M:
        ast, dur = 0, 12 * M
    elif f < 18 * M:
        ast, dur = 0, 24 * M
    elif f < 30 * M:
        ast, dur = 0, 36 * M
    elif f < 54 * M:
        ast, dur = 0, 48 * M
    else:
        ast, dur = 60 * M, 12 * M
    return 60 * M * k + f + x, 60 * M * k + ast, dur


def option(S, M):
    opts = ["modulo_%d" % M]
    first = 0
    if S.flag("has_snr"):
        snr = S.int("snr", -1, 2 ** 31, typ=(-1, 0, 1, 7))
        opts = [S.fmt("snr_%d", snr)] + opts if S.flag("snr_before") else opts + [S.fmt("snr_%d", snr)]
        first = S.ite(snr == -1, 1, snr)
    return opts, first


def mpd(S):
    "Start, duration, end and update period of the session at any instant."
    M = S.variant
    v = c.vod(S, D=S.choice("D", [1, 2, 6, 8]))
    opts, first = option(S, M)
    c.vod_mpd(S)
    now, ast, dur = clock(S, M)
    out = c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now)
    r = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", r is not None)
    S.check("the session is dynamic", r.get("type") == "dynamic")
    S.check("it starts with the period, or with the next one in the last tenth",
            S.timestamp(r.get("availabilityStartTime")) == ast)
    S.check("20, 40, 60 and then 80 percent of the period are announced", S.iso(r.get("mediaPresentationDuration")) == dur)
    S.check("it ends one update period after the last media", S.timestamp(r.get("availabilityEndTime")) == ast + dur + 3 * M)
    S.check("updates are due every twentieth of the period", S.iso(r.get("minimumUpdatePeriod")) == 3 * M)
    S.check("the time-shift buffer is the one that is served", S.eq(S.iso(r.get("timeShiftBufferDepth")), v.tsbd))
    for p, a, t in c.templates(r):
        sn = t.get("startNumber")
        S.check("the start number is that of the first segment", first == (1 if sn is None else S.parse_int(sn)))


def extend(S):
    "Between two requests in a period the announced end moves only forward, and in time for the player."
    M = S.variant
    c.vod(S, D=2)
    c.vod_mpd(S)
    now, ast, dur = clock(S, M)
    later = S.int("later", 0, 120 * M, typ=(0, 1, 3 * M, 6 * M, 12 * M))
    a = c.mpd_root(S, c.fetch_mpd(S, ["modulo_%d" % M, "c", "Manifest.mpd"], now))
    b = c.mpd_root(S, c.fetch_mpd(S, ["modulo_%d" % M, "c", "Manifest.mpd"], now + later))
    S.check("both MPDs are served and well formed", a is not None and b is not None)
    a0, b0 = S.timestamp(a.get("availabilityStartTime")), S.timestamp(b.get("availabilityStartTime"))
    d1, d2 = S.iso(a.get("mediaPresentationDuration")), S.iso(b.get("mediaPresentationDuration"))
    S.check("sessions follow each other", b0 >= a0)
    S.check("the end of a session is only ever extended", S.Implies(a0 == b0, d2 >= d1))
    mup = S.iso(a.get("minimumUpdatePeriod"))
    S.check("an end that is not final is more than two update periods ahead",
            S.Or(d1 == 48 * M, a0 + d1 - S.floor(now) > 2 * mup))
    S.check("a player that updates as told sees the next session before it starts",
            S.Implies(S.And(b0 > a0, later <= mup), now + later <= b0 + mup))


def media(S):
    "Exactly the segments announced at the moment are served, each in its window."
    M = S.variant
    D = S.choice("D", [1, 2, 6, 7])
    v = c.vod(S, D=D)
    opts, first = option(S, M)
    now, ast, dur = clock(S, M, S.flag("frac"))
    n = dur // D
    k = S.int("k", -3, None, near=(0, n - 1, n, (now - ast) // D))
    N = first + k
    S.assume(S.And(N >= 0, N < 2 ** 32))
    avail = ast + (k + 1) * D
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + k % v.nr), c.small_segment(S, 0))
    out = c.fetch_media(S, opts + ["c", "V1", S.fmt("%d.m4s", N)], now)
    S.check("the request ends with a response", out.ok)
    S.check("numbers outside the announced session are refused", S.Implies(S.Or(k < 0, k >= n), c.refused(out)))
    inwin = S.And(now >= avail, now <= avail + D + v.tsbd)
    S.check("outside its window a segment is refused", S.Implies(S.Not(inwin), c.refused(out)))
    late = S.floor(now) > ast + dur + 3 * M + 60
    S.check("nothing is served more than a minute after the end time", S.Implies(late, c.refused(out)))
    S.check("an announced segment is served in its window",
            S.Implies(S.And(k >= 0, k < n, inwin, S.Not(late)), c.served(S, out)))
    if c.served(S, out):
        f = c.media_facts(S, out.value)
        S.check("with its number and with media time counted from the start of the session",
                f is not None and f[0] == N and f[1] == (k // v.nr) * v.nr * D * v.ts["video"])
        styp = c.find(S, out.value, b"styp")
        S.check("the last announced segment, and only it, is marked", S.iff(S.len(styp) == 16, k == n - 1))


def mix(S):
    "A start time cannot be combined with modulo: the request is refused."
    c.vod(S)
    c.vod_mpd(S)
    now = S.int("now", 0, 2 ** 33)
    a, b = S.fmt("start_%d", S.int("start", 0, 2 ** 33)), S.fmt("modulo_%d", S.int("M", 1, 60))
    opts = [a, b] if S.flag("order") else [b, a]
    if S.flag("mpd"):
        out = c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now)
    else:
        out = c.fetch_media(S, opts + ["c", "V1", "5.m4s"], now)
    S.check("refused", not out.ok)


MS = (1, 2, 3, 5, 7, 10, 20, 60)
HARNESSES = [
    Harness("mpd", mpd, variants=MS, slow=(3, 5, 7, 20), contracts=ISO, contracts_used=USES_ISO, n_random=40, budget=100,
            functions=FUNCS),
    Harness("extend", extend, variants=MS, slow=(3, 5, 7, 20), contracts=ISO, contracts_used=USES_ISO, n_random=60, budget=100,
            functions=FUNCS),
    Harness("media", media, variants=MS, slow=(2, 3, 5, 7, 20), n_random=80, budget=150, functions=FUNCS),
    Harness("mix", mix, n_random=60, budget=60, functions=FUNCS),
]
