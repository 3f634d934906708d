"""C21: durations and points in time."""
from pyvc.harness import Harness
from props import common as c
from props.contracts import ISO, USES_ISO

T = "dashlib.timeformatconversions"
FUNCS = ["dashlib/timeformatconversions.py:seconds_to_iso_duration,iso_duration_to_seconds,make_timestamp",
         "dashlib/mpd_proxy.py:generate_dynamic_mpd,generate_period_data", "dashlib/mpdprocessor.py:MpdProcessor.process_mpd"]


def duration(S):
    "The contract of seconds_to_iso_duration that the other checks use."
    n = S.int("n", 0, None, typ=(0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 90000, 172800, 31536000))
    out = S.call(S.mod(T).seconds_to_iso_duration, n)
    S.check("every number of seconds can be written", out.ok)
    S.check("the text is an xs:duration that denotes exactly this number of seconds", S.eq(S.iso(out.value), n))


def reading(S):
    "Reading a duration of days, hours, minutes and seconds, any of which may be absent."
    parts, value = "", 0
    t = ""
    for name, f, letter in (("d", 86400, "D"), ("h", 3600, "H"), ("m", 60, "M"), ("s", 1, "S")):
        if S.flag("has_" + name):
            x = S.int(name, 0, None, typ=(0, 1, 9, 10, 59, 634))
            value = value + x * f
            txt = S.fmt("%d", x)
            if letter == "S" and S.flag("fraction"):
                txt = txt + S.choice("digits", [".0", ".5", ".566", ".999999"])
            if letter == "D":
                parts = txt + letter
            else:
                t = t + txt + letter
    if not parts and not t:
        return
    txt = "P" + parts + ("T" + t if t else "")
    out = S.call(S.mod(T).iso_duration_to_seconds, txt)
    S.check("the duration is read", out.ok)
    S.check("the value is the whole number of seconds it denotes", S.eq(out.value, value))


def roundtrip(S):
    "Reading what was written."
    n = S.int("n", 0, None, typ=(0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 90000, 172800, 31536000))
    m = S.mod(T)
    out = S.call(lambda: m.iso_duration_to_seconds(m.seconds_to_iso_duration(n)))
    S.check("a written duration can be read", out.ok)
    S.check("reading gives the number that was written", S.eq(out.value, n))


def timestamp(S):
    t = S.int("t", 0, 253402300799, typ=(0, 1, 951782400, 1456704000, 1500000000, 4102444800, 253402300799))
    out = S.call(S.mod(T).make_timestamp, t)
    S.check("every time can be written", out.ok)
    S.check("the text is a UTC date and time that denotes this second", S.timestamp(out.value) == t)


def mpd(S):
    "The times announced in an ordinary MPD are those of the session."
    v = c.vod(S)
    opts = []
    tsbd, mup, spd, ast = v.tsbd, None, None, 0
    if S.flag("has_start"):
        a = S.int("start_segs", 0, 2 ** 32, typ=(0, 1, 100, 250000000))
        r = S.int("start_rest", 0, None, typ=(0, 1, 3))
        S.assume(r < v.D)
        ast = v.D * a
        mup = 10
        opts.append(S.fmt("start_%d", ast + r))
    if S.flag("has_tsbd"):
        tsbd = S.int("tsbd", 0, None, typ=(0, 1, 30, 60, 3600, 86400))
        opts.append(S.fmt("tsbd_%d", tsbd))
    if S.flag("has_mup"):
        mup = S.int("mup", 0, None, typ=(0, 1, 30, 60, 3600, 86400))
        opts.append(S.fmt("mup_%d", mup))
    if S.flag("has_spd"):
        spd = S.int("spd", 0, None, typ=(0, 1, 30, 60, 3600, 86400))
        opts.append(S.fmt("spd_%d", spd))
    now = S.int("now", 0, 2 ** 36, typ=(0, 1500000000))
    c.vod_mpd(S)
    S.clock.t = now
    out = c.fetch_mpd(S, opts + ["utc_direct", "c", "Manifest.mpd"], now)
    r = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", r is not None)
    S.check("the availability start", S.timestamp(r.get("availabilityStartTime")) == ast)
    S.check("published when it is asked for", S.timestamp(r.get("publishTime")) == now)
    S.check("the time-shift buffer", S.eq(S.iso(r.get("timeShiftBufferDepth")), tsbd))
    if mup is None:
        S.check("no update is needed for a century", r.get("minimumUpdatePeriod") == "P100Y")
    else:
        S.check("the update period", S.eq(S.iso(r.get("minimumUpdatePeriod")), mup))
    if spd is None:
        S.check("no suggested delay", r.get("suggestedPresentationDelay") is None)
    else:
        S.check("the suggested delay", S.eq(S.iso(r.get("suggestedPresentationDelay")), spd))
    S.check("the longest segment", S.eq(S.iso(r.get("maxSegmentDuration")), v.D))
    S.check("an endless presentation", r.get("mediaPresentationDuration") is None and
            r.get("availabilityEndTime") is None and r.get("type") == "dynamic")
    u = r.findall(c.NS + "UTCTiming")
    S.check("the direct clock is the server's", len(u) == 1 and u[0].get("schemeIdUri") == "urn:mpeg:dash:utc:direct:2014")
    S.check("its value is the time of the request", S.timestamp(u[0].get("value")) == now)
    S.check("one period from the start", [p.get("start") for p in r.findall(c.NS + "Period")] == ["PT0S"])


HARNESSES = [
    Harness("duration", duration, n_random=400, functions=FUNCS[:1]),
    Harness("reading", reading, n_random=400, functions=FUNCS[:1]),
    Harness("roundtrip", roundtrip, n_random=300, functions=FUNCS[:1]),
    Harness("timestamp", timestamp, n_random=600, functions=FUNCS[:1],
            assumes=["time.gmtime/time.strftime of the standard library write the UTC time (cross-checked on random times)"]),
    Harness("mpd", mpd, n_random=200, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO),
]
