"""C14: URL options take effect wherever they stand; what is not an option is not taken for one."""
import re

from pyvc.harness import Harness
from props import common as c
from props import web
from props.common import HOST
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/configprocessor.py:ConfigProcessor.*,Config.*,VodConfig.read_config,VodConfig.content_type_for_rep",
         "dashlib/dash_proxy.py:createProvider,get_init,get_media", "dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd",
         "dashlib/mpdprocessor.py:MpdProcessor.*", "mod_wsgi/mod_dashlivesim.py:application"]

INTS = ("start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "peroff", "snr", "spd",
        "sts")
FIXED = {"modulo": ["10"], "tfdt": ["32"], "cont": ["1"], "periods": ["0", "2", "60"], "xlink": ["1", "2"], "etp": ["1", "2"],
         "etpDuration": ["100"], "insertad": ["1"], "mpdcallback": ["1", "2"], "continuous": ["0", "1"], "segtimeline": ["0", "1"],
         "segtimelinenr": ["0", "1"], "baseurl": ["u10_d20"], "scte35": ["0", "1", "3"], "utc": ["direct", "head-ntp", "none"],
         "ato": ["inf", "1.5", "x"], "sidx": ["0", "1"], "segtimelineloss": ["0", "1"], "sid": ["0a0b"],
         "chunkdur": ["0.5", "0", "x"]}
KEYS = list(INTS) + sorted(FIXED)
# two of these together fight for the same setting, and the last one wins
CLASH = [("start", "ast"), ("start", "startrel"), ("ast", "startrel"), ("stop", "stoprel")]


def value(S, key, k):
    "(text, number) of a value for the option."
    if key in FIXED:
        return S.choice("value%d" % k, FIXED[key]), None
    lo = {"snr": -1, "startrel": -1000, "stoprel": -1000}.get(key, 0)
    n = S.int("value%d" % k, lo, 600 if key == "tsbd" else 2 ** 33, typ=(0, 1, 2, 10, 60, 1000, 1500000000))
    return S.fmt("%d", n), n


def get(S, kind, parts, now):
    if kind == "mpd":
        return c.fetch_mpd(S, parts + ["c", "Manifest.mpd"], now)
    if kind == "init":
        return c.fetch_init(S, parts + ["c", "V1", "init.mp4"], now)
    return c.fetch_media(S, parts + ["c", "V1", S.fmt("%d.m4s", S.int("N", 0, c.MAXN, near=(int_or(S, now) // 2,)))], now)


def int_or(S, now):
    return now if isinstance(now, int) else 0


def stored(S, dur="2"):
    v = c.vod(S, D=2, nr=4, first=1, tsbd=300, ts={"video": 90000, "audio": 48000},
              version="1.1", total={"video": 720000, "audio": 384000})
    for m, ts in (("video", 90000), ("audio", 48000)):
        S.file("cfg/c_%s.dat" % m, S.cat(S.le(2, 1), S.le(2, 3), S.le(4, 0), S.le(4, 2 * ts)))
    c.vod_mpd(S, dur=dur)
    S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
    return v


HEAVY = ("periods", "segtimeline", "segtimelinenr", "modulo", "tfdt", "cont", "etp", "mpdcallback", "xlink", "insertad")


def no_urls(t):
    "The MPD without the addresses, which repeat the request's own."
    t = re.sub(r"(<(BaseURL|Location)[^>]*>)[^<]*<", r"\1<", t)
    return re.sub(r'http://%s/[^"]*' % HOST, "@", t)


def sense(S, d, now):
    "A session does not stop before it starts."
    start = d["start"] if "start" in d else d["ast"] if "ast" in d else now + d["startrel"] if "startrel" in d else None
    stop = d["stop"] if "stop" in d else now + d["stoprel"] if "stoprel" in d else None
    if start is not None:
        S.assume(start >= 0)
        if stop is not None:
            S.assume(stop >= start)


def order(S):
    "The same two options in either order give the same MPD and the same initialization segment."
    kind, a = S.variant
    stored(S)
    b = S.choice("other", [k for k in KEYS if k > a and (a, k) not in CLASH and (k, a) not in CLASH])
    # each value is either one of a list or arbitrary
    if a in HEAVY or b in HEAVY:
        now = S.choice("now", [5, 1500000007])
    else:
        now = S.int("now", 0, 2 ** 33, typ=(0, 1, 5, 3600, 1500000000))
    (x, n), (y, m) = value(S, a, 1), value(S, b, 2)
    sense(S, {a: n, b: m}, now)
    x, y = a + "_" + x, b + "_" + y
    r1 = get(S, kind, [x, y], now)
    r2 = get(S, kind, [y, x], now)
    S.check("both orders are answered or refused alike", r1.ok == r2.ok)
    if not r1.ok:
        return
    S.check("both orders are served or refused alike", isinstance(r1.value, dict) == isinstance(r2.value, dict))
    if isinstance(r1.value, dict):
        return
    v1, v2 = r1.value, r2.value
    if kind == "mpd":
        v1, v2 = no_urls(v1), no_urls(v2)
    S.check("both orders give the same reply", S.eq(v1, v2))


UTC = {"direct": "urn:mpeg:dash:utc:direct:2014", "head": "urn:mpeg:dash:utc:http-head:2014", "ntp": "urn:mpeg:dash:utc:ntp:2014",
       "sntp": "urn:mpeg:dash:utc:sntp:2014", "httpxsdate": "urn:mpeg:dash:utc:http-xsdate:2014",
       "httpiso": "urn:mpeg:dash:utc:http-iso:2014"}
NOISE = ["tsbd_77", "mup_33", "spd_11", "snr_3", "init_9", "utc_ntp", "scte35_1", "sidx_1", "sts_1000", "sid_0a0b", "ato_0.5",
         "continuous_0", "segtimeline_0", "segtimelinenr_0", "segtimelineloss_0", "chunkdur_0.5", "start_20", "timeoffset_10", "peroff_0"]
EFFECTS = ["tsbd", "mup", "spd", "start", "ast", "snr", "ato", "utc", "scte35", "baseurl", "timeoffset", "peroff", "startrel", "init",
           "sidx", "stop", "dur"]


def with_noise(S, key, opt):
    "The option alone, before or after another option that has nothing to do with it."
    skip = {"ast": ("start",), "start": (), "startrel": ("start",), "peroff": (), "timeoffset": ("peroff",), "ato": ("chunkdur",),
            "stop": ("start", "tsbd"), "dur": ("start",), "baseurl": (), "utc": ("chunkdur",)}.get(key, ())
    noise = [n for n in NOISE if n.split("_")[0] not in (key,) + skip]
    where = S.choice("where", ["alone", "before", "after"])
    if where == "alone":
        return [opt], None
    n = S.choice("noise", noise)
    return ([opt, n] if where == "before" else [n, opt]), n


def effect(S):
    "Each option has its documented effect, whatever stands before or after it."
    key = S.variant
    D = 2
    stored(S)
    now = S.int("now", 0, 2 ** 33, typ=(0, 1, 5, 3600, 1500000000))
    opt, want = None, None
    if key in ("tsbd", "mup", "spd", "start", "ast", "snr", "peroff", "init", "stop", "dur"):
        n = S.int("n", -1 if key == "snr" else 0, 2 ** 33, typ=(-1, 0, 1, 2, 10, 60, 1000, 1500000000))
        opt = S.fmt(key + "_%d", n)
    elif key == "startrel":
        n = S.int("n", -1000, 1000)
        S.assume(now + n >= 0)
        opt = S.fmt(key + "_%d", n)
    elif key == "timeoffset":
        n = S.int("n", 0, 100)
        opt = S.fmt("start_%d/timeoffset_%d", 120, n)
    elif key == "ato":
        opt, want = S.choice("ato", [("ato_1.5", 1.5), ("ato_inf", "INF"), ("ato_0", None), ("ato_-2", None), ("ato_x", None)])
    elif key == "utc":
        want = S.choice("utc", [("direct",), ("head", "ntp"), ("sntp", "httpxsdate", "httpiso"), ("httpiso", "direct")])
        opt = "utc_" + "-".join(want)
    elif key == "scte35":
        want = S.choice("n", [0, 1, 2, 3])
        opt = "scte35_%d" % want
    elif key == "baseurl":
        want = S.choice("urls", [["u10_d20"], ["u10_d20", "u10_d20"], ["d1_u2", "u3_d4", "u5_d6"]])
        opt = "/".join("baseurl_" + u for u in want)
    elif key == "sidx":
        want = S.choice("n", [0, 1])
        opt = "sidx_%d" % want
    parts, noise = with_noise(S, key, opt)
    parts = [q for p in parts for q in p.split("/")]
    if key in ("stop", "dur"):
        S.assume(n >= 40)
        parts = ["start_40"] + parts
    if noise == "timeoffset_10":
        S.assume(now >= 10)
    if key == "init":
        ast = 20 if noise == "start_20" else 0
        parts = parts if noise == "start_20" else ["start_%d" % 1000] + parts
        ast = 20 if noise == "start_20" else 1000
        out = c.fetch_init(S, parts + ["c", "V1", "init.mp4"], now)
        S.check("init_N opens the initialization segments N seconds earlier", S.And(out.ok, S.iff(c.refused(out), now < ast - n)))
        return
    if key == "sidx":
        first = 3 if noise == "snr_3" else 0
        ast = 20 if noise == "start_20" else 0
        N = 2 + first + (5 if noise == "timeoffset_10" else 0)
        S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
        for k in range(1, 5):
            S.file("vod/c/V1/%d.m4s" % k, c.small_segment(S, (k - 1) * D * 90000))
        S.assume(S.And(now >= ast + 3 * D, now <= ast + 4 * D))
        out = c.fetch_media(S, parts + ["c", "V1", "%d.m4s" % N], now)
        S.check("the segment is served", c.served(S, out))
        bs = c.walk(S, out.value)
        S.check("sidx_1 and nothing else inserts a segment index", bs is not None and sum(t == b"sidx" for t, _, _ in bs) == want)
        return
    r = c.mpd_root(S, c.fetch_mpd(S, parts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", r is not None)
    ts = [t for _, _, t in c.templates(r)]
    S.check("both adaptation sets are there", len(ts) == 2)
    if key == "tsbd":
        S.check("tsbd_N is the time-shift buffer", S.eq(S.iso(r.get("timeShiftBufferDepth")), n))
    elif key == "mup":
        S.check("mup_N is the update period", S.eq(S.iso(r.get("minimumUpdatePeriod")), n))
    elif key == "spd":
        S.check("spd_N is the suggested delay", S.eq(S.iso(r.get("suggestedPresentationDelay")), n))
    elif key in ("start", "ast"):
        S.check("start_N is the availability start", S.timestamp(r.get("availabilityStartTime")) == n - n % D)
    elif key == "startrel":
        s = now + n
        S.check("startrel_N is the availability start", S.timestamp(r.get("availabilityStartTime")) == s - s % D)
        S.check("and the MPD redirects to the session with that start", len(r.findall(c.NS + "Location")) == 1 and
                not r.findall(c.NS + "BaseURL"))
    elif key == "snr":
        shift = 5 if noise == "timeoffset_10" else 0
        if noise == "timeoffset_10":
            return
        for t in ts:
            sn = t.get("startNumber")
            S.check("snr_N is the start number", (sn is None) if S.eq(n, -1) else (sn is not None and S.parse_int(sn) == n))
    elif key == "ato":
        for b in r.findall(c.NS + "BaseURL"):
            a = b.get("availabilityTimeOffset")
            S.check("ato_X is the availability time offset", (a is None) if want is None else (
                a == want if want == "INF" else a is not None and float(a) == want))
    elif key == "utc":
        S.check("utc_a-b lists these clocks in this order",
                [u.get("schemeIdUri") for u in r.findall(c.NS + "UTCTiming")] == [UTC[w] for w in want])
    elif key == "scte35":
        for p, a, t in c.templates(r):
            ev = [e.get("schemeIdUri") for e in a.findall(c.NS + "InbandEventStream")]
            S.check("scte35_N announces splice events for video", ev == (
                ["urn:scte:scte35:2013:xml"] if want and a.get("contentType") == "video" else []))
        S.check("and the ad insertion profile", ("http://dashif.org/guidelines/adin/app" in r.get("profiles").split(",")) == (want > 0))
    elif key == "baseurl":
        got = [b.text for b in r.findall(c.NS + "BaseURL")]
        S.check("baseurl_X gives one base URL for each", len(got) == len(want))
        for g, w in zip(got, want):
            S.check("each with its own loss pattern and no other", [x for x in g.split("/") if x.startswith("baseurl_")] == ["baseurl_" + w])
            rest = [x for x in g.split("/") if x and not x.startswith("baseurl_")]
            S.check("and all other options", rest == ["http:", c.HOST, c.PREFIX] +
                    [x for x in parts if not x.startswith("baseurl_")] + ["c"])
    elif key == "timeoffset":
        ast = 20 if noise == "start_20" and parts[-1] == noise else 120
        for t in ts:
            x = t.get("presentationTimeOffset")
            S.check("timeoffset_N shifts the media timeline", (0 if x is None else S.parse_int(x)) == ast - n)
    elif key == "peroff":
        sb = r.find(c.NS + "Period").findall(c.NS + "SegmentBase")
        x = sb[0].get("presentationTimeOffset") if len(sb) == 1 else None
        ast = 20 if noise == "start_20" else 0
        S.check("peroff_N moves the presentation time offset to the period",
                len(sb) <= 1 and (0 if x is None else S.parse_int(x)) == (-10 if noise == "timeoffset_10" else 0))
        for t in ts:
            S.check("and not the segment templates", t.get("presentationTimeOffset") is None)
    elif key == "stop":
        S.check("stop_N ends the session", S.eq(S.iso(r.get("mediaPresentationDuration")), (n + 1) // D * D - 40))
    elif key == "dur":
        S.check("dur_N ends the session", S.And(S.eq(S.iso(r.get("mediaPresentationDuration")), n),
                                                S.timestamp(r.get("availabilityEndTime")) == (40 + n) // D * D))


def content(S):
    "The first part of the path that is not an option names the content, also with an underscore in its name."
    name = S.choice("name", ["testpic_2s", "starting_1", "c", "x_start_5", "Tsbd_30", "t_sbd_30", "a-b.c", "mups_1", "1_2"])
    opts = S.choice("opts", [[], ["tsbd_50"], ["start_4", "snr_1"]])
    c.vod(S, name=name, D=2, nr=4, first=1, tsbd=300, ts={"video": 90000, "audio": 48000})
    c.vod_mpd(S, content=name)
    sub = S.choice("sub", [[], ["tsbd_20"], ["start_100000000000", "deep"]])
    c.vod_mpd(S, content="/".join([name] + sub))
    S.file("vod/" + "/".join([name] + sub + ["V1", "init.mp4"]), c.box(S, b"ftyp", b"iso6"))
    now = S.int("now", 10, 2 ** 33)
    r = c.mpd_root(S, c.fetch_mpd(S, opts + [name, "Manifest.mpd"], now))
    S.check("the content's MPD is served", r is not None)
    S.check("the options before the content's name are in force, those after it are part of the path",
            S.iso(r.get("timeShiftBufferDepth")) == (50 if opts == ["tsbd_50"] else 300) and
            S.timestamp(r.get("availabilityStartTime")) == (4 if "start_4" in opts else 0))
    out = c.fetch_init(S, opts + [name] + sub + ["V1", "init.mp4"], now)
    S.check("files below the content are found", c.served(S, out))


BAD = ["", "x", "1.5", "--1", "0x10", "1 2"]


def malformed(S):
    "An option whose value cannot be read, or without a value, makes the request fail with an explanation."
    key = S.variant
    stored(S)
    opt = S.choice("opt", [key] + [key + "_" + b for b in BAD])
    noise = S.choice("noise", [[], ["tsbd_20"], ["sid_1"]])
    what = S.choice("what", [["c", "Manifest.mpd"], ["c", "V1", "init.mp4"], ["c", "V1", "3.m4s"]])
    S.file("vod/c/V1/4.m4s", c.small_segment(S, 0))
    now = S.int("now", 9, 100)
    out, reply = web.request(S, "/".join(["", c.PREFIX] + noise + [opt] + what), now)
    S.check("the request gets one reply", out.ok and reply.calls == 1)
    S.check("it is refused", reply.status == "404 Not Found")
    S.check("with an explanation in plain text", reply.get("Content-Type") == "text/plain" and S.len(web.body(S, out)) > 0)


def unknown(S):
    "What is neither an option nor a content is refused."
    stored(S)
    part = S.choice("part", ["foo_1", "Start_5", "tsbds_5", "nosuch", "", "_", "_5", "sta rt_5", "testpic_2s"])
    rest = S.choice("rest", [[], ["tsbd_20"], ["c"]])
    what = S.choice("what", [["Manifest.mpd"], ["V1", "init.mp4"], ["V1", "3.m4s"], ["c", "Manifest.mpd"]])
    now = S.int("now", 9, 100)
    out, reply = web.request(S, "/".join(["", c.PREFIX, part] + rest + what), now)
    S.check("the request gets one reply", out.ok and reply.calls == 1)
    S.check("it is refused", reply.status == "404 Not Found")


INTKEYS = ["start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "periods", "xlink",
           "etp", "etpDuration", "insertad", "mpdcallback", "continuous", "segtimeline", "segtimelinenr", "peroff", "scte35", "snr",
           "spd", "sidx", "segtimelineloss"]
K = dict(functions=FUNCS, contracts=ISO, contracts_used=USES_ISO)
HARNESSES = [
    Harness("order", order, variants=[(k, a) for a in KEYS for k in ("mpd", "init") if any(b > a for b in KEYS)], n_random=30,
            budget=60, bounded="pairs of options; now is one of two instants for the options that give several periods, "
            "timelines or sessions", **K),
    Harness("effect", effect, variants=EFFECTS, n_random=100, budget=100, **K),
    Harness("content", content, n_random=60, budget=60, **K),
    Harness("malformed", malformed, variants=INTKEYS, n_random=10, budget=30, **K),
    Harness("unknown", unknown, n_random=30, budget=30, **K),
]
