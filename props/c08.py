"""C08: low-latency delivery: chunks at the pace of the encoder, as the MPD says."""
from pyvc.harness import Harness
from props import common as c
from props import web
from props.c07 import parse_chunk
from props.contracts import ISO, USES_ISO

FUNCS = ["mod_wsgi/mod_dashlivesim.py:application", "dashlib/chunker.py:chunk,partition",
         "dashlib/dash_proxy.py:get_media,process_media_segment", "dashlib/mpd_proxy.py:generate_dynamic_mpd",
         "dashlib/mpdprocessor.py:MpdProcessor.update_periods,insert_producer_reference",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,Config.adjusted_pto"]
TEXT = {0.04: "0.04", 0.5: "0.5", 1: "1", 2: "2.0"}


def session(S, v, kinds, k):
    "(options, availability start, first number, media time at the start in segments)"
    o, ast, first, p = [], 0, 0, 0
    if "snr" in kinds:
        s = S.int("snr", -1, 2 ** 30, typ=(-1, 0, 1, 7))
        first = S.ite(s == -1, 1, s)
        o.append(S.fmt("snr_%d", s))
    if "start" in kinds:
        a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100))
        ast = a * v.D
        o.append(S.fmt("start_%d", ast))
        if "timeoffset" in kinds:
            p = S.int("offset_segs", 0, None, typ=(0, 1, 5))
            S.assume(a >= p)
            first = first + p
            o.append(S.fmt("timeoffset_%d", ast - p * v.D))
    return o, ast, first, p


def content(S, v, vod_nr, durations, ts):
    rows = [S.cat(S.u32(d), S.u32(1)) for d in durations]
    trun = c.full(S, b"trun", 0, 0x301, S.u32(len(rows)), S.u32(8), *rows)
    size = S.len(trun)
    def moof(off):
        t = c.full(S, b"trun", 0, 0x301, S.u32(len(rows)), S.u32(off), *rows)
        return c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(1)),
                     c.box(S, b"traf", c.full(S, b"tfhd", 0, 0x20000, S.u32(1)), c.tfdt(S, 1, 0), t))
    m = moof(S.len(moof(0)) + 8)
    S.file("vod/c/V1/init.mp4", c.box(S, b"moov", c.box(S, b"mvex", c.full(S, b"trex", 0, 0, *[S.u32(1)] * 5))))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + vod_nr), S.cat(c.box(S, b"styp", b"msdh", S.u32(0)), m,
                                                             c.box(S, b"mdat", bytes(range(len(rows))))))


def pace(S):
    "Chunk i is delivered 100 ms before i chunk durations into the segment: not before, and as soon as that if it is asked for."
    kinds, cd, n, ato = S.variant
    ts = 1000
    v = c.vod(S, D=2, ts={"video": ts, "audio": 1})
    k = S.int("k", 0, 2 ** 31, typ=(0, 1, 9))
    o, ast, first, p = session(S, v, kinds, k)
    opts = list(o)
    a = 0
    if ato == "inf":
        opts.append("ato_inf")
    elif ato:
        a = ato
        opts.append("ato_%s" % ato)
    end = ast + (k + 1) * v.D
    start = end - v.D
    N = first + k
    S.assume(N <= c.MAXN)
    step = int(cd * ts)
    content(S, v, (k + p) % v.nr, [step] * n, ts)
    now = S.real("now", 0, None, near=(start, end - a, end, end + 1, end + v.D + v.tsbd))
    S.assume(S.And(now >= ast, now <= end + v.D + v.tsbd))
    if ato != "inf":
        S.assume(now >= end - a)
    m = S.mod(web.W)
    S.clock.t = now
    env = {"HTTP_HOST": c.HOST, "REQUEST_URI": S.fmt("/%s/%s/c/V1/%%d.m4s" % (c.PREFIX, "/".join(["chunkdur_" + TEXT[cd]] + opts)), N),
           "VOD_CONF_DIR": S.root + "/cfg", "CONTENT_ROOT": S.root + "/vod", "wsgi.url_scheme": "http"}
    if S.flag("range"):
        env["HTTP_RANGE"] = "bytes=0-99"
    r = web.Reply()
    seen = []
    waits = [S.real("client%d" % i, 0, 2 ** 20, typ=(0, 0.01, 5)) for i in range(n)]

    def client():
        "Takes one chunk after the other, each at its own pace."
        for i, x in enumerate(m.application(env, r)):
            seen.append((S.clock.t, x))
            S.clock.t = S.clock.t + waits[min(i, n - 1)]
    out = S.call(client)
    S.check("one reply, of the whole segment", out.ok and r.calls == 1 and r.status == "200 OK")
    S.check("its length is not known in advance", r.get("Content-Length") is None)
    S.check("it is media", r.get("Content-Type") == "video/iso.segment")
    S.check("it has all chunks", len(seen) == n)
    free = now
    for i, (t, x) in enumerate(seen):
        due = start + (i + 1) * cd - 0.1
        S.check("no chunk comes before its time", t >= due)
        S.check("none later than it has to", t == S.max(free, due))
        free = t + waits[i]


def early(S):
    "Before the announced time even a chunked segment is not delivered, from then on it is."
    kinds, ato = S.variant
    v = c.vod(S, D=2)
    k = S.int("k", 0, 2 ** 31, typ=(0, 1, 9))
    o, ast, first, p = session(S, v, kinds, k)
    content(S, v, (k + p) % v.nr, [v.ts["video"]], v.ts["video"])
    c.vod_mpd_d(S, v)
    opts = ["chunkdur_1", "ato_%s" % ato] + o
    now = S.real("now", 0, 2 ** 33, near=(ast + (k + 1) * v.D, ast + k * v.D))
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], S.int("mpd_time", 0, 2 ** 33)))
    S.check("the MPD is served and well formed", root is not None)
    at = S.timestamp(root.get("availabilityStartTime"))
    for per, aset, t in c.templates(root):
        S.check("a segment is announced as incomplete before its end", t.get("availabilityTimeComplete") == "false")
        x = t.get("availabilityTimeOffset")
        S.check("and how long before", x == "INF" if ato == "inf" else (x is not None and S.parse_num(x) == max(float(ato), 0)))
        prt = aset.findall(c.NS + "ProducerReferenceTime")
        S.check("there is a reference of the encoder", len(prt) == 1 and prt[0].get("type") == "encoder")
        media0 = S.parse_int(prt[0].get("presentationTime"))
        S.check("media time 0 of it was, or would have been, encoded at the time it says",
                S.And(media0 == 0, S.timestamp(prt[0].get("wallClockTime")) == ast - p * v.D))
    S.check("the offset is announced once", all(b.get("availabilityTimeOffset") is None for b in root.findall(c.NS + "BaseURL")))
    S.check("the profile is that of low latency", "http://www.dashif.org/guidelines/low-latency-live-v5" in root.get("profiles").split(","))
    S.check("the clock is synchronised", len(root.findall(c.NS + "UTCTiming")) > 0)
    S.check("the latency is described", len(root.findall(c.NS + "ServiceDescription")) == 1)
    N = first + k
    S.assume(N <= c.MAXN)
    out = c.fetch_media(S, opts + ["c", "V1", S.fmt("%d.m4s", N)], now, chunk=True)
    S.check("an answer", out.ok)
    due = at + (k + 1) * v.D - (0 if ato == "inf" else max(float(ato), 0))
    if ato == "inf":
        S.check("always available", S.iff(c.served(S, out), now >= at))
    else:
        S.check("not before", S.Implies(now < due, c.refused(out)))
        S.check("from then on", S.Implies(S.And(now >= due, now <= at + (k + 2) * v.D + v.tsbd), c.served(S, out)))


def cut(S):
    "Chunk k ends with the first sample that ends k chunk durations into the segment or later; the last one takes the rest."
    cd, n = S.variant
    v = c.vod(S, D=2, ts={"audio": 1}, conc_D=2)
    ts = v.ts["video"]
    dur = cd * ts
    ds = [S.int("duration%d" % i, 1, c.MAXN, near=(dur // 2, dur, dur // 3)) for i in range(n)]
    for d in ds:
        S.assume(d <= dur)
    N = S.int("N", 0, c.MAXN)
    content(S, v, N % v.nr, ds, ts)
    out = c.fetch_media(S, ["chunkdur_%d" % cd, "c", "V1", S.fmt("%d.m4s", N)], (N + 1) * v.D, chunk=True)
    S.check("the segment is served", c.served(S, out))
    seg = out.value
    S.check("its start is that of its media", seg.seg_start == N * v.D)
    got = []
    for x in seg.chunks:
        b = c.walk(S, x)
        p = parse_chunk(S, b[-2:]) if b is not None and len(b) >= 2 else None
        S.check("chunks are readable", p is not None)
        got.append(len(p[1]))
    S.check("no sample is lost", sum(got) == n)
    end, k = 0, 0
    for i, m in enumerate(got):
        before = end
        for d in ds[k:k + m - 1]:
            before = before + d
        end = before + ds[k + m - 1]
        k += m
        S.check("before its last sample a chunk is shorter", before < (i + 1) * dur)
        if i < len(got) - 1:
            S.check("and reaches its end with it", end >= (i + 1) * dur)


PV = [((), 1, 2, 0), (("snr",), 0.5, 2, 2), (("start",), 0.5, 3, 1.5), (("start", "timeoffset", "snr"), 1, 2, 1), (("snr",), 1, 2, "inf"),
      (("start",), 0.04, 4, 1.5)]
EV = [(("snr",), "1.5"), (("start", "timeoffset"), "1"), (("start",), "inf"), (("snr",), "-1"), (("start", "snr"), "7")]
HARNESSES = [
    Harness("pace", pace, variants=PV, n_random=100, budget=100, functions=FUNCS, bounded="2 to 4 chunks", slow=PV[-1:]),
    Harness("early", early, variants=EV, n_random=100, budget=100, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO),
    Harness("cut", cut, variants=[(1, 3), (2, 4)], n_random=100, budget=100, functions=FUNCS, bounded="segments of 3 or 4 samples"),
]
