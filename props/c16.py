"""C16: SCTE-35 ad breaks."""
import re

from pyvc.harness import Harness
from props import common as c
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/mediasegmentfilter.py:MediaSegmentFilter.create_scte35box,MediaSegmentFilter.process_styp",
         "dashlib/scte35.py:*", "dashlib/emsg.py:Emsg.*", "dashlib/dash_proxy.py:process_media_segment,filter_media_segment",
         "dashlib/mpdprocessor.py:MpdProcessor.process_mpd,update_periods"]
SCHEDULE = {1: (10,), 2: (10, 40), 3: (10, 36, 46)}
SCHEME, VALUE = b"urn:scte:scte35:2013:xml", b"999"


def place(S, v, kinds):
    "Options, media time of the start of the segment (k whole segments), its number, an instant to ask for it."
    D = v.D
    opts, first, ast = [], 0, 0
    k = S.int("k", 0, 2 ** 31, near=(0, 1, 9, 10, 11))
    if "snr" in kinds:
        s = S.int("snr", -1, 2 ** 30, typ=(-1, 0, 1, 7))
        first = S.ite(s == -1, 1, s)
        opts.append(S.fmt("snr_%d", s))
    if "start" in kinds:
        a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100))
        S.assume(a <= k)
        opts.append(S.fmt("start_%d", a * D))
    off = 0
    if "timeoffset" in kinds:
        a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100))
        p = S.int("offset_segs", 0, 2 ** 31, typ=(0, 1, 5))
        S.assume(S.And(p <= a, p <= k))
        opts += [S.fmt("start_%d", a * D), S.fmt("timeoffset_%d", (a - p) * D)]
        off = (a - p) * D
    now = (k + 1) * D + off
    return opts, k, first + k, now


def stored(S, v, rep, k, ct, styp=True, sample=False):
    r = k % v.nr
    t = r * v.D * v.ts[ct]
    if sample:
        moof = lambda off: c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(7)), c.box(
            S, b"traf", c.full(S, b"tfhd", 0, 0x20000, S.u32(1)), c.tfdt(S, 1, t),
            c.full(S, b"trun", 0, 0x301, S.u32(1), S.u32(off), S.u32(v.D * v.ts[ct]), S.u32(3))))
        seg = S.cat(c.box(S, b"styp", b"msdh", S.u32(0), b"msdh"), moof(S.len(moof(0)) + 8), c.box(S, b"mdat", b"abc"))
    else:
        seg = c.small_segment(S, t, payload=b"abc", styp=styp)
    S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + r), seg)


def event(S, body):
    "Fields of an emsg box (version 0), or None."
    if not S.len(body) > 4 + len(SCHEME) + 1 + len(VALUE) + 1 + 16:
        return None
    a = 4 + len(SCHEME) + 1
    b = a + len(VALUE) + 1
    S.check("the event box is of version 0", S.eq(body[:4], b"\0\0\0\0"))
    S.check("its scheme and value are those of SCTE-35 in XML",
            S.And(S.eq(body[4:a], SCHEME + b"\0"), S.eq(body[a:b], VALUE + b"\0")))
    return [S.unum(body[b + 4 * i:b + 4 * i + 4]) for i in range(4)] + [body[b + 16:]]


def breaks(S):
    "Every break is announced in the segment that covers the instant 6 s ahead, and nothing else is."
    n, D, kinds = S.variant
    v = c.vod(S, D=D)
    opts, k, N, now = place(S, v, kinds)
    S.assume(N < 2 ** 32)
    opts = opts + [x for x in kinds if "_" in x]
    stored(S, v, "V1", k, "video", sample="chunk" in kinds or "sidx_1" in kinds)
    S.file("vod/c/V1/init.mp4", c.box(S, b"moov", c.box(S, b"mvex", c.full(S, b"trex", 0, 0, bytes(20)))))
    if "mux" in kinds:
        stored(S, v, "A1", k, "audio")
        rep = S.choice("rep", ["V1__A1", "A1__V1"])
        out = c.fetch_media(S, ["scte35_%d" % n] + opts + ["c", rep, S.fmt("%d.m4s", N)], now)
    elif "chunk" in kinds:
        out = c.fetch_media(S, ["scte35_%d" % n, "chunkdur_1"] + opts + ["c", "V1", S.fmt("%d.m4s", N)], now, True)
        S.check("the segment is served", out.ok and not c.refused(out))
        out.value = S.cat(*out.value.chunks)
    else:
        out = c.fetch_media(S, ["scte35_%d" % n] + opts + ["c", "V1", S.fmt("%d.m4s", N)], now)
    S.check("the segment is served", c.served(S, out))
    evs = c.find_all(S, out.value, b"emsg")
    S.check("the segment is well formed", evs is not None)
    S.check("there is at most one announcement", len(evs) <= 1)
    start = k * D
    m = start // 60
    due = [60 * (m + q) + o for q in (0, 1) for o in SCHEDULE[n]]
    if not evs:
        for T in due:
            S.check("a break is announced 6 s ahead", S.Not(S.And(start <= T - 6, T - 6 < start + D)))
        return
    ev = event(S, evs[0][1])
    S.check("the announcement is complete", ev is not None)
    ts, delta, dur, ident, msg = ev
    S.check("its time scale is that of the splice times", ts == 90000)
    T = start + delta // 90000
    S.check("it is for a break of the schedule", S.Or(*[S.And(delta == (t - start) * 90000) for t in due]))
    S.check("not less than 6 s and not more than 8 s after the segment", S.And(T - 6 >= start, T - 8 <= start + D))
    for t in due:
        S.check("a break is announced 6 s ahead", S.Implies(S.And(start <= t - 6, t - 6 < start + D), T == t))
    S.check("the break takes 10 s", dur == 900000)
    S.check("a break keeps its identifier, which no other has", ident == T // 10)
    text = message(S, msg)
    g = re.match(r'<SpliceInfoSection ptsAdjustment="(\d+)" scte35:tier="4095">\n<SpliceInsert spliceEventId="(\d+)" '
                 r'spliceEventCancelIndicator="false" outOfNetworkIndicator="false" uniqueProgramId="0" availNum="0" '
                 r'availsExpected="0" spliceImmediateFlag="false" >\n<Program><SpliceTime ptsTime="(\d+)"/></Program>\n'
                 r'<BreakDuration autoReturn="true" duration="(\d+)"/>\n</SpliceInsert>\n</SpliceInfoSection>$', text)
    S.check("the message is a splice insert", g is not None)
    adj, sid, pts, bd = [S.parse_int(x) for x in g.groups()]
    S.check("the message names the break", sid == ident)
    S.check("the splice time is the media time of the break", (pts + adj) % 2 ** 33 == (T * 90000) % 2 ** 33)
    S.check("and the message says how long it takes", bd == 900000)


def message(S, b):
    from pyvc import sbytes
    if isinstance(b, sbytes.SymBytes):
        return b.decode("utf-8")
    return b.decode("utf-8")


def others(S):
    "Segments that are not video, and sessions without the option, carry no announcement; announcements change nothing else."
    kind = S.variant
    D = S.choice("D", [2, 6, 10])
    v = c.vod(S, D=D)
    opts, k, N, now = place(S, v, ("snr",))
    S.assume(N < 2 ** 32)
    rep, ct = ("A1", "audio") if kind == "audio" else ("V1", "video")
    stored(S, v, rep, k, ct, styp=kind != "no_styp")
    get = lambda o: c.fetch_media(S, o + opts + ["c", rep, S.fmt("%d.m4s", N)], now)
    plain = get([])
    with_ = get(["scte35_%d" % S.choice("breaks", [0, 1, 2, 3]) if kind != "zero" else "scte35_0"])
    S.check("both are served", c.served(S, plain) and c.served(S, with_))
    S.check("without the option nothing is announced", len(c.find_all(S, plain.value, b"emsg")) == 0)
    bs = c.walk(S, with_.value)
    if kind in ("audio", "zero"):
        S.check("nothing is announced", S.eq(plain.value, with_.value))
        return
    rest = S.cat(*[w for t, w, b in bs if t != b"emsg"])
    S.check("all other boxes are unchanged and in order", S.eq(plain.value, rest))
    seen = False
    for t, w, b in bs:
        seen = seen or t == b"moof"
        if t == b"emsg":
            S.check("announcements stand before the media", not seen)


def manifest(S):
    "The MPD tells players where to look."
    kind = S.variant
    v = c.vod(S, D=2, tsbd=60)
    c.vod_mpd_d(S, v)
    n = S.choice("breaks", [0, 1, 2, 3])
    o = {"plain": [], "periods": ["periods_60"], "stop": ["start_0", "stop_%d" % 600]}[kind]
    root = c.mpd_root(S, c.fetch_mpd(S, ["scte35_%d" % n] + o + ["c", "Manifest.mpd"], 60 * S.int("minutes", 0, 2 ** 26) + 7))
    S.check("the MPD is served and well formed", root is not None)
    profs = root.get("profiles").split(",")
    S.check("the profile of ad insertion is given", profs.count("http://dashif.org/guidelines/adin/app") == (1 if n else 0))
    for p in root.findall(c.NS + "Period"):
        for a in p.findall(c.NS + "AdaptationSet"):
            es = [(e.get("schemeIdUri").encode(), e.get("value").encode()) for e in a.findall(c.NS + "InbandEventStream")]
            S.check("the events are those of the video",
                    es == ([(SCHEME, VALUE)] if n and a.get("contentType") == "video" else []))


BV = [(n, D, k) for n in (1, 2, 3) for D in range(1, 11) for k in ((), ("snr",), ("start", "snr"), ("timeoffset", "snr"))]
BV += [(n, D, ("snr", how)) for n, D in ((2, 2), (3, 10), (1, 7)) for how in ("mux", "chunk")]
CROSS = [(n, D, tuple(x)) for n, D, x in ((3, 2, ["sidx_1"]), (2, 6, ["sidx_1", "tsbd_5", "ato_inf"]))]
CROSS += [((1, 2, 3)[i % 3], (2, 6, 10)[i % 3], tuple(x)) for i, x in enumerate(c.UNRELATED)]
BQ = [(n, D, k) for n, D, k in BV if k in ((), ("timeoffset", "snr"), ("snr", "mux"), ("snr", "chunk")) or (n, D, k) == (2, 2, ("snr",))]
HARNESSES = [
    Harness("breaks", breaks, variants=BV, n_random=60, budget=100, functions=FUNCS, slow=[v for v in BV if v not in BQ]),
    Harness("cross", breaks, variants=CROSS, n_random=40, budget=60, functions=FUNCS),
    Harness("others", others, variants=["video", "audio", "zero", "no_styp"], n_random=60, budget=100, functions=FUNCS),
    Harness("manifest", manifest, variants=["plain", "periods", "stop"], n_random=40, budget=60, functions=FUNCS, contracts=ISO,
            contracts_used=USES_ISO),
]
