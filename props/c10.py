"""C10: what the MPD announces is what is served (numbered addressing)."""
from pyvc.harness import Harness
from props import common as c
from props import segtl
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd,generate_period_data", "dashlib/mpdprocessor.py:MpdProcessor.*",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,Config.*,VodConfig.read_config",
         "dashlib/dash_proxy.py:createProvider,get_media,process_media_segment,get_init,filter_media_segment",
         "dashlib/mediasegmentfilter.py:MediaSegmentFilter.process_tfdt,process_mfhd"]


def options(S, v, kinds):
    "URL options of the given kinds, and what the harness needs to know to place the stored file."
    D = v.D
    opts = []
    p = 0            # whole segments of media time at the availability start
    astseg = 0
    end = None
    if "start" in kinds:
        astseg = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
        r = S.int("start_rest", 0, None, typ=(0, 1, 3))
        S.assume(r < D)
        opts.append(S.fmt("start_%d", astseg * D + r))
    if "stop" in kinds:
        n = S.int("segs", 1, 2 ** 31, typ=(1, 2, 10, 600))
        s = S.int("stop_rest", 0, None, typ=(0, 1, 3))
        S.assume(S.And(s < D, D * (astseg + n) - s >= astseg * D + r))
        opts.append(S.fmt("stop_%d", D * (astseg + n) - s))
    if "dur" in kinds:
        n = S.int("segs", 1, 2 ** 31, typ=(1, 2, 10, 600))
        s = S.int("stop_rest", 0, None, typ=(0, 1, 3))
        S.assume(S.And(s < D, D * (astseg + n) + s >= astseg * D + r))
        opts.append(S.fmt("dur_%d", D * (astseg + n) + s - astseg * D - r))
    if "tsbd" in kinds:
        opts.append(S.fmt("tsbd_%d", S.int("tsbd", 0, None, typ=(0, 1, 30, 3600))))
    if "snr" in kinds:
        opts.append(S.fmt("snr_%d", S.int("snr", -1, None, typ=(-1, 0, 1, 7))))
    if "snr0" in kinds:
        opts.append(S.fmt("snr_%d", S.int("snr", 0, None, typ=(0, 1, 7))))
    if "timeoffset" in kinds:
        p = S.int("offset_segs", 0, None, typ=(0, 1, 5))
        S.assume(astseg >= p)
        opts.append(S.fmt("timeoffset_%d", (astseg - p) * D))
    if "ato" in kinds:
        opts.append(S.choice("ato", ["ato_0", "ato_1", "ato_1.5", "ato_30", "ato_-3", "ato_x"]))
    if "late" in kinds:                          # one period, which starts 1000 hours after the session
        opts.append("periods_0")
    if "atoinf" in kinds:
        opts.append("ato_inf")
    if "peroff" in kinds:
        opts.append("peroff_1")
    return opts, p


class Client(object):
    "What a player computes from the MPD alone."

    def __init__(self, S, root):
        self.S, self.root = S, root
        self.ast = S.timestamp(root.get("availabilityStartTime"))
        x = root.get("timeShiftBufferDepth")
        self.tsbd = None if x is None else S.iso(x)
        x = root.get("mediaPresentationDuration")
        self.dur = None if x is None else S.iso(x)
        self.aet = root.get("availabilityEndTime")
        self.static = root.get("type") == "static"
        self.base = [b for b in root.findall(c.NS + "BaseURL")]
        a = self.base[0].get("availabilityTimeOffset")
        self.inf = a == "INF"
        self.ato = 0 if a is None or self.inf else S.parse_num(a)
        ps = root.findall(c.NS + "Period")
        S.check("there is one period", len(ps) == 1)
        self.period = ps[0]
        self.start = S.iso(ps[0].get("start"))

    def template(self, content_type):
        S = self.S
        for a in self.period.findall(c.NS + "AdaptationSet"):
            if a.get("contentType") == content_type:
                t = a.find(c.NS + "SegmentTemplate")
                self.rep = a.find(c.NS + "Representation").get("id")
                x = t.get("startNumber")
                self.sn = 1 if x is None else S.parse_int(x)
                self.d = S.parse_int(t.get("duration"))
                self.media, self.init = t.get("media"), t.get("initialization")
                x = t.get("presentationTimeOffset")
                self.pto = 0 if x is None else S.parse_int(x)
                sb = self.period.find(c.NS + "SegmentBase")
                if sb is not None and x is None and sb.get("presentationTimeOffset") is not None:
                    self.pto = S.parse_int(sb.get("presentationTimeOffset"))
                x = t.get("timescale")
                S.check("the template counts in seconds", x is None or x == "1")
                return t
        return None

    def parts(self, name):
        url = self.base[0].text + name
        head = "http://%s/%s/" % (c.HOST, c.PREFIX)
        self.S.check("the media URL is on this server", url.startswith(head))
        return url[len(head):].split("/")


def number(S):
    "A player that follows the MPD gets every segment that the MPD says is available, and the MPD's timeline is the media's."
    kinds = S.variant
    restart = "tfdt" in kinds                 # the session starts anew every three hours
    late = 3600000 if "late" in kinds else 0
    v = c.vod(S, D=S.choice("D", [2, 6]), nr=S.choice("nr", [4, 7])) if late and S.symbolic else \
        c.vod(S, D=S.choice("D", [1, 2, 6, 10])) if late else \
        c.vod(S, D=S.choice("D", [1, 2, 7, 10])) if restart and S.symbolic else c.vod(S)
    D = v.D
    opts, p = options(S, v, kinds)
    # content whose stored presentation starts elsewhere: the live timeline is its own
    c.vod_mpd_d(S, v, tmpl=S.fmt(' presentationTimeOffset="%d"', S.int("stored_pto", 1, 2 ** 32)) if "pto" in kinds else "")
    if restart:
        opts.append("tfdt_32")
        session = 10800 * S.int("session", 0, 2 ** 22, typ=(0, 138888))
        now = session + S.real("since_start", 0, 10799, typ=(0, 20, 5400))
    else:
        now = S.real("now", 0, 2 ** 36, typ=(0, 1500000000))
    out = c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now)
    root = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", root is not None)
    cl = Client(S, root)
    if not set(kinds) & {"stop", "dur", "tfdt"}:
        S.check("no end of an endless session is announced", cl.dur is None and cl.aet is None)
    ct = S.choice("media", ["video", "audio"])
    t = cl.template(ct)
    S.check("the adaptation set is there", t is not None)
    S.check("segments have the content's duration", cl.d == D)
    j = S.int("j", 0, 2 ** 31, near=((now - cl.ast - cl.start) // D, (now - cl.ast - cl.start) // D - 1))
    N = cl.sn + j
    S.assume(N <= c.MAXN)
    # when the MPD says the segment is available
    first_at = cl.ast + cl.start + (j + 1) * D - cl.ato
    after = S.real("after", 0, None, typ=(0, 0.5, 1, 5))
    later = now + after                       # the MPD was fetched at `now`, the segment is asked for at `later`
    avail = (later >= cl.ast) if cl.inf else (later >= first_at)
    if cl.static:
        pass
    elif cl.tsbd is not None and not cl.inf:
        avail = S.And(avail, later <= cl.ast + cl.start + (j + 2) * D + cl.tsbd)
    if cl.dur is not None:
        avail = S.And(avail, (j + 1) * D <= cl.dur)
        if not cl.static and cl.aet is not None:
            avail = S.And(avail, later <= S.timestamp(cl.aet))
    S.assume(avail)
    if restart:
        S.assume(later < session + 10800)
    rep = cl.rep
    stored = (j + p + late // D) % v.nr
    S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + stored),
           c.small_segment(S, stored * D * v.ts[ct]))
    name = cl.media.replace("$RepresentationID$", rep).replace("$Number$", S.fmt("%d", N))
    got = c.fetch_media(S, cl.parts(name), later)
    S.check("an announced segment is served", c.served(S, got))
    f = c.media_facts(S, got.value)
    S.check("it has the announced number", f is not None and f[0] == N)
    S.check("its media time is that of the MPD timeline", f[1] == (j * D + cl.pto) * v.ts[ct])


def offset(S):
    "A segment is served from the very moment on from which the MPD, with its availabilityTimeOffset, announces it."
    v = c.vod(S)
    D = v.D
    opts, p = options(S, v, ("start",) if S.variant == "start" else ("snr",))
    a = S.choice("ato", [None, "0", "0.05", "0.5", "0.999", "1", "1.25", "2.000001", "7.75", "30", "inf", "-1", "-3"])
    if a is not None:
        opts.append("ato_" + a)
    if S.flag("options_reversed"):
        opts = opts[::-1]
    c.vod_mpd_d(S, v, head=S.choice("stored", ["", "<BaseURL>dash/</BaseURL>", '<BaseURL availabilityTimeOffset="5">http://a.b/</BaseURL><BaseURL>c/</BaseURL>'])
                if S.variant == "stored" else "")
    now = S.real("now", 0, 2 ** 36, typ=(0, 1500000000))
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    cl = Client(S, root)
    S.check("the offset is announced in one place", len([e for e in root.iter() if e.get("availabilityTimeOffset") is not None]) <= 1)
    S.check("segments are announced as complete", all(e.get("availabilityTimeComplete") is None for e in root.iter()))
    if a == "inf":
        S.check("an infinite offset is announced", cl.inf)
        return
    S.check("a finite offset is announced as such", not cl.inf)
    cl.template("video")
    later = now + S.real("after", 0, None, typ=(0, 0.5, 1, 5))
    S.assume(later >= cl.ast)
    j = S.int("j", 0, 2 ** 31, near=((later + cl.ato - cl.ast) // D, (later + cl.ato - cl.ast) // D - 1))
    S.assume(later <= cl.ast + (j + 2) * D)
    N = cl.sn + j
    S.assume(N <= c.MAXN)
    stored = (j + p) % v.nr
    S.file(S.fmt("vod/c/" + cl.rep + "/%d.m4s", v.first + stored), c.small_segment(S, stored * D * v.ts["video"]))
    name = cl.media.replace("$RepresentationID$", cl.rep).replace("$Number$", S.fmt("%d", N))
    got = c.fetch_media(S, cl.parts(name), later)
    S.check("served when announced and not before", S.iff(c.served(S, got), later >= cl.ast + (j + 1) * D - cl.ato))


def init(S):
    "The announced initialization segment is served whenever the MPD says media is available."
    kinds = S.variant
    v = c.vod(S)
    opts, p = options(S, v, kinds)
    c.vod_mpd_d(S, v)
    now = S.real("now", 0, 2 ** 36, typ=(0, 1500000000))
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    cl = Client(S, root)
    cl.template("video")
    S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
    later = now + S.real("after", 0, None, typ=(0, 0.5, 1, 5))
    S.assume(later >= cl.ast)
    got = c.fetch_init(S, cl.parts(cl.init.replace("$RepresentationID$", cl.rep)), later)
    S.check("the announced initialization segment is served", c.served(S, got))


def timeline(S):
    "Every segment a SegmentTimeline lists is served under its announced name, number and media time."
    numbered, shape, kinds, pick = S.variant
    stop = "stop" in kinds
    tb = segtl.table(S, shape)
    v = tb.vod
    D = v.D
    opts, ast, p = ["segtimelinenr_1" if numbered else "segtimeline_1"], 0, 0
    if "start" in kinds:
        a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
        r = S.int("start_rest", 0, D - 1)
        ast = D * a
        opts.append(S.fmt("start_%d", ast + r))
        if "offset" in kinds:
            p = S.int("offset_segs", 0, 3, typ=(0, 1, 2))
            S.assume(a >= p)
            opts.append(S.fmt("timeoffset_%d", ast - p * D))
    if stop:
        n = S.int("segs", 1, v.nr, typ=(1, 2, 3, 4))
        opts.append(S.fmt("stop_%d", ast + n * D))
    if "snr" in kinds:
        opts.append(S.fmt("snr_%d", S.int("snr", -1, 2 ** 31, typ=(-1, 0, 1, 7))))
    # the media time of now is l loops and x seconds; the window is shorter than a loop
    loop = D * v.nr
    l = S.int("loops", 0, 2 ** 20, typ=(0, 1, 2, 5)) if not stop else 0
    x = S.int("secs", 0, loop - 1)
    now = ast - p * D + l * loop + x
    S.assume(now >= ast)
    if not stop:
        tsbd = S.int("tsbd", 0, loop)
        opts.append(S.fmt("tsbd_%d", tsbd))
    c.vod_mpd_d(S, v)
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    ct = S.choice("media", ["video", "audio"])
    tt = tb.tracks[ct]
    got = segtl.listed(S, root, ct)
    S.check("there is one timeline per adaptation set", got is not None)
    t, runs = got
    segs, pos = [], None
    for st, d, r in runs:
        pos = pos if st is None else st
        for q in range((0 if r is None else r) + 1):
            segs.append((pos, d))
            pos = pos + d
    if not segs:
        return
    i = pick
    T, d = segs[0 if i == "first" else -1]
    sn = t.get("startNumber")
    later = now + S.real("after", 0, 1, typ=(0, 0.5, 1))
    S.assume(S.Or(i == "last", later < now + 1))
    base = root.find(c.NS + "BaseURL").text
    # the stored file: the entry of the table that this media time falls on
    k = 0
    rid = {"video": "V1", "audio": "A1"}[ct]
    for rep, t0, dd in tt.entries:
        for q in range(rep + 1):
            S.file(S.fmt("vod/c/" + rid + "/%d.m4s", v.first + k), c.small_segment(S, t0 + q * dd))
            k += 1
    name = t.get("media").replace("$RepresentationID$", rid)
    if numbered:
        N = (1 if sn is None else S.parse_int(sn)) + (0 if i == "first" else len(segs) - 1)
        S.assume(N <= c.MAXN)
        name = name.replace("$Number$", S.fmt("%d", N))
    else:
        name = name.replace("$Time$", S.fmt("%d", T))
    head = "http://%s/%s/" % (c.HOST, c.PREFIX)
    S.check("the media URL is on this server", (base + name).startswith(head))
    out = c.fetch_media(S, (base + name)[len(head):].split("/"), later)
    S.check("a listed segment is served", c.served(S, out))
    f = c.media_facts(S, out.value)
    S.check("its media time is the listed one", f is not None and f[1] == T)
    if numbered:
        S.check("it has the listed number", f[0] == N)


KINDS = [(), ("start",), ("start", "pto"), ("start", "timeoffset", "pto"), ("tsbd", "snr"), ("start", "tsbd", "snr"), ("ato", "snr"), ("start", "ato"), ("atoinf", "snr"),
         ("start", "timeoffset", "snr0"), ("start", "stop", "snr"), ("start", "stop", "timeoffset"), ("start", "dur", "snr"), ("start", "dur", "tsbd", "ato"),
         ("start", "timeoffset", "peroff")]
TVAR = [(nr, sh, k, p) for nr in (True, False) for sh in ("one", "jitter") for k in ((), ("start", "offset", "snr"), ("start", "stop"))
        for p in ("first", "last")]
QUICK = [(True, "one", (), "first"), (True, "one", ("start", "offset", "snr"), "last"), (False, "one", (), "last"),
         (True, "jitter", ("start", "stop"), "last"), (False, "one", ("start", "offset", "snr"), "first")]
HARNESSES = [
    Harness("number", number, variants=KINDS, n_random=120, budget=150, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO),
    Harness("offset", offset, variants=["plain", "start", "stored"], n_random=150, budget=120, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO),
    Harness("restart", number, variants=[("tfdt", "snr"), ("tfdt", "tsbd", "ato")], n_random=120, budget=100, functions=FUNCS,
            contracts=ISO, contracts_used=USES_ISO, bounded="segment durations 1, 2, 7 and 10 s; others in random runs only"),
    Harness("late", number, variants=[("late", "snr"), ("late", "start", "timeoffset")], n_random=60, budget=100, functions=FUNCS,
            contracts=ISO, contracts_used=USES_ISO, bounded="segments of 2 and 6 s, loops of 4 and 7; others in random runs only"),
    Harness("timeline", timeline, variants=TVAR, n_random=120, budget=150, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO,
            cuts=segtl.CUTS, slow=[v for v in TVAR if v not in QUICK],
            bounded="contents of 1 to 4 segments with arbitrary durations up to 1/7 off the nominal one; windows within a loop"),
    Harness("init", init, variants=KINDS, n_random=30, budget=60, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO),
]
