"""C18: simulated loss of a server, and several base URLs."""
from pyvc.harness import Harness
from props import common as c
from props import segtl
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/dash_proxy.py:get_media", "dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd",
         "dashlib/mpdprocessor.py:MpdProcessor.process_mpd_children,insert_baseurl",
         "dashlib/configprocessor.py:ConfigProcessor.process_url"]
PAIRS = [(10, 20), (20, 10), (30, 30), (7, 5), (40, 30), (100, 20)]
ALL = "the phase lengths %s; others in random runs only" % ", ".join("%d/%d" % p for p in PAIRS)


def times(S):
    "(lengths of the two phases, an instant, the second in its minute)"
    xy = S.choice("lengths", PAIRS + ([] if S.symbolic else [None]))
    x, y = xy or (S.int("x", 1, 70), S.int("y", 1, 70))
    m = S.int("second", 0, 59, near=(x % 60, (x + y) % 60))
    now = 60 * S.int("minute", 0, 2 ** 26, typ=(0, 1, 25000000)) + m
    return x, y, now, m


def phase(S, x, y, m):
    "(in the first phase, in the second), each without the instants of change and of the full minute"
    n = -(-60 // (x + y))
    one = S.Or(*[S.And(i * (x + y) < m, m < i * (x + y) + x) for i in range(n)])
    two = S.Or(*[S.And(i * (x + y) + x < m, m < (i + 1) * (x + y)) for i in range(n)])
    return one, two


def setup(S, now, fragments=1, start=None):
    "A segment that is available at the time."
    D = 2
    v = c.vod(S, D=D)
    k = S.int("age", 0, 30)
    t = S.int("tsbd", 60, 100)
    N = now // D - 1 - k // D
    S.assume(S.And(N >= 0, N < 2 ** 32))
    if start is not None:                      # numbers count from the start of the session
        S.assume(N >= start)
        N = N - start
    r = N % v.nr
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + r), S.cat(*[
        c.small_segment(S, r * D * v.ts["video"] + i, payload=b"abc" + bytes([i]), styp=i == 0) for i in range(fragments)]))
    S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
    return v, N, S.fmt("tsbd_%d", t)


def loss(S):
    "While a server is down its segments are refused; otherwise they are those of a server without loss."
    order, fragments, opts = S.variant
    x, y, now, m = times(S)
    start = S.int("start_segs", 0, 2 ** 31, near=(0, now // 2 - 3)) if "start" in opts else None
    v, N, tsbd = setup(S, now, fragments, start)
    opts = [S.fmt("start_%d", start * v.D) if o == "start" else o for o in opts]
    frac = S.real("fraction", 0, 1) if S.flag("has_fraction") else 0
    S.assume(frac < 1)
    o = opts + [tsbd, S.fmt("baseurl_%s%d_%s%d" % (order[0], x, order[1], y))]
    if S.flag("options_reversed"):
        o = o[::-1]
    tail = ["c", "V1", S.fmt("%d.m4s", N)]
    out = c.fetch_media(S, o + tail, now + frac)
    plain = c.fetch_media(S, opts + [tsbd] + tail, now + frac)
    S.check("without loss the segment is served", c.served(S, plain))
    one, two = phase(S, x, y, m)
    up, down = (one, two) if order == "ud" else (two, one)
    S.check("the request ends with a response", out.ok)
    S.check("a server that is down refuses segments", S.Implies(down, c.refused(out)))
    S.check("a server that is up serves them", S.Implies(up, c.served(S, out)))
    if c.served(S, out):
        bs = c.walk(S, out.value)
        S.check("the segment is well formed", bs is not None)
        ev = [w for t, w, b in bs if t == b"emsg"]
        S.check("the segment is that of a server without loss",
                S.eq(plain.value, S.cat(*[w for t, w, b in bs if t != b"emsg"])))
        S.check("an event is sent only at the start of a loss", S.Implies(len(ev) > 0, S.And(S.Not(up), S.Not(down))))
        types = [t for t, w, b in bs]
        S.check("before the media", b"emsg" not in types or types.index(b"emsg") < types.index(b"moof"))
        if "sidx_1" in opts:
            S.check("an index covers what follows it", S.unum(bs[types.index(b"sidx")][2][32:36]) ==
                    S.len(S.cat(*[w for t, w, b in bs[types.index(b"sidx") + 1:]])))


def pair(S):
    "Of two servers with opposite schedules one is always up, and exactly one but at the full minute."
    x, y, now, m = times(S)
    v, N, tsbd = setup(S, now)
    tail = [tsbd, "c", "V1", S.fmt("%d.m4s", N)]
    a = c.fetch_media(S, ["baseurl_u%d_d%d" % (x, y)] + tail, now)
    b = c.fetch_media(S, ["baseurl_d%d_u%d" % (x, y)] + tail, now)
    S.check("both requests end with a response", a.ok and b.ok)
    S.check("one of them serves the segment", c.served(S, a) or c.served(S, b))
    S.check("and one is down", S.Implies(m > 0, c.refused(a) or c.refused(b)))


def other(S):
    "Initialization segments and MPDs are served throughout, also while media is not."
    order = S.variant
    x, y, now, m = times(S)
    v, N, tsbd = setup(S, now)
    c.vod_mpd_d(S, v)
    o = ["baseurl_%s%d_%s%d" % (order[0], x, order[1], y), tsbd]
    S.check("the initialization segment is served", c.served(S, c.fetch_init(S, o + ["c", "V1", "init.mp4"], now)))
    r = c.mpd_root(S, c.fetch_mpd(S, o + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", r is not None)
    us = r.findall(c.NS + "BaseURL")
    S.check("it refers to the server with loss",
            len(us) == 1 and parts(us[0]) is not None and "baseurl_%s%d_%s%d" % (order[0], x, order[1], y) in parts(us[0]))


def parts(u):
    head = "http://%s/%s/" % (c.HOST, c.PREFIX)
    return u.text[len(head):].split("/") if u.text.startswith(head) else None


def several(S):
    "With several servers the MPD lists one base URL for each, which leads to that server and to nothing else."
    n = S.variant
    x, y, now, m = times(S)
    v, N, tsbd = setup(S, now)
    c.vod_mpd_d(S, v, head=S.choice("stored", ["", "<BaseURL>http://a.b/</BaseURL><BaseURL>c/</BaseURL>"] if n == 3 else [""]))
    names = ["%s%d_%s%d" % (a, x + i, b, y) for i, (a, b) in enumerate([("u", "d"), ("d", "u"), ("u", "d"), ("d", "u")][:n])]
    if n == 3:
        names[2] = names[0]                    # the same twice
    o = ["baseurl_" + b for b in names]
    where = S.choice("where", ["before", "after", "between"])
    extra = [tsbd] + ([S.fmt("spd_%d", S.int("spd", 0, 100))] if S.flag("has_spd") else [])
    o = extra + o if where == "before" else o + extra if where == "after" else o[:1] + extra + o[1:]
    r = c.mpd_root(S, c.fetch_mpd(S, o + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", r is not None)
    us = r.findall(c.NS + "BaseURL")
    S.check("there is one base URL per server", len(us) == n)
    for u, name in zip(us, names):
        p = parts(u)
        S.check("it is on this server", p is not None)
        opts = [q for q in p if q]
        S.check("it leads to that server only", [q for q in opts if q.startswith("baseurl")] == ["baseurl_" + name])
        S.check("all else is as requested", [q for q in opts if not q.startswith("baseurl")] == extra + ["c"])
    k = S.int("server", 0, n - 1)
    for i in range(n):
        if i == k:
            p = [q for q in parts(us[i]) if q != ""] + ["V1", S.fmt("%d.m4s", N)]
            got = c.fetch_media(S, p, now)
            S.check("requests through it are answered", got.ok)
            one, two = phase(S, int(names[i].split("_")[0][1:]), y, m)
            up = one if i % 2 == 0 else two
            down = two if i % 2 == 0 else one
            S.check("as that server does", S.And(S.Implies(up, c.served(S, got)), S.Implies(down, c.refused(got))))


DASH, SCTE = "urn:mpeg:dash:event:2012", "urn:scte:scte35:2013:xml"


def announced(S):
    "The event stream of a loss is announced by the MPD of the same instant, with that of ad breaks if there are such; each once."
    breaks, opts = S.variant
    x, y, now, m = times(S)
    v, N, tsbd = setup(S, now)
    c.vod_mpd_d(S, v)
    o = ["baseurl_u%d_d%d" % (x, y), "segtimelineloss_1", tsbd] + breaks + opts
    if S.flag("options_reversed"):
        o = o[::-1]
    out = c.fetch_media(S, o + ["c", "V1", S.fmt("%d.m4s", N)], now)
    one, two = phase(S, x, y, m)
    S.check("a server that is up serves segments, one that is down does not", S.And(S.Implies(one, c.served(S, out)), S.Implies(two, c.refused(out))))
    if not c.served(S, out):
        return
    ev = [b for t, w, b in c.walk(S, out.value) if t == b"emsg"]
    head = b"\0\0\0\0" + DASH.encode() + b"\0001\0"
    loss = [b for b in ev if S.len(b) > len(head) and S.eq(b[4:len(head)], head[4:])]
    S.check("all other events are breaks", len(ev) - len(loss) <= (1 if breaks else 0) and len(loss) <= 1)
    root = c.mpd_root(S, c.fetch_mpd(S, o + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    for p in root.findall(c.NS + "Period"):
        for a in p.findall(c.NS + "AdaptationSet"):
            ies = [(e.get("schemeIdUri"), e.get("value")) for e in a.findall(c.NS + "InbandEventStream")]
            S.check("the event stream of a loss is announced when there is one", ies.count((DASH, "1")) == len(loss))
            S.check("the event stream of breaks is announced with the video",
                    len([e for e in ies if e[0] == SCTE]) == (1 if breaks and a.get("contentType") == "video" else 0))
            S.check("and no other", len(ies) == len(set(ies)) <= 2)


def frozen(S):
    "With segtimelineloss the timeline does not grow while the server is down, and is the usual one while it is up."
    numbered, order, (x, y) = S.variant
    tb = segtl.table(S, "one")
    v = tb.vod
    c.vod_mpd_d(S, v)
    m = S.int("second", 0, 59, near=(x % 60, (x + y) % 60))
    q = 60 * S.int("minute", 2, 2 ** 24, typ=(2, 3, 25000000))
    o = ["segtimelinenr_1" if numbered else "segtimeline_1", "tsbd_%d" % S.choice("tsbd", [v.D + 1] if S.symbolic else [v.D + 1, 0, 2 * v.D])]
    loss = ["baseurl_%s%d_%s%d" % (order[0], x, order[1], y), "segtimelineloss_1"]
    lists = lambda opts, at: timeline(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], at))
    got = lists(loss + o, q + m)
    n = -(-60 // (x + y))
    up = m
    first, back = (x, x + y) if order == "ud" else (0, x)
    for i in range(n):
        if S.And(i * (x + y) + first < m, m < i * (x + y) + back):
            up = i * (x + y) + first
        if m == i * (x + y) + back:            # the instant when the server is back
            if S.timestamp(got[2]) != q + m:
                up = i * (x + y) + first
    want = lists(o, q + up)
    S.check("the timeline is that of the last second that the server was up", S.eq(got[0], want[0]))
    S.check("with the same numbers", S.eq(got[1], want[1]))
    S.check("the publishing time is that of the timeline", S.timestamp(got[2]) == q + up)


def timeline(S, out):
    r = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", r is not None)
    t = r.find(c.NS + "Period").find(c.NS + "AdaptationSet").find(c.NS + "SegmentTemplate")
    return ",".join("%s/%s/%s" % (s.get("t"), s.get("d"), s.get("r")) for s in t.find(c.NS + "SegmentTimeline")), \
        str(t.get("startNumber")), r.get("publishTime")


FV = [(b, o, p) for b in (True, False) for o in ("ud", "du") for p in ((10, 20), (30, 30), (20, 25))]
FQ = [(True, "ud", (10, 20)), (False, "ud", (10, 20)), (False, "du", (20, 10)), (True, "du", (20, 10))]
FV += FQ[2:]
HARNESSES = [
    Harness("loss", loss, variants=[("ud", 1, []), ("du", 2, ["start"]), ("ud", 2, ["sidx_1"]), ("ud", 1, ["start"])], n_random=150, budget=150, functions=FUNCS, bounded=ALL, contracts=ISO, contracts_used=USES_ISO),
    Harness("announced", announced, variants=[([], []), (["scte35_2"], []), (["scte35_1"], ["ato_1", "mup_5"])], n_random=100, budget=100, functions=FUNCS, bounded=ALL, contracts=ISO,
            contracts_used=USES_ISO),
    Harness("pair", pair, n_random=150, budget=150, functions=FUNCS, bounded=ALL, contracts=ISO, contracts_used=USES_ISO),
    Harness("other", other, variants=["ud", "du"], n_random=60, budget=100, functions=FUNCS, bounded=ALL, contracts=ISO, contracts_used=USES_ISO),
    Harness("several", several, variants=[2, 3, 4], n_random=60, budget=150, functions=FUNCS, bounded=ALL, contracts=ISO, contracts_used=USES_ISO,
            slow=[4]),
    Harness("frozen", frozen, variants=FV, n_random=100, budget=150, contracts=ISO, contracts_used=USES_ISO, cuts=segtl.CUTS,
            functions=FUNCS + ["dashlib/segtimeline.py:SegmentTimeLineGenerator.*"], slow=[v for v in FV if v not in FQ],
            bounded="contents of 1 or 3 segments; a time-shift buffer of a segment and a second; the phase lengths 10/20, 20/10, 30/30, 20/25"),
]
