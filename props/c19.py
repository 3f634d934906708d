"""C19: requests are independent of each other.

Deductive part: every request has an empty frame - it changes nothing that outlives it (the state reachable from the
server's modules, the process-wide state of the standard library it can reach, files).  A reply is then a function of
the request, the clock and the stored files, for every history and every interleaving.

On CPython the same harness plays the consequence: a request is answered by a fresh server, and again by one that has
served others before and in between; the replies are the same bytes."""
import struct
import sys

from pyvc.harness import Harness
from props import common as c
from props import web
from props.contracts import ISO, USES_ISO

FUNCS = ["mod_wsgi/mod_dashlivesim.py:application,start_reply,full_reply,handle_byte_range", "dashlib/dash_proxy.py:*",
         "dashlib/mpd_proxy.py:get_mpd", "dashlib/configprocessor.py:*", "dashlib/mediasegmentfilter.py:*",
         "dashlib/mpdprocessor.py:*", "dashlib/segtimeline.py:*", "dashlib/sessionid.py:*"]
BIG = (0, 2 ** 31)
T = 1500000000
# (kind, options with %d for numbers, their ranges, typical values)
KINDS = [
    ("mpd", "", (), ()), ("mpd", "start_%d/dur_%d/", (BIG, (1, 10 ** 6)), ((T, T + 100), (60, 600))),
    ("mpd", "startrel_%d/stoprel_%d/", ((-1000, -1), (1, 1000)), ((-60, -20), (20, 60))),
    ("mpd", "scte35_2/tsbd_30/", (), ()), ("mpd", "utc_direct-head/ato_inf/", (), ()),
    ("mpd", "segtimeline_1/tsbd_2/", (), ()), ("mpd", "segtimelinenr_1/tsbd_2/", (), ()),
    ("mpd", "segtimeline_1/segtimelineloss_1/baseurl_u10_d20/tsbd_2/", (), ()),
    ("mpd", "periods_60/tsbd_30/continuous_1/", (), ()), ("mpd", "baseurl_u10_d20/baseurl_d10_u20/", (), ()),
    ("mpd", "periods_60/xlink_30/tsbd_30/", (), ()), ("mpd", "periods_60/xlink_30/insertad_1/tsbd_30/", (), ()),
    ("mpd", "mup_%d/peroff_1/", (BIG,), ((1, 30),)), ("mpd", "chunkdur_1/ato_1/", (), ()), ("mpd", "sts_%d/", (BIG,), ((T,),)),
    ("mpd", "all_1/snr_%d/", (BIG,), ((0, 7),)),
    ("m4s", "", (), ()), ("m4s", "snr_%d/", (BIG,), ((0, 7),)), ("m4s", "scte35_2/", (), ()), ("m4s", "sidx_1/", (), ()),
    ("m4s", "start_%d/stop_%d/", (BIG, BIG), ((T - 100, T - 50), (T + 10, T + 100))), ("m4s", "baseurl_u10_d20/", (), ()),
    ("m4s", "chunkdur_1/", (), ()), ("m4s", "segtimeline_1/", (), ()),
    ("init", "", (), ()), ("init", "init_%d/", (BIG,), ((10,),)), ("range", "", (), ()), ("bad", "", (), ()),
    ("period", "periods_60/xlink_30/", (), ()), ("limit", "", (), ()), ("limit", "sts_%d/", (BIG,), ((T, T - 5, T - 1000),)),
]
REPS = {"c": (("V1", "V2"), ("A1",)), "d": (("V1",), ("A1",))}


def timing(name, first, D, nr, ts):
    "Timing files of segments of slightly different durations: path -> entries (number, repeats, time, duration)."
    out = {}
    for m, t in ts.items():
        jit = [0] if nr == 1 else [t // 8] + [0] * (nr - 2) + [-(t // 8)]
        pos, rows = 0, []
        for i, j in enumerate(jit):
            rows.append((first + i, 0, pos, D * t + j))
            pos += D * t + j
        out["cfg/%s_%s.dat" % (name, m)] = b"".join(struct.pack("<HHII", *r) for r in rows)
    return out


def stores(S, timed):
    "Two contents of different shape; the second is only there when requests are played."
    ts = {"video": 90000, "audio": 48000}
    if timed or not S.symbolic:
        nr, first = S.choice("shape", timed or [(1, 0), (1, 1), (3, 0), (3, 1)])
        v = c.vod(S, D=2, nr=nr, first=first, tsbd=20, ts=ts, version="1.1", total={m: 2 * nr * t for m, t in ts.items()})
        for path, data in timing("c", first, 2, nr, ts).items():
            S.file(path, data)
    else:
        v = c.vod(S, D=2, nr=S.int("nr", 1, 2 ** 20, typ=(1, 3)), first=S.int("first", 0, 2 ** 20, typ=(0, 1)), tsbd=20, ts=ts)
    c.vod_mpd(S, dur="2")
    for rep in ("V1", "A1"):
        S.file("vod/c/%s/init.mp4" % rep, c.box(S, b"free", S.blob("init" + rep, lo=4)))
    if S.symbolic:
        return v
    for rep in ("V1", "A1"):
        for i in range(min(v.nr, 5)):
            S.file("vod/c/%s/%d.m4s" % (rep, v.first + i), c.small_segment(S, 180000 * i, payload=b"c%s%d" % (rep.encode(), i)))
    S.file("cfg/d.cfg", "[General]\nversion = 1.1\n\n[Setup]\ndefault_tsbd_secs = 30\nsegment_duration_s = 4\n"
           "nr_segments_in_loop = 2\nfirst_segment_in_loop = 3\n\n[video]\nrepresentations = V1\ntimescale = 1000\n"
           "total_duration = 8000\ndat_file = d_video.dat\n\n[audio]\nrepresentations = A1\ntimescale = 44100\n"
           "total_duration = 352800\ndat_file = d_audio.dat\n")
    for path, data in timing("d", 3, 4, 2, {"video": 1000, "audio": 44100}).items():
        S.file(path, data)
    c.vod_mpd(S, content="d", dur="4", attrs=' id="other"')
    for rep, ts in (("V1", 1000), ("A1", 44100)):
        S.file("vod/d/%s/init.mp4" % rep, c.box(S, b"skip", b"d" + rep.encode()))
        for i in range(2):
            S.file("vod/d/%s/%d.m4s" % (rep, 3 + i), c.small_segment(S, 4 * ts * i, payload=b"d%s%d" % (rep.encode(), i)))
    return v


def inputs(S, tag, kind, content):
    "The request as (uri, clock, range header, is limited)."
    name, opt, ranges, typ = kind
    args = [S.int("%s%d" % (tag, i), lo, hi, typ=ty) for i, ((lo, hi), ty) in enumerate(zip(ranges, typ))]
    opt = S.fmt(opt, *args) if args else opt
    now = S.int(tag + "now", 0, 2 ** 32, typ=(T, T, T + 1, T + 30, 0))
    rep = S.choice(tag + "rep", ["V1", "A1"])
    if name == "mpd" or name == "limit":
        tail = "/Manifest.mpd"
    elif name == "init":
        tail = "/%s/init.mp4" % rep
    elif name == "range":
        tail = "/A1/init.mp4"
    elif name == "bad":
        tail = "/%s/x.m4s" % rep
    elif name == "period":
        tail = S.fmt("/p%d.period", S.int(tag + "p", 0, 2 ** 31, near=(now // 60, now // 60 - 1)))
    else:
        D = 2 if content == "c" else 4
        n = S.int(tag + "n", 0, 2 ** 31, near=(now // D - 2, now // D - 1, 0))
        tail = S.fmt("/%s/%d.m4s", rep, n) if "segtimeline" not in opt else \
            S.fmt("/%s/t%d.m4s", rep, n * {"V1": {"c": 180000, "d": 4000}, "A1": {"c": 96000, "d": 176400}}[rep][content])
    uri = "/" + c.PREFIX + "/" + opt + content + tail
    rng = S.choice(tag + "range", ["bytes=1-3", "bytes=-2", "bytes=2-"]) if name == "range" else None
    return uri, now, rng, S.choice(tag + "host", ["sim.example.org", "localhost:8059"])


class Rand(object):
    def randint(self, a, b):
        return 4711


def begin(S, req, r):
    uri, now, rng, host = req
    m = S.mod(web.W)
    S.clock.t = now
    env = {"HTTP_HOST": host, "REQUEST_URI": uri, "VOD_CONF_DIR": S.root + "/cfg", "CONTENT_ROOT": S.root + "/vod",
           "wsgi.url_scheme": "http"}
    if rng is not None:
        env["HTTP_RANGE"] = rng
    return m.application(env, r)


def server(S, limited):
    S.mod(web.W).MAX_SESSION_LENGTH = 60 if limited else 0
    S.mod("dashlib.sessionid").random = Rand()


def answer(S, req):
    r = web.Reply()
    out = S.call(lambda: list(begin(S, req, r)))
    return (out.ok, r.status, sorted(r.headers or []), b"".join(out.value) if out.ok else None)


def independent(S):
    kind = S.variant
    v = stores(S, [(3, 1)] if "loss" in kind[1] else [(1, 0), (3, 1)] if "segtimeline" in kind[1] else None)
    if not S.symbolic:
        return play(S, kind)
    # a stored segment under the name that the requested number maps to, when the session starts at the epoch
    req = inputs(S, "b", kind, "c")
    if kind[0] == "m4s":
        S.file(S.fmt("vod/c/V1/%d.m4s", v.first), c.small_segment(S, S.int("stored_t", 0, 2 ** 60)))
    server(S, kind[0] == "limit")
    old = S.shared()
    r = web.Reply()
    S.call(lambda: list(begin(S, req, r)))
    S.cover("answered " + kind[0] if r.status in ("200 OK", "206 Partial Content", "302 Found") else "refused")
    where = S.shared(old)
    S.check("nothing that outlives the request is changed" + (" (%s)" % where if where else ""), where is None)


def preempted(S, req, other, where, watch=None):
    """The answer to `req` when the whole of `other` is served between two of its lines (number `where`; None: nothing
    is served in between), the answer to `other`, the number of lines, and those after which shared state differs."""
    n = [0]
    left = [where]
    res = [None]
    writes = []

    def line(frame, event, arg):
        if event == "line":
            n[0] += 1
            if watch is not None and watch.changed():
                writes.append(n[0])
            if n[0] == left[0]:
                left[0] = None
                t = S.clock.t
                sys.settrace(None)
                res[0] = answer(S, other)
                sys.settrace(call)
                S.clock.t = t
        return line

    def call(frame, event, arg):
        return line if "/dashlivesim/" in frame.f_code.co_filename else None
    old = sys.gettrace()
    sys.settrace(call)
    try:
        a = answer(S, req)
    finally:
        sys.settrace(old)
    return a, res[0], n[0], writes


def play(S, kind):
    "Replies of a fresh server against those of a server with a history."
    limited = kind[0] == "limit" or S.choice("limited", [False] * 5 + [True])
    others = [kind] + [S.choice("kind%d" % i, KINDS) for i in range(3)]
    reqs = [inputs(S, "b" if i == 0 else "o%d_" % i, k, S.choice("content%d" % i, ["c", "d"])) for i, k in enumerate(others)]
    want = []
    for q in reqs:
        S.fresh()
        server(S, limited)
        want.append(answer(S, q))
    S.fresh()
    server(S, limited)
    order = S.choice("order", [(0, 1, 2, 3, 0, 1), (1, 0, 2, 0, 3, 0), (2, 0, 0, 1, 3, 2), (3, 1, 0, 2, 1, 0)])
    for i in order:
        S.check("the same reply whatever was served before", answer(S, reqs[i]) == want[i])
    # a reply that is being delivered while others are answered
    r = web.Reply()
    with S.quiet():
        g = begin(S, reqs[0], r)
        first = next(g, b"")
    for i in order[1:3]:
        S.check("the same reply while another is delivered", answer(S, reqs[i]) == want[i])
    with S.quiet():
        rest = b"".join(g)
    S.check("and that reply is the same, too", (r.status, sorted(r.headers or []), first + rest) == want[0][1:])
    # threads: another request between two lines of this one, wherever this one has just written to shared state, and
    # at some other line
    i, j = order[:2]
    got, _, n, writes = preempted(S, reqs[i], None, None, S.watch())
    S.check("the same reply whatever was served before", got == want[i])
    pick = S.choice("at", [None] + list(range(1, 41)))
    at = [n + 1 - pick if pick is not None else S.int("line", 1, 10000) % n + 1]
    some = S.int("some", 0, 10000)
    at += writes[:3] + [writes[(some * q) % len(writes)] for q in (1, 7)] + writes[-2:] if writes else []
    for w in at:
        for o in (i, j) if writes else (j,):
            got, second, _, _ = preempted(S, reqs[i], reqs[o], w)
            S.check("the same reply with another request at the same time", got == want[i])
            S.check("the same reply while another request is being handled", second in (None, want[o]))


HARNESSES = [
    Harness("independent", independent, variants=KINDS, n_random=16, budget=60, functions=FUNCS, contracts=ISO,
            contracts_used=USES_ISO),
]
