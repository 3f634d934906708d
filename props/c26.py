"""C26: thumbnails obey the rules of media segments and are delivered unchanged."""
from pyvc.harness import Harness
from props import common as c
from props import c13, web
from props.sess import Window

FUNCS = ["dashlib/dash_proxy.py:process_thumbnail,get_media,error_response,createProvider,DashProvider.__init__",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,Config.*,VodConfig.*",
         "mod_wsgi/mod_dashlivesim.py:application,start_reply,get_mime_type"]
MEDIA = ("video", "image")


def window(S):
    kind, how, more = S.variant[:3]
    extra = list(S.variant[3:])
    v = c.vod(S, D=S.choice("D", [1, 2, 7, 10]), media=MEDIA) if kind == "tfdt" and S.symbolic else c.vod(S, media=MEDIA)
    w = Window(S, v, kind, more)
    N = S.int("N", 0, None, near=w.near_numbers())
    if how == "time":
        name = S.fmt("t%d.jpg", (N - w.k0) * v.D * v.ts["image"])
        S.assume(N >= w.k0)
    else:
        name = S.fmt("%d.jpg", N)
    if kind == "tfdt":
        now = w.ast + S.real("since_start", 0, None, near=[t - w.ast for t in w.near_times(N)])
    else:
        now = S.real("now", 0, None, near=w.near_times(N))
    S.assume(w.within(now))
    jpg = S.blob("jpg", lo=1)
    sub = ["a", "b"] if how == "time" and "ato" not in more else []
    S.file(S.fmt("/".join(["vod", "c"] + sub + ["T1", "%d.jpg"]), v.first + (N - w.k0) % v.nr), jpg)
    out = c.fetch_media(S, w.opts + extra + ["c"] + sub + ["T1", name], now)
    w.check(S, out, N, now)
    if c.served(S, out):
        S.check("the stored thumbnail of the segment's place in the loop is delivered unchanged", S.eq(out.value, jpg))


def paired(S):
    "At any moment the thumbnail of a number is delivered exactly when the video segment of the number is."
    v = c.vod(S, media=MEDIA)
    w = Window(S, v, S.variant, ("snr", "tsbd", "ato"))
    N = S.int("N", 0, c.MAXN, near=w.near_numbers())
    now = S.real("now", 0, None, near=w.near_times(N))
    nr = v.first + (N - w.k0) % v.nr
    S.file(S.fmt("vod/c/T1/%d.jpg", nr), b"x")
    S.file(S.fmt("vod/c/V1/%d.m4s", nr), c.small_segment(S, 0))
    o1 = c.fetch_media(S, w.opts + ["c", "T1", S.fmt("%d.jpg", N)], now)
    o2 = c.fetch_media(S, w.opts + ["c", "V1", S.fmt("%d.m4s", N)], now)
    S.check("thumbnail and video segment are available together", c.served(S, o1) == c.served(S, o2))
    S.check("or refused together", c.refused(o1) == c.refused(o2))


def modulo(S):
    "In a modulo session, too, a thumbnail of the session is the one of its number and is refused when the segment is."
    M = S.variant
    v = c.vod(S, D=S.choice("D", [1, 2, 6, 8]), media=MEDIA)
    opts, first = c13.option(S, M)
    now, ast, dur = c13.clock(S, M, True)
    k = S.int("k", -2, None, near=(0, dur // v.D - 1, dur // v.D, (now - ast) // v.D))
    N = first + k
    S.assume(S.And(N >= 0, N < 2 ** 31))
    nr = v.first + k % v.nr
    jpg = S.blob("jpg", lo=1)
    S.file(S.fmt("vod/c/T1/%d.jpg", nr), jpg)
    S.file(S.fmt("vod/c/V1/%d.m4s", nr), c.small_segment(S, 0))
    o1 = c.fetch_media(S, opts + ["c", "T1", S.fmt("%d.jpg", N)], now)
    o2 = c.fetch_media(S, opts + ["c", "V1", S.fmt("%d.m4s", N)], now)
    S.check("thumbnail and video segment are available together", c.served(S, o1) == c.served(S, o2))
    S.check("or refused together", c.refused(o1) == c.refused(o2))
    if c.served(S, o1):
        S.check("the stored thumbnail of the segment's place in the loop is delivered unchanged", S.eq(o1.value, jpg))


def http(S):
    "Through the server: the image with its media type, or 404."
    v = c.vod(S, media=MEDIA)
    N = S.int("N", 0, None, typ=(0, 1, 7))
    avail = (N + 1) * v.D
    now = S.real("now", 0, None, near=(avail, avail + v.D + v.tsbd))
    jpg = S.blob("jpg", lo=1)
    S.file(S.fmt("vod/c/T1/%d.jpg", v.first + N % v.nr), jpg)
    out, r = web.request(S, S.fmt("/%s/c/T1/%%d.jpg" % c.PREFIX, N), now)
    S.check("one reply", out.ok and r.calls == 1)
    inside = S.And(now >= avail, now <= avail + v.D + v.tsbd)
    S.check("200 inside the window, 404 outside",
            S.And(S.iff(r.status == "200 OK", inside), S.iff(r.status == "404 Not Found", S.Not(inside))))
    body = web.body(S, out)
    S.check("the length is that of the body", S.parse_int(r.get("Content-Length")) == S.len(body))
    if r.status == "200 OK":
        S.check("the media type is image/jpeg", r.get("Content-Type") == "image/jpeg")
        S.check("the body is the stored image", S.eq(body, jpg))
    else:
        S.check("errors are plain text", r.get("Content-Type") == "text/plain")


VARS = [("plain", "number", ("snr", "tsbd", "ato")), ("plain", "number", ("inf", "snr")), ("plain", "time", ("snr", "ato")), ("plain", "time", ("snr",)),
        ("dur", "number", ("snr", "tsbd", "ato")), ("stop", "number", ("snr", "tsbd", "ato")),
        ("offset", "number", ("snr", "tsbd", "ato"))]
VARS += [("plain", "number", ("snr", "ato")) + tuple(x) for x in c.UNRELATED]
HARNESSES = [
    Harness("window", window, variants=VARS, n_random=120, budget=150, functions=FUNCS),
    Harness("restart", window, variants=[("tfdt", "number", ("snr", "tsbd", "ato")), ("tfdt", "time", ("snr",))], n_random=120,
            budget=100, functions=FUNCS, bounded="segment durations 1, 2, 7 and 10 s; others in random runs only"),
    Harness("modulo", modulo, variants=(1, 10), slow=(10,), n_random=80, budget=150, functions=FUNCS),
    Harness("paired", paired, variants=("plain", "dur", "stop", "offset"), n_random=120, budget=150, functions=FUNCS),
    Harness("http", http, n_random=150, budget=100, functions=FUNCS),
]
