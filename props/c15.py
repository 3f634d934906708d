"""C15: HTTP replies: status, length, media type, byte ranges."""
from pyvc.harness import Harness
from props import common as c
from props import web
from props.contracts import ISO, USES_ISO

FUNCS = ["mod_wsgi/mod_dashlivesim.py:application,start_reply,get_mime_type,handle_byte_range"]


def sane(S, out, r):
    "Every reply is one start_response followed by a body of the announced length."
    S.check("the request ends with a reply", out.ok)
    S.check("one status line and one set of headers", r.calls == 1 and r.headers is not None)
    S.check("no header is given twice", len({k for k, _ in r.headers}) == len(r.headers))
    b = web.body(S, out)
    S.check("Content-Length is the length of the body", S.parse_int(r.get("Content-Length")) == S.len(b))
    S.check("browsers may read the reply", r.get("Access-Control-Allow-Origin") == "*" and
            r.get("Access-Control-Expose-Headers") is not None)
    S.check("live replies are not cached", r.get("Cache-Control") == "no-cache" and r.get("Pragma") == "no-cache")
    return b


def init_file(S):
    b = S.blob("stored", lo=1)
    return c.box(S, b"free", b)


GOOD = ["bytes=%d-%d", "bytes=%d-", "bytes=-%d"]
BAD = ["bytes=-", "bytes=", "bytes=abc", "bytes=1-2,4-5", "bytes=0-0,-1", "bytes=--5", "bytes=5", "bytes=1-2-3", "bytes=a-5",
       "bytes=5-a", "garbage", "", "bytes=-5-", "bytes=0x1-0x2", "bytes=1.5-3"]


def ranges(S):
    "A single byte range of a stored file of any length."
    c.vod(S)
    data = init_file(S)
    S.file("vod/c/V1/init.mp4", data)
    n = S.len(data)
    kind = S.choice("kind", GOOD)
    a = S.int("first", 0, None, near=(0, n - 1, n, 5))
    b = S.int("last", 0, None, near=(a, n - 1, n, a + 5))
    if kind == GOOD[0]:
        rng = S.fmt(kind, a, b)
        lo, hi = a, S.min(b, n - 1)
        ok = S.And(a <= b, a < n)
    elif kind == GOOD[1]:
        rng = S.fmt(kind, a)
        lo, hi = a, n - 1
        ok = a < n
    else:
        rng = S.fmt(kind, a)
        lo, hi = S.max(n - a, 0), n - 1
        ok = a > 0
    out, r = web.request(S, "/%s/c/V1/init.mp4" % c.PREFIX, S.int("now", 0, None, typ=(1500000000,)), rng=rng)
    got = sane(S, out, r)
    S.check("the media type is that of the file", r.get("Content-Type") == "video/mp4")
    if ok:
        S.check("a satisfiable range is answered with partial content", r.status.startswith("206 "))
        S.check("Content-Range names the bytes", S.eq(r.get("Content-Range"), S.fmt("bytes %d-%d/%d", lo, hi, n)))
        S.check("exactly the requested bytes", S.eq(got, data[lo:hi + 1]))
    else:
        S.check("other ranges give the whole file", r.status.startswith("200 ") and r.get("Content-Range") is None)
        S.check("the whole file", S.eq(got, data))


def odd(S):
    "No range, or a malformed or multiple one: the whole file."
    c.vod(S)
    data = init_file(S)
    S.file("vod/c/V1/init.mp4", data)
    rng = S.choice("range", [None] + BAD)
    out, r = web.request(S, "/%s/c/V1/init.mp4" % c.PREFIX, S.int("now", 0, None, typ=(1500000000,)), rng=rng)
    got = sane(S, out, r)
    S.check("the whole file with status 200", r.status.startswith("200 ") and r.get("Content-Range") is None)
    S.check("all bytes", S.eq(got, data))


def media(S):
    "Media, thumbnails and initialization segments: status and type follow from availability."
    kind = S.variant
    v = c.vod(S, media=("video", "audio", "image"))
    start = S.int("start", 0, 2 ** 32, typ=(0, 6, 1000, 1500000000))
    ast = start // v.D * v.D
    N = S.int("N", 0, c.MAXN)
    avail = ast + (N + 1) * v.D
    now = S.real("now", 0, None, near=(avail, avail + v.D + v.tsbd, ast, ast + v.D))
    rng = "bytes=0-" if S.flag("range") else None
    if kind == "m4s":
        name, typ, rep = S.fmt("%d.m4s", N), "video/iso.segment", "V1"
        S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), c.small_segment(S, 0))
    elif kind == "jpg":
        name, typ, rep = S.fmt("%d.jpg", N), "image/jpeg", "T1"
        S.file(S.fmt("vod/c/T1/%d.jpg", v.first + N % v.nr), S.blob("picture", lo=1))
    else:
        name, typ, rep = "init.mp4", "video/mp4", "V1"
        S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
    out, r = web.request(S, S.fmt("/%s/start_%%d/c/%s/" % (c.PREFIX, rep), start) + name, now, rng=rng)
    got = sane(S, out, r)
    if kind == "init":
        ok = now >= ast
    else:
        ok = S.And(now >= avail, now <= avail + v.D + v.tsbd)
    if ok:
        S.check("available content is delivered", r.status.startswith("206 " if rng else "200 "))
        S.check("with its media type", r.get("Content-Type") == typ)
        S.check("with content", S.len(got) > 0)
    else:
        S.check("anything else is not found", r.status.startswith("404 "))
        S.check("errors are plain text, whole and with an explanation",
                r.get("Content-Type") == "text/plain" and r.get("Content-Range") is None and S.len(got) > 0)


BADURL = ["/%s/c/V1/99.mp3" % c.PREFIX, "/%s/nosuch/V1/1.m4s" % c.PREFIX, "/%s/c/X9/1.m4s" % c.PREFIX, "/%s/c/V1/a.m4s" % c.PREFIX,
          "/%s/c/V1/.m4s" % c.PREFIX, "/%s/tsbd_x/c/V1/1.m4s" % c.PREFIX, "/%s/tsbd/c/V1/1.m4s" % c.PREFIX, "/%s" % c.PREFIX, "/", "",
          "/%s/" % c.PREFIX, "/%s/c" % c.PREFIX, "/%s/c/other.mpd" % c.PREFIX, "/%s/snr_-2/c/V1/1.m4s" % c.PREFIX,
          "/%s/utc_unknown/c/Manifest.mpd" % c.PREFIX, "/%s/periods_7/c/Manifest.mpd" % c.PREFIX,
          "/%s/c/V1/1.m4s?x=1" % c.PREFIX, "/%s/c/V1/init.mp4" % c.PREFIX, "/%s/c/V1__A1/1.m4s" % c.PREFIX,
          "/%s/c/V1__A1__V2/init.mp4" % c.PREFIX, "/%s/start_5/modulo_10/c/V1/1.m4s" % c.PREFIX]


def errors(S):
    "Requests for things that do not exist, or with options that cannot be read, are answered with 404."
    c.vod(S)
    c.vod_mpd(S)
    url = S.choice("url", BADURL)
    out, r = web.request(S, url, S.real("now", 0, 2 ** 33, typ=(1500000000,)), rng="bytes=0-1" if S.flag("range") else None)
    got = sane(S, out, r)
    S.check("not found", r.status.startswith("404 ") and r.get("Content-Type") == "text/plain")
    S.check("with an explanation", S.len(got) > 0)


def manifest(S):
    "MPD requests."
    c.vod(S)
    c.vod_mpd(S)
    now = S.real("now", 0, 2 ** 33, typ=(0, 1500000000))
    scheme = S.choice("scheme", ["http", "https"])
    out, r = web.request(S, "/%s/c/Manifest.mpd" % c.PREFIX, now, scheme=scheme)
    got = sane(S, out, r)
    S.check("an MPD with its media type", r.status.startswith("200 ") and r.get("Content-Type") == "application/dash+xml")
    rng, n = S.choice("range", [("bytes=0-", None), ("bytes=0-9", 10), ("bytes=7-7", 0)])
    out, r = web.request(S, "/%s/c/Manifest.mpd" % c.PREFIX, now, rng=rng, scheme=scheme)
    part = sane(S, out, r)
    S.check("a part of an MPD is delivered as such", r.status.startswith("206 ") and r.get("Content-Type") == "application/dash+xml")
    S.check("and is what was asked for", S.eq(part, got if n is None else got[:10] if n else got[7:8]))


HARNESSES = [
    Harness("ranges", ranges, n_random=500, budget=100, functions=FUNCS),
    Harness("odd", odd, n_random=80, budget=60, functions=FUNCS),
    Harness("media", media, variants=("m4s", "jpg", "init"), n_random=200, budget=100, functions=FUNCS),
    Harness("errors", errors, n_random=120, budget=100, functions=FUNCS),
    Harness("manifest", manifest, n_random=30, budget=60, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO,
            assumes=["the length of text with symbolic numbers is that of its placeholder"]),
]
