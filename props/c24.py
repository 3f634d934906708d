"""C24: limited session length: redirect to a session URL, and an end to it."""
from pyvc.harness import Harness
from props import common as c
from props import web
from props.contracts import ISO, USES_ISO

FUNCS = ["mod_wsgi/mod_dashlivesim.py:application,start_reply", "dashlib/sessionid.py:generate_session_id",
         "dashlib/configprocessor.py:ConfigProcessor.process_url"]


class Rand(object):
    def __init__(self, v):
        self.v = v

    def randint(self, a, b):
        return self.v


def limit(S):
    "The server limits sessions to L seconds."
    L = S.int("limit", 1, None, typ=(1, 60, 3600))
    S.patch(S.mod(web.W), "MAX_SESSION_LENGTH", L)
    sid = S.choice("sid", [0, 1, 0xabcdef, 2 ** 32 - 1])
    S.patch(S.mod("dashlib.sessionid"), "random", Rand(sid))
    return L, "%08x" % sid


URLS = ["c/Manifest.mpd", "snr_7/tsbd_30/c/Manifest.mpd", "c/V1/%d.m4s", "snr_7/c/V1/%d.m4s", "c/V1/init.mp4"]


def redirect(S):
    "An MPD request without session: redirected to its own session. Anything else: not found."
    c.vod(S)
    L, sid = limit(S)
    c.vod_mpd(S)
    url = S.choice("url", URLS)
    https = S.flag("https")
    query = S.choice("query", [None, "a=1", "a=1&b=x%20y"])
    how = S.flag("query_in_uri")
    host = S.choice("host", ["sim.example.org", "localhost:8059"])
    now = S.real("now", 0, 2 ** 33, typ=(0, 1500000000.5))
    uri = "/%s/%s" % (c.PREFIX, S.fmt(url, S.int("N", 0, c.MAXN)) if "%d" in url else url)
    out, r = web.request(S, uri + ("?" + query if query and how else ""), now, scheme="https" if https else "http",
                         query=query if query and not how else None, host=host)
    S.check("one reply", out.ok and r.calls == 1)
    body = web.body(S, out)
    S.check("the length is that of the body", S.parse_int(r.get("Content-Length")) == S.len(body))
    if url.endswith(".mpd"):
        S.check("the player is redirected", r.status == "302 Found")
        sts = S.floor(now)
        want = S.fmt("%s://%s/%s/sts_%%d/sid_%s/%s" % ("https" if https else "http", host, c.PREFIX, sid, url), sts)
        S.check("to the same resource in a session that starts now, with the query kept",
                S.eq(r.get("Location"), want + ("?" + query if query else "")))
    else:
        S.check("media outside a session is not found", r.status == "404 Not Found" and r.get("Location") is None)


def session(S):
    "Requests inside a session: as without limit while it lasts, gone afterwards, not found before it starts."
    kind = S.variant
    v = c.vod(S)
    L, sid = limit(S)
    sts = S.int("sts", 0, 2 ** 33, typ=(0, 1000, 1500000000))
    now = S.real("now", 0, 2 ** 33, near=(sts, sts + L, sts - 5, sts + 1))
    pos = S.flag("sid_first")
    ses = S.fmt("sid_%s/sts_%%d" % sid, sts) if pos else S.fmt("sts_%%d/sid_%s" % sid, sts)
    if kind == "mpd":
        c.vod_mpd(S)
        name = "c/Manifest.mpd"
        avail = True
    elif kind == "init":
        S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
        name = "c/V1/init.mp4"
        avail = True
    else:
        N = S.int("N", 0, c.MAXN, near=(0,))
        S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), c.small_segment(S, 0))
        name = S.fmt("c/V1/%d.m4s", N)
        av = (N + 1) * v.D
        avail = S.And(now >= av, now <= av + v.D + v.tsbd)
    out, r = web.request(S, "/%s/" % c.PREFIX + ses + "/" + name, now)
    S.check("one reply", out.ok and r.calls == 1)
    gone = now > sts + L
    future = sts > now + 5
    S.check("a session is gone exactly when its length has passed", S.iff(r.status == "410 Gone", gone))
    S.check("a session in the future is not found", S.Implies(S.And(future, S.Not(gone)), r.status == "404 Not Found"))
    S.check("inside the session everything available is delivered",
            S.Implies(S.And(S.Not(gone), S.Not(future)), S.iff(r.status == "200 OK", avail)))
    S.check("and the rest is not found", S.Implies(S.And(S.Not(gone), S.Not(future), S.Not(avail)), r.status == "404 Not Found"))
    if r.status != "200 OK":
        S.check("no media in a refusal", r.get("Content-Type") == "text/plain")


def follow(S):
    "The MPD behind the redirect keeps the player inside its session."
    v = c.vod(S)
    L, sid = limit(S)
    c.vod_mpd_d(S, v)
    now = S.real("now", 0, 2 ** 33, typ=(1000, 1500000000.5))
    out, r = web.request(S, "/%s/snr_3/c/Manifest.mpd" % c.PREFIX, now)
    S.check("the player is redirected", out.ok and r.status == "302 Found")
    loc = r.get("Location")
    pre = "http://%s" % c.HOST
    S.check("on the same server", loc.startswith(pre))
    later = S.real("later", 0, None, near=(0, L, L + 1))
    out2, r2 = web.request(S, loc[len(pre):], now + later)
    sts = S.floor(now)
    S.check("the session lasts its length from its start", S.iff(now + later <= sts + L, r2.status == "200 OK"))
    if r2.status == "200 OK":
        root = c.mpd_of_body(S, web.body(S, out2))
        S.check("an MPD is delivered", root is not None)
        base = root.findall(c.NS + "BaseURL")
        S.check("its base URL leads into the session", len(base) == 1 and
                S.eq(base[0].text, S.fmt("http://%s/%s/sts_%%d/sid_%s/snr_3/c/" % (c.HOST, c.PREFIX, sid), sts)))


def free(S):
    "Without a limit nobody is redirected, and session parts in the URL have no effect."
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN, near=(0,))
    av = (N + 1) * v.D
    now = S.real("now", 0, 2 ** 33, near=(av, av + v.D + v.tsbd))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), c.small_segment(S, 0))
    ses = S.fmt("sts_%d/sid_0000abcd/", S.int("sts", 0, 2 ** 33)) if S.flag("session") else ""
    out, r = web.request(S, "/%s/" % c.PREFIX + ses + S.fmt("c/V1/%d.m4s", N), now)
    S.check("available exactly in its window", S.iff(r.status == "200 OK", S.And(now >= av, now <= av + v.D + v.tsbd)))
    S.check("else not found", S.iff(r.status == "404 Not Found", S.Not(S.And(now >= av, now <= av + v.D + v.tsbd))))


HARNESSES = [
    Harness("redirect", redirect, n_random=250, budget=100, functions=FUNCS),
    Harness("session", session, variants=("media", "mpd", "init"), contracts=ISO, contracts_used=USES_ISO, n_random=200,
            budget=100, functions=FUNCS),
    Harness("follow", follow, contracts=ISO, contracts_used=USES_ISO, n_random=150, budget=100, functions=FUNCS),
    Harness("free", free, n_random=150, budget=60, functions=FUNCS),
]
