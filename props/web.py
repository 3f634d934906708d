"""Driving the real WSGI application."""
from props import common as c

W = "mod_wsgi.mod_dashlivesim"


class Reply(object):
    def __init__(self):
        self.status = None
        self.headers = None
        self.calls = 0

    def __call__(self, status, headers):
        self.calls += 1
        self.status, self.headers = status, headers

    def get(self, name):
        v = [x for (k, x) in self.headers if k == name]
        return v[0] if len(v) == 1 else None


def request(S, uri, now, rng=None, scheme="http", query=None, host=c.HOST):
    """One request to the application; returns (Outcome, Reply, body chunks).
    The clock is at `now` when the request arrives."""
    m = S.mod(W)
    S.clock.t = now
    env = {"HTTP_HOST": host, "REQUEST_URI": uri, "VOD_CONF_DIR": S.root + "/cfg", "CONTENT_ROOT": S.root + "/vod",
           "wsgi.url_scheme": scheme}
    if rng is not None:
        env["HTTP_RANGE"] = rng
    if query is not None:
        env["QUERY_STRING"] = query
    r = Reply()
    out = S.call(lambda: list(m.application(env, r)))
    return out, r


def body(S, out):
    return S.cat(*out.value) if out.value else b""
