"""C02: a live number/time maps to one VoD segment, on a continuous timeline."""
from pyvc.harness import Harness
from props import common as c

FUNCS = ["dashlib/dash_proxy.py:createProvider,get_media,process_media_segment,filter_media_segment",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,VodConfig.read_config,Config.*",
         "dashlib/mediasegmentfilter.py:MediaSegmentFilter.*", "dashlib/mp4filter.py:MP4Filter.*"]


def session(S):
    "Options that move the session: start, snr, timeoffset. Returns (opts, AST, first number, media time at AST)."
    v = c.vod(S)
    opts = []
    start = 0
    if S.flag("has_start"):
        start = S.int("start", 0, 2 ** 32, typ=(1, 6, 7, 1000, 1500000000))
        opts.append(S.fmt("start_%d", start))
    ast = start // v.D * v.D
    snr = 0
    if S.flag("has_snr"):
        snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
        opts.append(S.fmt("snr_%d", snr))
    return v, opts, ast, S.ite(snr == -1, 1, snr)


def expect(S, v, out, N, k, mt, vod_t, ts, payload):
    "k: index of the segment since the first number; mt: media time of its start."
    S.check("an available segment is served", c.served(S, out))
    f = c.media_facts(S, out.value)
    S.check("the response is a single well-formed media segment", f is not None)
    seq, t, data = f
    S.check("the sequence number is the requested number", seq == N)
    loop = v.D * v.nr
    S.check("decode time = VoD time + completed loops", t == vod_t + (mt // loop) * loop * ts)
    S.check("the media payload is that of the mapped VoD segment", S.eq(data, payload))


def number(S):
    "Number addressing, any representation, any start/startNumber."
    v, opts, ast, first = session(S)
    rep, ctype = S.choice("rep", [("V1", "video"), ("V2", "video"), ("A1", "audio")])
    N = S.int("N", 0, c.MAXN)
    S.assume(N >= first)
    k = N - first
    vod_t = S.int("vod_t", 0, 2 ** 60)
    payload = S.blob("payload", lo=0)
    seq0 = S.int("vod_seq", 0, c.MAXN)
    S.assume(S.len(payload) < 2 ** 31)
    now = ast + (k + 1) * v.D
    S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + k % v.nr),
           c.small_segment(S, vod_t, seq=seq0, payload=payload, styp=S.flag("styp")))
    out = c.fetch_media(S, opts + ["c", rep, S.fmt("%d.m4s", N)], now)
    expect(S, v, out, N, k, k * v.D, vod_t, v.ts[ctype], payload)


def unrelated(S):
    "Options that concern the MPD only do not change what a number maps to, wherever they stand."
    v = c.vod(S)
    rep, ctype = S.choice("rep", [("V2", "video"), ("A1", "audio")])
    start = S.int("start", 0, 2 ** 32, typ=(1, 6, 7, 1000, 1500000000))
    snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
    first = S.ite(snr == -1, 1, snr)
    mine = [S.fmt("start_%d", start), S.fmt("snr_%d", snr)]
    opts = [S.variant + mine, mine + S.variant][S.choice("order", [0, 1])]
    N = S.int("N", 0, c.MAXN)
    S.assume(N >= first)
    k = N - first
    vod_t = S.int("vod_t", 0, 2 ** 60)
    payload = S.blob("payload", lo=0, hi=2 ** 30)
    S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + k % v.nr), c.small_segment(S, vod_t, payload=payload))
    out = c.fetch_media(S, opts + ["c", rep, S.fmt("%d.m4s", N)], start // v.D * v.D + (k + 1) * v.D)
    expect(S, v, out, N, k, k * v.D, vod_t, v.ts[ctype], payload)


def offset(S):
    "timeoffset option: numbers and media time are shifted so that media time 0 is at that epoch second."
    v = c.vod(S)
    D = v.D
    # start and timeoffset by quotient and remainder: start = D*a + r, timeoffset = D*a - (D*b + q)
    a = S.int("start_segs", 0, 2 ** 32, typ=(0, 1, 100))
    r = S.int("start_rest", 0, None, typ=(0, 1, 3))
    b = S.int("offset_segs", 0, None, typ=(0, 1, 5))
    q = S.int("offset_rest", 0, None, typ=(0, 1, 2))
    S.assume(S.And(r < D, q < D))
    start = D * a + r
    ast = D * a
    to = ast - (D * b + q)
    S.assume(to >= 0)
    snr = S.int("snr", 0, None, typ=(0, 1, 7))
    N = S.int("N", 0, c.MAXN)
    mt0 = D * b + q
    first = snr + b
    S.assume(N >= first)
    mt = (N - first) * D + mt0
    vod_t = S.int("vod_t", 0, 2 ** 60)
    payload = S.blob("payload", lo=0)
    S.assume(S.len(payload) < 2 ** 31)
    k = N - first + b
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + k % v.nr), c.small_segment(S, vod_t, payload=payload))
    now = ast + (N - first + 1) * D
    out = c.fetch_media(S, [S.fmt("start_%d", start), S.fmt("timeoffset_%d", to), S.fmt("snr_%d", snr), "c", "V1",
                            S.fmt("%d.m4s", N)], now)
    expect(S, v, out, N, k, mt, vod_t, v.ts["video"], payload)


def time(S):
    """Time addressing ($Time$): the request names the segment whose nominal start is nearest. Also for representations
    in subdirectories, and multiplexed ones, where the timescale is that of the first."""
    v, opts, ast, first = session(S)
    sub, (rep, ctype), second = S.variant or ([], S.choice("rep", [("V1", "video"), ("A1", "audio")]), None)
    ts = v.ts[ctype]
    k = S.int("k", 0, 2 ** 31)
    d = S.int("delta", None, None, typ=(0, 1, -1, 512, -1000))
    S.assume(S.And(2 * d < v.D * ts, -2 * d < v.D * ts))
    T = k * v.D * ts + d
    S.assume(S.And(T >= 0, first + k <= c.MAXN))
    N = first + k
    vod_t = S.int("vod_t", 0, 2 ** 60)
    payload = S.blob("payload", lo=0)
    S.assume(S.len(payload) < 2 ** 31)
    at = "/".join(["vod", "c"] + sub)
    S.file(S.fmt(at + "/" + rep + "/%d.m4s", v.first + k % v.nr), c.small_segment(S, vod_t, payload=payload))
    if second:
        S.file(S.fmt(at + "/" + second + "/%d.m4s", v.first + k % v.nr), c.small_segment(S, 0))
    out = c.fetch_media(S, opts + ["c"] + sub + [rep + ("__" + second if second else ""), S.fmt("t%d.m4s", T)],
                        ast + (k + 1) * v.D)
    expect(S, v, out, N, k, k * v.D, vod_t, ts, payload)


PATHS = [None, (["sub"], ("A1", "audio"), None), ([], ("V1", "video"), "A1"), (["a", "b"], ("A1", "audio"), "V2")]
HARNESSES = [
    Harness("number", number, n_random=400, budget=150, functions=FUNCS),
    Harness("unrelated", unrelated, variants=c.UNRELATED, n_random=60, budget=60, functions=FUNCS),
    Harness("offset", offset, n_random=400, budget=150, functions=FUNCS),
    Harness("time", time, variants=PATHS, n_random=400, budget=150, functions=FUNCS),
]
