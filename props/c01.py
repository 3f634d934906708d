"""C01: the live availability window of media segments."""
from pyvc.harness import Harness
from props import common as c
from props.sess import Window


def window(S):
    "Plain live service: start/AST, startNumber, tsbd and availabilityTimeOffset options."
    v = c.vod(S)
    opts = []
    start = 0
    if S.flag("has_start"):
        start = S.int("start", 0, None, typ=(1, 6, 7, 1000, 1500000000))
        opts.append(S.fmt("start_%d", start))
    ast = start // v.D * v.D
    snr = 0
    if S.flag("has_snr"):
        snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
        opts.append(S.fmt("snr_%d", snr))
    first = S.ite(snr == -1, 1, snr)
    tsbd = v.tsbd
    if S.flag("has_tsbd"):
        tsbd = S.int("tsbd", 0, None, typ=(0, 10, 300))
        opts.append(S.fmt("tsbd_%d", tsbd))
    ato = 0
    inf = False
    k = S.choice("ato_kind", ["none", "inf", "num"])
    if k == "inf":
        inf = True
        opts.append("ato_inf")
    elif k == "num":
        a = S.real("ato", -100, 1000, typ=(0, 1, 2.5, 7, -1))
        opts.append(S.fmt("ato_%r", a))
        ato = S.max(a, 0)
    N = S.int("N", 0, c.MAXN, near=(0, 3, 10, 20))
    avail = ast + (N - first + 1) * v.D
    now = S.real("now", 0, None, near=(avail, avail - ato, avail + v.D + tsbd, ast, ast + v.D))
    D = v.D
    vodnr = v.first + (N - first) % v.nr
    S.file(S.fmt("vod/c/V1/%d.m4s", vodnr), c.small_segment(S, 0))
    out = c.fetch_media(S, opts + ["c", "V1", S.fmt("%d.m4s", N)], now)
    S.check("the request ends with a response", out.ok)
    if inf:
        S.check("nothing is served before the session starts", S.Implies(now < ast, c.refused(out)))
        S.check("with infinite offset every started-session segment is served",
                S.Implies(S.And(now >= ast, N >= first), c.served(S, out)))
    else:
        S.check("never served before availability", S.Implies(now < avail - ato, c.refused(out)))
        S.check("never served after the time-shift window", S.Implies(now > avail + D + tsbd, c.refused(out)))
        S.check("always served inside the window",
                S.Implies(S.And(N >= first, now >= avail - ato, now <= avail + D + tsbd), c.served(S, out)))
    S.check("numbers below startNumber are refused", S.Implies(N < first, c.refused(out)))
    S.check("exactly one of served and refused", c.served(S, out) != c.refused(out))


def session(S):
    """The same rule in sessions with an end or a time offset, for multiplexed, time-addressed and chunked requests,
    with every option that moves the window."""
    kind, how, more = S.variant
    v = c.vod(S, D=S.choice("D", [1, 2, 7, 10])) if kind == "tfdt" and S.symbolic else c.vod(S)
    w = Window(S, v, kind, more)
    opts = w.opts + (["chunkdur_0.5"] if how == "chunk" else [])
    N = S.int("N", 0, 2 ** 32 - 1, near=w.near_numbers())
    if how == "time":
        name = S.fmt("t%d.m4s", (N - w.k0) * v.D * v.ts["video"])
        S.assume(N >= w.k0)
    else:
        name = S.fmt("%d.m4s", N)
    if kind == "tfdt":
        now = w.ast + S.real("since_start", 0, None, near=[t - w.ast for t in w.near_times(N)])
    else:
        now = S.real("now", 0, None, near=w.near_times(N))
    S.assume(w.within(now))
    reps = ["V1", "A1"] if how == "mux" else ["V1"]
    for rep in reps:
        S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + (N - w.k0) % v.nr), c.small_segment(S, 0))
    if how == "chunk":
        S.file("vod/c/V1/init.mp4", c.box(S, b"moov", c.box(S, b"mvex", c.full(S, b"trex", 0, 0, bytes(20)))))
    out = c.fetch_media(S, opts + ["c", "__".join(reps), name], now, how == "chunk")
    w.check(S, out, N, now)


def unrelated(S):
    "Options that concern the MPD only do not move the window, wherever they stand."
    v = c.vod(S)
    start = S.int("start", 0, None, typ=(1, 6, 7, 1000, 1500000000))
    snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
    ato = S.int("ato", 0, 20)
    ast = start // v.D * v.D
    first = S.ite(snr == -1, 1, snr)
    mine = [S.fmt("start_%d", start), S.fmt("snr_%d", snr), S.fmt("ato_%d", ato)]
    more = S.variant
    opts = [more + mine, mine + more][S.choice("order", [0, 1])]
    N = S.int("N", 0, c.MAXN, near=(0, 3, 10, 20))
    if "scte35_3" in more:
        S.assume((N - first + 2) * v.D < 2 ** 33)      # event identifiers have 32 bits
    avail = ast + (N - first + 1) * v.D
    now = S.real("now", 0, None, near=(avail, avail - ato, avail + v.D + v.tsbd, ast, ast + v.D))
    rep = S.choice("rep", ["V1", "A1"])
    S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + (N - first) % v.nr), c.small_segment(S, 0))
    out = c.fetch_media(S, opts + ["c", rep, S.fmt("%d.m4s", N)], now)
    S.check("the request ends with a response", out.ok)
    inside = S.And(N >= first, now >= avail - ato, now <= avail + v.D + v.tsbd)
    S.check("served exactly inside the window", S.iff(c.served(S, out), inside))
    S.check("refused exactly outside", S.iff(c.refused(out), S.Not(inside)))


SESSIONS = [("plain", "mux", ("snr", "tsbd", "ato")), ("plain", "time", ("snr", "ato")),
            ("plain", "chunk", ("tsbd", "ato")), ("dur", "number", ("snr", "tsbd", "ato")), ("dur", "number", ("inf",)),
            ("stop", "number", ("snr", "tsbd", "ato")), ("offset", "number", ("snr", "tsbd", "ato")),
            ("offset", "mux", ("inf", "snr"))]
RESTART = [("tfdt", "number", ("snr", "tsbd", "ato")), ("tfdt", "time", ("snr",)), ("tfdt", "mux", ("tsbd",))]

FUNCS = ["dashlib/dash_proxy.py:createProvider,DashProvider.__init__,get_media,process_media_segment,error_response,"
         "filter_media_segment,get_trex_data",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,Config.*,VodConfig.read_config,quantize"]
HARNESSES = [Harness("window", window, n_random=400, budget=200, functions=FUNCS),
             Harness("session", session, variants=SESSIONS, n_random=120, budget=150, functions=FUNCS),
             Harness("restart", session, variants=RESTART, n_random=120, budget=100, functions=FUNCS,
                     bounded="segment durations 1, 2, 7 and 10 s; others in random runs only"),
             Harness("unrelated", unrelated, variants=c.UNRELATED + [["scte35_3"]], n_random=60, budget=60, functions=FUNCS)]
