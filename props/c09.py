"""C09: the SegmentTimeline lists exactly the segments of the window."""
from pyvc.harness import Harness
from props import common as c
from props import segtl
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/segtimeline.py:SegmentTimeLineGenerator.*", "dashlib/mpdprocessor.py:MpdProcessor.update_periods",
         "dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd,generate_period_data",
         "dashlib/configprocessor.py:ConfigProcessor.process_url,Config.*,VodConfig.read_config"]


def window(S):
    "An endless session: the window is the time-shift buffer."
    numbered, shape, wraps = S.variant
    tb = segtl.table(S, shape)
    v = tb.vod
    opts, ast = ["segtimelinenr_1" if numbered else "segtimeline_1"], 0
    if S.flag("has_start"):
        a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
        r = S.int("start_rest", 0, v.D - 1)
        ast = v.D * a
        opts.append(S.fmt("start_%d", ast + r))
    snr = 0
    if numbered and S.flag("has_snr"):
        snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
        opts.append(S.fmt("snr_%d", snr))
    first = S.ite(snr == -1, 1, snr)
    # the session has lasted we loops and x seconds; the window starts ws loops and y seconds into it
    loop = v.D * v.nr
    we = S.int("loops", 0, 2 ** 20, typ=(0, 1, 2, 5))
    x = S.int("secs", 0, None, typ=(0, 1, 2, 7))
    S.assume(x < loop)
    if wraps is None:
        ws, y = 0, 0
        S.assume(we <= 1)
        tsbd = we * loop + x + S.int("more", 0, 2 ** 20, typ=(0, 1, 10))
    else:
        S.assume(we >= wraps)
        ws = we - wraps
        y = S.int("from", 0, None, typ=(0, 1, 2, 7))
        S.assume(y < loop)
        if wraps == 0:
            S.assume(y <= x)
        tsbd = (we - ws) * loop + x - y
    opts.append(S.fmt("tsbd_%d", tsbd))
    now = ast + we * loop + x
    c.vod_mpd_d(S, v)
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    S.check("the MPD is served and well formed", root is not None)
    S.check("a timeline MPD is to be updated at once and has no fixed segment duration",
            root.get("minimumUpdatePeriod") == "PT0S" and root.get("maxSegmentDuration") is None)
    span = 1 if wraps is None else wraps
    segtl.check_template(S, tb, root, numbered, lambda tt: tt.expected(S, ws, y * tt.ts, we, x * tt.ts, span), first, 0)


def stopped(S):
    "A session with start and stop: everything from the start that is complete, none after the stop."
    numbered, shape = S.variant
    tb = segtl.table(S, shape)
    v = tb.vod
    D = v.D
    a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
    r = S.int("start_rest", 0, D - 1)
    ast = D * a
    n = S.int("segs", 1, 2 * v.nr if isinstance(v.nr, int) else 2 ** 16, typ=(1, 2, 3, 4))
    s = S.int("stop_rest", 0, D - 1)
    S.assume(S.And(n <= 2 * v.nr, ast + n * D - s >= ast + r))
    opts = ["segtimelinenr_1" if numbered else "segtimeline_1", S.fmt("start_%d", ast + r), S.fmt("stop_%d", ast + n * D - s)]
    p = 0
    if S.flag("has_offset"):
        p = S.int("offset_segs", 0, 2, typ=(0, 1, 2))
        S.assume(a >= p)
        opts.append(S.fmt("timeoffset_%d", ast - p * D))
    snr = 0
    if numbered and S.flag("has_snr"):
        snr = S.int("snr", 0, None, typ=(0, 1, 7))
        opts.append(S.fmt("snr_%d", snr))
    t = S.int("elapsed", 0, 2 ** 20, near=(n * D, D), typ=(0, 1, 5))
    c.vod_mpd_d(S, v)
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], ast + t))
    S.check("the MPD is served and well formed", root is not None)
    S.check("the session is dynamic until its end", S.iff(root.get("type") == "dynamic", t <= n * D))
    end = S.min(t, n * D)
    segtl.check_template(S, tb, root, numbered, lambda tt: tt.expected(S, 0, 0, 0, (end + p * D) * tt.ts, 3, skip=p), snr, p * D)


SH = ["one", "jitter", "three", "long", "longjitter"]
WVAR = [(nr, sh, w) for sh in SH for w in (None, 0, 1, 2) for nr in ((True, False) if sh in ("jitter", "long") else (sh != "three",))]
QUICK = [(True, "one", None), (True, "one", 1), (True, "jitter", 0), (True, "jitter", 1), (False, "jitter", None), (False, "jitter", 2),
         (False, "three", None), (False, "three", 0), (False, "three", 1), (False, "three", 2), (False, "long", None),
         (False, "long", 0), (False, "long", 1), (True, "longjitter", None)]
HARNESSES = [
    Harness("window", window, variants=WVAR, n_random=60, budget=150, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO,
            cuts=segtl.CUTS, slow=[x for x in WVAR if x not in QUICK],
            bounded="contents: segment tables of 1 to 3 entries (shapes in props/segtl.py), segment duration and timescale from a "
                    "list; windows that span at most 2 ends of the loop; session length, window position, start and numbers "
                    "unbounded"),
    Harness("stopped", stopped, variants=[(nr, sh) for sh in ("one", "jitter", "three") for nr in (True, False)], n_random=60,
            budget=150, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO, cuts=segtl.CUTS,
            slow=[(True, "jitter"), (False, "one")],
            bounded="tables of 1 to 3 entries and 1 to 4 segments; sessions of at most 2 loops"),
]
