"""C05: initialization segments."""
from pyvc.harness import Harness
from props import common as c

FUNCS = ["dashlib/initsegmentfilter.py:InitLiveFilter.*", "dashlib/mp4filter.py:MP4Filter.filter,filter_box,check_box",
         "dashlib/dash_proxy.py:get_init,process_init_segment"]


def hdr(S, typ, version, flags, pre, dur, post):
    "mvhd/tkhd/mdhd-like box; the duration follows `pre` and is 4 or 8 bytes wide."
    d = S.u32(dur) if version == 0 else S.u64(dur)
    return c.full(S, typ, version, flags, pre, d, post)


def layout(S):
    "(box list builder) for all version combinations; returns function(zero) -> bytes."
    mv, tv, dv, ntr, extra = S.variant
    F = 2 ** 24 - 1
    mflags, tflags, dflags = S.int("mvhd_flags", 0, F), S.int("tkhd_flags", 0, F), S.int("mdhd_flags", 0, F)
    mdur = S.int("movie_dur", 0, c.MAXN if mv == 0 else 2 ** 64 - 1)
    ftyp = c.box(S, b"ftyp", S.blob("ftyp", lo=8, hi=2 ** 10))
    mvpre = S.blob("mvhd_pre", ln=12 if mv == 0 else 20)
    mvpost = S.blob("mvhd_post", ln=80)
    mvex = c.box(S, b"mvex", *[c.full(S, b"trex", 0, 0, S.blob("trex%d" % i, ln=20)) for i in range(ntr)])
    x = [c.box(S, t, S.blob("x_" + t.decode(), lo=0, hi=2 ** 16)) if extra else b""
         for t in (b"udta", b"edts", b"free", b"elng", b"pssh")]
    tr = []
    for i in range(ntr):
        tr.append((S.blob("tkhd_pre%d" % i, ln=16 if tv == 0 else 24),
                   S.int("track_dur%d" % i, 0, c.MAXN if tv == 0 else 2 ** 64 - 1), S.blob("tkhd_post%d" % i, ln=60),
                   S.blob("mdhd_pre%d" % i, ln=12 if dv == 0 else 20),
                   S.int("media_dur%d" % i, 0, c.MAXN if dv == 0 else 2 ** 64 - 1), S.blob("mdhd_post%d" % i, ln=4),
                   c.full(S, b"hdlr", 0, 0, S.blob("hdlr%d" % i, lo=20, hi=200)),
                   c.box(S, b"minf", S.blob("minf%d" % i, lo=0, hi=2 ** 16))))

    def build(live):
        def z(d):
            return 0 if live else d
        traks = [c.box(S, b"trak", hdr(S, b"tkhd", tv, tflags, a, z(d), p), x[1],
                       c.box(S, b"mdia", hdr(S, b"mdhd", dv, dflags, a2, z(d2), p2), x[3], h, m))
                 for (a, d, p, a2, d2, p2, h, m) in tr]
        moov = c.box(S, b"moov", hdr(S, b"mvhd", mv, mflags, mvpre, z(mdur), mvpost), x[4], mvex, *(traks + [x[0]]))
        return S.cat(ftyp, x[2], moov)
    return build


def content(S):
    "All header versions: durations become zero and nothing else changes."
    c.vod(S)
    build = layout(S)
    rep = S.choice("rep", ["V1", "A1"])
    S.file("vod/c/%s/init.mp4" % rep, build(False))
    out = c.fetch_init(S, ["c", rep, "init.mp4"], S.int("now", 0, None, typ=(0, 1500000000)))
    S.check("the initialization segment is served", c.served(S, out))
    want = build(True)
    S.check("same size", S.len(out.value) == S.len(want))
    S.check("durations are zero and every other byte is that of the stored file", S.eq(out.value, want))


def timing(S):
    """Initialization segments are there from the availability start minus the init offset, whatever options that do
    not concern it stand in the URL."""
    v = c.vod(S)
    opts = list(S.variant)
    ast, off = 0, 0
    if S.flag("has_start"):
        start = S.int("start", 0, None, typ=(0, 6, 1000, 1500000000))
        ast = start // v.D * v.D
        opts.append(S.fmt("start_%d", start))
    if S.flag("has_init"):
        off = S.int("init", None, None, typ=(0, 10, 600, -5))
        opts.append(S.fmt("init_%d", off))
    now = S.real("now", 0, None, near=(ast, ast - off))
    S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
    out = c.fetch_init(S, opts + ["c", "V1", "init.mp4"], now)
    S.check("the request ends with a response", out.ok)
    S.check("refused before the (advanced) availability start", S.Implies(now < ast - off, c.refused(out)))
    S.check("served from then on", S.Implies(now >= ast - off, c.served(S, out)))


def sessions(S):
    "In every kind of session, at any instant from its start less the offset on and however late, the same zeroed file."
    kind = S.variant[0]
    opts = list(S.variant[1:])
    v = c.vod(S)
    D = v.D
    a = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100, 250000000))
    ast = end = D * a
    if kind in ("dur", "stop", "offset", "start"):
        opts.append(S.fmt("start_%d", ast))
        n = S.int("segs", 1, 2 ** 31, typ=(1, 2, 5, 600))
        end = ast + n * D
        if kind == "dur":
            opts.append(S.fmt("dur_%d", n * D))
        if kind == "stop":
            opts.append(S.fmt("stop_%d", end))
        if kind == "offset":
            p = S.int("offset_segs", 0, 2 ** 31, typ=(0, 1, 5))
            S.assume(p <= a)
            opts.append(S.fmt("timeoffset_%d", D * p))
    else:
        ast = end = 0
    off = S.int("init", -100, 2 ** 31, typ=(0, 10, 600, -5))
    opts.append(S.fmt("init_%d", off))
    if kind in ("tfdt", "modulo") or "cont_1" in opts:
        S.assume(off >= 600)
        opts += {"tfdt": ["tfdt_32"], "modulo": ["modulo_10"]}.get(kind, [])
    build = lambda dur: S.cat(c.box(S, b"ftyp", b"iso6"), c.box(
        S, b"moov", c.full(S, b"mvhd", 0, 0, bytes(12), S.u32(dur), bytes(80)),
        c.box(S, b"mvex", c.full(S, b"trex", 0, 0, bytes(20))),
        c.box(S, b"trak", c.full(S, b"tkhd", 0, 7, bytes(16), S.u32(dur), bytes(60)),
              c.box(S, b"mdia", c.full(S, b"mdhd", 0, 0, bytes(12), S.u32(dur), bytes(4))))))
    rep = S.choice("rep", ["V1", "A1"])
    S.file("vod/c/%s/init.mp4" % rep, build(S.int("stored_dur", 0, c.MAXN)))
    now = S.real("now", 0, None, near=(ast, ast - off, end, end + 60, end + 61, end + 10000))
    out = c.fetch_init(S, opts + ["c", rep, "init.mp4"], now)
    S.check("the request ends with a response", out.ok)
    S.check("refused before the (advanced) availability start", S.Implies(now < ast - off, c.refused(out)))
    S.check("served from then on", S.Implies(now >= ast - off, c.served(S, out)))
    if c.served(S, out):
        S.check("durations are zero and every other byte is that of the stored file", S.eq(out.value, build(0)))


KINDS = [("start",), ("dur", "mup_5"), ("stop",), ("offset", "snr_7"), ("tfdt",), ("modulo",), ("plain", "sidx_1", "tsbd_4"),
         ("plain", "scte35_3", "ato_2"), ("plain", "chunkdur_1", "ato_inf"), ("plain", "baseurl_u10_d20"), ("dur", "baseurl_d30_u10"),
         ("plain", "cont_1"), ("stop", "sidx_1", "periods_60", "continuous_1")]
HARNESSES = [
    Harness("content", content, variants=[(m, t, d, n, e) for m in (0, 1) for t in (0, 1) for d in (0, 1)
                                          for (n, e) in (((1, False), (1, True)) if m == d else ((1, True), (2, False)))],
            n_random=40, budget=100, functions=FUNCS),
    Harness("timing", timing, variants=[[]] + [[o for o in x if not o.startswith("init")] for x in c.UNRELATED], n_random=300, budget=60, functions=FUNCS),
    Harness("sessions", sessions, variants=KINDS, n_random=60, budget=60, functions=FUNCS),
]
