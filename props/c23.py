"""C23: what the analyser writes about content describes that content."""
from pyvc.harness import Harness
from props import common as c

FUNCS = ["vodanalyzer/dashanalyzer.py:DashAnalyzer.*", "vodanalyzer/mpdprocessor.py:MpdProcessor.parse,AdaptationSet.*,"
         "Representation.*", "dashlib/initsegmentfilter.py:InitFilter.*",
         "dashlib/mediasegmentfilter.py:MediaSegmentFilter.process_trun,process_tfdt,process_tfhd,get_duration,get_tfdt_value",
         "dashlib/configprocessor.py:VodConfig.write_config,VodConfig.read_config"]
ENTRY = 12          # first number (2), repeats (2), start (4), duration (4), little-endian


def init_segment(S, ts, ver, track, ctype, trex_dur):
    w = (lambda x: S.u64(x)) if ver else (lambda x: S.u32(x))
    tkhd = c.full(S, b"tkhd", ver, 7, w(0), w(0), S.u32(track), S.u32(0), w(0), b"\0" * 60)
    mdhd = c.full(S, b"mdhd", ver, 0, w(S.int("made_" + ctype, 0, c.MAXN)), w(S.int("changed_" + ctype, 0, c.MAXN)),
                  S.u32(ts), w(0), S.u32(0x55c40000))
    hdlr = c.full(S, b"hdlr", 0, 0, S.u32(0), b"vide" if ctype == "video" else b"soun", b"\0" * 13)
    trak = c.box(S, b"trak", tkhd, c.box(S, b"mdia", mdhd, hdlr))
    mvhd = c.full(S, b"mvhd", 0, 0, b"\0" * 96)
    trex = c.full(S, b"trex", 0, 0, S.u32(track), S.u32(1), S.u32(trex_dur), S.u32(0), S.u32(0))
    return S.cat(c.box(S, b"ftyp", b"iso6", S.u32(0)), c.box(S, b"moov", mvhd, trak, c.box(S, b"mvex", trex)))


def segment(S, t, dur, how, ver):
    "A segment whose duration is stated per sample, per fragment or (None) per track."
    if how == "sample":
        trun = c.full(S, b"trun", 0, 0x100, S.u32(2), S.u32(dur - 1), S.u32(1))
        tfhd = c.full(S, b"tfhd", 0, 0x20000, S.u32(1))
    else:
        trun = c.full(S, b"trun", 0, 0, S.u32(1))
        tfhd = c.full(S, b"tfhd", 0, 0x20008, S.u32(1), S.u32(dur)) if how == "fragment" else \
            c.full(S, b"tfhd", 0, 0x20000, S.u32(1))
    traf = c.box(S, b"traf", tfhd, c.tfdt(S, ver, t), trun)
    return S.cat(c.box(S, b"styp", b"msdh", S.u32(0), b"msdh"),
                 c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(1)), traf), c.box(S, b"mdat", b"x"))


def content(S, counts, kind, how, ver, first):
    """The stored content.  Returns {media: (timescale, [(start, duration)])}; both video representations have the
    same segment boundaries."""
    D = S.choice("D", [2, 4])
    facts = {}
    for ctype, reps in (("video", ("V1", "V2")), ("audio", ("A1",))):
        ts = S.int("ts_" + ctype, 1000, 10000000, typ=(1000, 48000, 90000))
        n = max(counts[r] for r in reps)
        t0 = S.int("start_" + ctype, 0, 2 ** 31, typ=(0, 1000))
        segs, t, off = [], t0, 0
        for i in range(n):
            if how == "track":
                e = 0
            else:
                e = S.int("e_%s%d" % (ctype, i), -600000, 600000, typ=(0, 0, 1, -1, 20))
            d = D * ts + e
            off = off + e
            S.assume(S.And(d > 0, 100 * off < 9 * ts, -100 * off < 9 * ts))
            start = t
            if kind == "gap" and i > 0:
                g = S.int("g_%s%d" % (ctype, i), -600000, 600000, typ=(0, 0, 1, 50))
                start = t + g
                S.assume(S.And(start >= 0, 100 * (off + g) < 9 * ts, -100 * (off + g) < 9 * ts))
            segs.append((start, d))
            t = t + d
        facts[ctype] = (ts, segs)
        for k, r in enumerate(reps):
            S.file("vod/c/%s/init.mp4" % r, init_segment(S, ts, ver, k + 1, ctype if k == 0 else r, D * ts)
                   if k == 0 else init_segment(S, ts, 0, k + 1, r, D * ts))
            for i in range(counts[r]):
                S.file("vod/c/%s/%d.m4s" % (r, first + i), segment(S, segs[i][0], segs[i][1], how, 1))
    c.vod_mpd(S, dur=str(D))
    return D, facts


def run(S):
    a = S.mod("vodanalyzer.dashanalyzer")

    def go():
        with S.workdir():
            d = a.DashAnalyzer(S.root + "/vod/c/Manifest.mpd", 0)
            d.analyze()
            return d
    return S.call(go)


def describe(S):
    "The configuration and the timing files give back what is stored."
    counts, kind, how, ver, first = S.variant
    counts = dict(zip(("V1", "V2", "A1"), counts))
    D, facts = content(S, counts, kind, how, ver, first)
    out = run(S)
    S.check("the content is accepted", out.ok)
    nr = min(counts.values())
    text = S.written("c.cfg")
    S.check("a configuration is written", text is not None)
    S.file("cfg/c.cfg", text)
    cp = S.mod("dashlib.configprocessor")
    vc = cp.VodConfig()
    rd = S.call(vc.read_config, S.root + "/cfg/c.cfg")
    S.check("the server can read it", rd.ok)
    S.check("the first segment and the segment duration are those of the content",
            S.And(vc.first_segment_in_loop == first, vc.segment_duration_s == D))
    S.check("the loop has the segments that all representations have", vc.nr_segments_in_loop == nr)
    S.check("all media are listed", sorted(vc.media_data) == ["audio", "video"])
    for ctype, reps in (("video", ["V1", "V2"]), ("audio", ["A1"])):
        ts, segs = facts[ctype]
        m = vc.media_data[ctype]
        S.check("with their representations", m["representations"] == reps)
        S.check("and timescale", m["timescale"] == ts)
        S.check("the total duration is that of the loop",
                m["total_duration"] == segs[nr - 1][0] + segs[nr - 1][1] - segs[0][0])
        dat = S.written(m["dat_file"])
        S.check("there is a timing file", dat is not None)
        got = []
        n = S.len(dat)
        S.check("of whole entries", isinstance(n, int) and n % ENTRY == 0)
        for i in range(n // ENTRY):
            f = dat[i * ENTRY:(i + 1) * ENTRY]
            num = [S.lnum(f[a:b]) for a, b in ((0, 2), (2, 4), (4, 8), (8, 12))]
            S.check("entries follow each other", num[0] == first + len(got))
            S.check("and stay within the loop", num[1] < nr - len(got))
            for q in range(nr):
                if q <= num[1]:
                    got.append((num[2] + q * num[3], num[3]))
        S.check("all segments of the loop are described", len(got) == nr)
        for (t, d), (t1, d1) in zip(got, segs):
            S.check("by start and duration", S.And(t == t1, d == d1))


def reject(S):
    "Content that cannot be looped as described is refused."
    kind = S.variant
    D = 2
    ts = S.int("ts", 1000, 10000000, typ=(1000, 90000))
    c.vod_mpd(S, dur="2")
    bad = S.choice("bad", ["V1", "V2", "A1"])
    for k, r in enumerate(("V1", "V2", "A1")):
        t = ts
        if kind == "timescale" and r == "V2":
            t = S.int("other_ts", 1000, 10000000)
            S.assume(t != ts)
        S.file("vod/c/%s/init.mp4" % r, init_segment(S, t, 0, 1, r, D * ts))
        for i in range(1, 5):
            if kind == "missing" and r == bad and i == 3:
                continue
            if kind == "first" and r == bad and i == 1:
                continue
            dur = D * ts
            if kind == "drift" and r == bad and i == 2:
                e = S.int("e", -10000000, 10000000)
                S.assume(S.And(D * ts + e > 0, S.Or(e > ts // 10 + 1, -e > ts // 10 + 1)))
                dur = D * ts + e
            S.file("vod/c/%s/%d.m4s" % (r, i), segment(S, (i - 1) * D * ts, dur, "sample", 1))
    S.check("refused", not run(S).ok)
    S.check("and no configuration is written", S.written("c.cfg") is None)


VARIANTS = [((3, 3, 3), "tile", "sample", 0, 1), ((6, 6, 6), "tile", "track", 1, 0), ((2, 2, 2), "tile", "fragment", 1, 10),
            ((2, 2, 3), "tile", "sample", 0, 1), ((4, 2, 3), "tile", "fragment", 0, 5), ((1, 1, 1), "tile", "sample", 0, 7),
            ((3, 3, 2), "gap", "sample", 0, 1), ((3, 3, 3), "gap", "track", 0, 1), ((4, 5, 4), "tile", "sample", 0, 1),
            ((6, 6, 4), "tile", "fragment", 1, 8), ((6, 6, 6), "gap", "track", 0, 2), ((5, 5, 5), "gap", "fragment", 0, 99)]
B = "content of up to 6 segments"
HARNESSES = [
    Harness("describe", describe, variants=VARIANTS, slow=VARIANTS[10:], n_random=60, budget=150, functions=FUNCS, bounded=B),
    Harness("reject", reject, variants=("missing", "first", "timescale", "drift"), n_random=60, budget=100, functions=FUNCS,
            bounded=B),
]
