"""C07: chunked segments lose nothing."""
from pyvc.harness import Harness
from props import common as c
from props.c03 import s32

FUNCS = ["dashlib/chunker.py:chunk,decode_fragment,decode_moof,partition,encode_chunked", "dashlib/mp4.py:box.*,full_box.*,mp4.*,"
         "tfhd_box.*,trun_box.*,tfdt_box.*,mfhd_box.*", "dashlib/boxes.py:create_moof,create_mdat,Box.*,BoxContainer.*,TFHDBox.*,"
         "TFDTBox.*,TRUNBox.*,MFHDBox.*,MDATBox.*,Sample.*,serialize_*",
         "dashlib/dash_proxy.py:get_media,process_media_segment,filter_media_segment,get_trex_data",
         "dashlib/initsegmentfilter.py:InitFilter.process_trex"]


class Source(object):
    "A stored segment with known samples: fragments -> runs -> samples."

    def __init__(self, S, shape, flags, tf, ver, order=False, extra=False, dmax=c.MAXN):
        self.dd, self.ds, self.df = (S.int("default_" + n, 1 if n == "duration" else 0, {"duration": dmax, "size": 2 ** 24}.get(n, c.MAXN),
                                           typ={"duration": (1, 512, 3600), "size": (0, 3, 100), "flags": (0, 0x10000, 0x1010000,
                                                0x2000000)}[n]) for n in ("duration", "size", "flags"))
        self.od, self.os, self.of = (S.int("fragment_" + n, 1 if n == "duration" else 0, {"duration": dmax, "size": 2 ** 24}.get(n, c.MAXN),
                                           typ={"duration": (1, 512, 3600), "size": (0, 3, 100), "flags": (0, 0x10000, 0x1010000,
                                                0x2000000)}[n]) for n in ("duration", "size", "flags"))
        dur = self.od if tf & 8 else self.dd
        size = self.os if tf & 0x10 else self.ds
        flg = self.of if tf & 0x20 else self.df
        self.samples, self.starts, self.media = [], [], []
        self.track = S.int("track", 1, c.MAXN)
        self.seq = S.int("vod_seq", 0, c.MAXN)
        pos = 0
        for f, runs in enumerate(shape):
            t = S.int("vod_t%d" % f, 0, 2 ** 62)
            tfhd = c.full(S, b"tfhd", 0, 0x20000 | tf, S.u32(self.track), S.u32(dur) if tf & 8 else b"",
                          S.u32(size) if tf & 0x10 else b"", S.u32(flg) if tf & 0x20 else b"")
            data, tables = [], []
            for r, n in enumerate(runs):
                first = S.int("first_flags%d_%d" % (f, r), 0, c.MAXN, typ=(0, 0x2000000)) if flags & 4 else None
                rows, blobs = [], []
                for i in range(n):
                    k = "%d_%d_%d" % (f, r, i)
                    d = S.int("duration" + k, 1, dmax, typ=(1, 12, 40)) if flags & 0x100 else dur
                    s = S.int("size" + k, 0, 2 ** 24, typ=(0, 3, 100), gmax=200) if flags & 0x200 else size
                    g = S.int("flags" + k, 0, c.MAXN, typ=(0, 0x10000, 0x1010000, 0x2000000)) if flags & 0x400 else flg
                    lo, hi = (-2 ** 31 if ver else 0, 2 ** 31 - 1) if i < 2 or not S.symbolic else (0, 0)
                    o = S.int("offset" + k, lo, hi, typ=(0, 512) + ((-512,) if ver else ())) if flags & 0x800 else 0
                    rows.append(S.cat(S.u32(d) if flags & 0x100 else b"", S.u32(s) if flags & 0x200 else b"",
                                      S.u32(g) if flags & 0x400 else b"", s32(S, o) if flags & 0x800 else b""))
                    blobs.append(S.blob("data" + k, ln=s))
                    g = first if first is not None and i == 0 else g
                    self.samples.append((blobs[-1], d, s, g, o))
                    self.starts.append((f, t) if (r, i) == (0, 0) else None)
                tables.append((n, first, S.cat(*rows) if rows else b""))
                data.append(S.cat(*blobs) if blobs else b"")

            def moof(offsets):
                truns = [c.full(S, b"trun", ver, flags, S.u32(n), s32(S, o) if flags & 1 else b"",
                                S.u32(first) if flags & 4 else b"", rows) for (n, first, rows), o in zip(tables, offsets)]
                return c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(self.seq)),
                             c.box(S, b"traf", tfhd, c.tfdt(S, 1, t), *truns))
            at, offs = S.len(moof([0] * len(runs))) + 8, []
            gap = S.blob("gap%d" % f, lo=0, hi=2 ** 16) if extra else b""
            place = list(range(len(runs)))
            if order:                           # the media of the last run stands first
                place = place[::-1]
            where = {}
            pos = at + S.len(gap)
            for r in place:
                where[r] = pos
                pos = pos + S.len(data[r])
            self.media.append(moof([where[r] for r in range(len(runs))]))
            if extra:
                self.media.append(c.box(S, b"free", b""))
                self.media[-2] = moof([where[r] + 8 for r in range(len(runs))])
            self.media.append(c.box(S, b"mdat", gap, *[data[r] for r in place]))


def store(S, v, N, src, head):
    trex = c.full(S, b"trex", 0, 0, S.u32(src.track), S.u32(1), S.u32(src.dd), S.u32(src.ds), S.u32(src.df))
    S.file("vod/c/V1/init.mp4", c.box(S, b"moov", c.box(S, b"mvex", trex)))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), S.cat(*(head + src.media)))


def parse_chunk(S, bs):
    """(decode time, [(data, duration, size, flags, composition offset)], facts) of one moof and mdat, by the standard;
    None when it is not one fragment of one track with explicit sample values or trex defaults are needed."""
    (tm, wm, bm), (td, wd, bd) = bs
    if tm != b"moof" or td != b"mdat":
        return None
    kids = c.walk(S, bm)
    if kids is None or [t for t, _, _ in kids] != [b"mfhd", b"traf"]:
        return None
    traf = c.walk(S, kids[1][2])
    if traf is None or [t for t, _, _ in traf] != [b"tfhd", b"tfdt", b"trun"]:
        return None
    tfhd, tfdt, trun = [b for _, _, b in traf]
    tf = S.unum(tfhd[1:4])
    fl = S.unum(trun[1:4])
    if tf != 0x20000 or fl not in (0x701, 0xf01) or tfdt[0] not in (0, 1):
        return None
    ver = trun[0]
    t = S.unum(tfdt[4:12]) if tfdt[0] == 1 else S.unum(tfdt[4:8])
    n = S.unum(trun[4:8])
    off = S.unum(trun[8:12])                     # from the start of the moof
    whole = S.cat(wm, wd)
    pos, row, out = off, 12, []
    e = 16 if fl & 0x800 else 12
    if S.len(trun) != 12 + n * e:
        return None
    for i in range(n):
        d, s, g = (S.unum(trun[row + 4 * k:row + 4 * k + 4]) for k in range(3))
        o = 0
        if fl & 0x800:
            o = S.unum(trun[row + 12:row + 16])
            o = S.ite(o >= 2 ** 31, o - 2 ** 32, o) if ver == 1 else o
        out.append((whole[pos:pos + s], d, s, g, o))
        pos, row = pos + s, row + e
    return t, out, (S.unum(kids[0][2][4:8]), S.unum(tfhd[4:8]), S.And(off == S.len(wm) + 8, pos == S.len(whole)))


def lossless(S):
    "The samples of the chunks, one after the other, are those of the stored segment, at their live decode times."
    shape, flags, tf, ver, order, extra, dur = S.variant
    few = dur >= 2000                            # everything fits into one chunk
    v = c.vod(S, ts={"video": 1000, "audio": 1})
    src = Source(S, shape, flags, tf, ver, order, extra, dur // 4 if few else c.MAXN)
    N = S.int("N", 0, c.MAXN)
    styp = c.box(S, b"styp", b"msdh", S.u32(0), b"msix")
    head = [styp] if extra != "no_styp" else []
    if extra is True:
        head.append(c.full(S, b"emsg", 0, 0, b"urn:x:y\0001\0", *[S.u32(S.int("event%d" % i, 0, c.MAXN)) for i in range(4)]
                           + [b"message"]))
    store(S, v, N, src, head)
    cd = S.fmt("%d", dur // 1000) if dur % 1000 == 0 else "%.3f" % (dur / 1000.0)
    out = c.fetch_media(S, ["chunkdur_" + cd, "c", "V1", S.fmt("%d.m4s", N)], (N + 1) * v.D, chunk=True)
    S.check("the segment is served", c.served(S, out))
    chunks = out.value.chunks
    S.check("there is a chunk", len(chunks) > 0)
    tops = [c.walk(S, x) for x in chunks]
    S.check("the chunks are well formed", all(t is not None and len(t) >= 2 for t in tops))
    first = S.cat(*[w for _, w, _ in tops[0][:-2]]) if len(tops[0]) > 2 else b""
    kept = [h for h in head] + ([c.box(S, b"free", b"")] * (len(shape) - 1) if extra else [])
    S.check("what stood before the media comes with the first chunk", S.eq(first, S.cat(*kept) if kept else b""))
    S.check("each other chunk is one fragment with its media", all(len(t) == 2 for t in tops[1:]))
    parsed = [parse_chunk(S, t[-2:]) for t in tops]
    S.check("each fragment is readable", all(p is not None for p in parsed))
    got = [x for p in parsed for x in p[1]]
    S.check("no sample is lost or added", len(got) == len(src.samples) and all(len(p[1]) > 0 for p in parsed))
    shift = (N // v.nr) * v.D * v.nr * 1000
    want, t = [], None
    for st, (_, d, _, _, _) in zip(src.starts, src.samples):
        if st is not None:
            t = st[1] + shift
        want.append(t)
        t = t + d
    k = 0
    for p in parsed:
        S.check("a chunk starts at the decode time of its first sample", p[0] == want[k])
        S.check("it has the number of the segment and its track", S.And(p[2][0] == N, p[2][1] == src.track))
        S.check("its media is complete and fills the media box", p[2][2])
        for (data, d, s, g, o) in p[1]:
            a, b, e, h, q = src.samples[k]
            S.check("sample data", S.eq(data, a))
            S.check("sample duration and size", S.And(d == b, s == e))
            S.check("sample flags", g == h)
            S.check("composition offset", o == q)
            k += 1


VARS = [
    (((2,),), 0x301, 0x20, 0, False, False, 40),
    (((3,),), 0x305, 0x38, 0, False, True, 500),
    (((3,),), 0xb05, 0x38, 1, False, True, 5000),
    (((2,),), 0xf01, 0, 1, False, "no_styp", 1000),
    (((2,),), 0xa01, 0x28, 0, False, False, 40),
    (((2,),), 0x601, 0, 0, False, False, 40),
    (((2,),), 0x001, 0x38, 0, False, False, 40),
    (((2,),), 0x001, 0, 0, False, False, 40),
    (((2, 1),), 0x701, 0, 0, False, False, 500),
    (((1, 1),), 0x301, 0x20, 0, True, False, 500),
    (((1,), (1,)), 0x301, 0x20, 0, False, False, 500),
    (((1,), (1,)), 0x301, 0x20, 0, False, True, 1000),
    (((2,), (1,)), 0x305, 0x20, 0, False, True, 500),
]
HARNESSES = [
    Harness("lossless", lossless, variants=VARS, n_random=100, budget=150, functions=FUNCS,
            bounded="segments of up to 3 samples in up to 2 runs or fragments (all sizes, durations, flags, offsets and bytes)",
            slow=[VARS[2], VARS[-1]]),
]
