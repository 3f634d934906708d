"""C20: segment index inserted on request."""
from pyvc.harness import Harness
from props import common as c
from props import cuts
from props.c03 import trun_parts, entry_size, s32

FUNCS = ["dashlib/mediasegmentfilter.py:MediaSegmentFilter.finalize,create_sidx,process_sidx,process_trun,process_tfhd,process_tfdt",
         "dashlib/dash_proxy.py:process_media_segment,filter_media_segment,get_trex_data", "dashlib/initsegmentfilter.py:InitFilter.*",
         "dashlib/mp4filter.py:MP4Filter.filter,filter_box"]


def init(S, v, dflt):
    "Initialization segment with the default sample duration of the track."
    trex = c.full(S, b"trex", 0, 0, S.u32(1), S.u32(1), S.u32(dflt), S.u32(0), S.u32(0))
    S.file("vod/c/V1/init.mp4", S.cat(c.box(S, b"ftyp", b"iso6"), c.box(S, b"moov", c.box(S, b"mvex", trex))))


class Source(object):
    "A stored segment of fragments and runs, and how long it lasts."

    def __init__(self, S, shape, v, flags, where, between=None):
        dflt = S.int("default_duration", 1, c.MAXN, typ=(512, 1024, 3600))
        over = S.int("fragment_default", 1, c.MAXN, typ=(512, 1024, 3600))
        if where == "no_trex":
            S.file("vod/c/V1/init.mp4", c.box(S, b"ftyp", b"iso6"))
        else:
            init(S, v, dflt)
        one = len(shape) == 1 and shape[0] == 1
        e = entry_size(flags)
        self.total, out, self.t0 = 0, [], None
        for f, runs in enumerate(shape):
            if f and between:
                out.append(c.box(S, between, S.blob("between%d" % f, lo=0, hi=2 ** 16)))
            t = S.int("vod_t%d" % f, 0, c.MAXN) if f == 0 or S.variant else 0
            self.t0 = t if f == 0 else self.t0
            tf = (0x20000 | 8) if where == "tfhd" else 0x20000
            tfhd = c.full(S, b"tfhd", 0, tf, S.u32(1), S.u32(over) if tf & 8 else b"")
            truns = []
            for r in range(runs):
                n = S.int("samples%d_%d" % (f, r), 0, 2 ** 24, typ=(0, 1, 2, 7, 30), gmax=40) if one else \
                    S.choice("samples%d_%d" % (f, r), [1, 2] if S.symbolic else [0, 1, 2, 3])
                table = S.blob("table%d_%d" % (f, r), ln=n * e) if e else b""
                if flags & 0x100:
                    if one and S.symbolic:
                        S.ghost_trun_sum = cuts.GhostSum(S, table, e, 0, n)
                        self.total = self.total + S.ghost_trun_sum(n)
                    else:
                        for i in range(n):
                            self.total = self.total + S.unum(table[i * e:i * e + 4])
                else:
                    self.total = self.total + n * (over if where == "tfhd" else dflt)
                truns.append(c.full(S, b"trun", 0, flags, *trun_parts(S, flags, n, 100, 0, table)))
            traf = c.box(S, b"traf", tfhd, c.tfdt(S, 0, t), *truns)
            out.append(c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(7)), traf))
            out.append(c.box(S, b"mdat", S.blob("payload%d" % f, lo=0, hi=2 ** 20)))
        self.media = out
        S.assume(self.total < 2 ** 32)


def index(S):
    "One index box right before the media it covers, with its time, size and duration; all else is as without the option."
    shape, flags, where, extra = S.variant
    v = c.vod(S)
    src = Source(S, shape, v, flags, where, b"prft" if extra == "between" else None)
    before = [c.box(S, b"styp", b"msdh", S.u32(0), b"msix")] if extra != "no_styp" else []
    if extra == "sidx":
        before.append(c.full(S, b"sidx", S.choice("old_version", [0, 1]), 0, S.blob("old", lo=32, hi=2 ** 16)))
    if extra == "unknown":
        before.append(c.box(S, b"prft", S.blob("x0", lo=0, hi=2 ** 16)))
    after = [c.box(S, b"free", S.blob("x1", lo=0, hi=2 ** 16))] if extra == "unknown" else []
    N = S.int("N", 0, c.MAXN)
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), S.cat(*(before + src.media + after)))
    more = ["start_0", S.fmt("dur_%d", (N + 1) * v.D)] if extra == "last" else []     # the last segment of a session
    get = lambda o: c.fetch_media(S, o + more + ["c", "V1", S.fmt("%d.m4s", N)], (N + 1) * v.D)
    plain = get([])
    out = get(["sidx_1"])
    S.check("both are served", c.served(S, plain) and c.served(S, out))
    bs = c.walk(S, out.value)
    S.check("the segment is well formed", bs is not None)
    types = [t for t, w, b in bs]
    S.check("there is one index", types.count(b"sidx") == 1)
    S.check("without the option there is none", S.eq(plain.value, S.cat(*[w for t, w, b in bs if t != b"sidx"])))
    i = types.index(b"sidx")
    S.check("it stands right before the first fragment", types[i + 1] == b"moof" and b"moof" not in types[:i])
    b = bs[i][2]
    S.check("it is complete", S.len(b) == 44)
    S.check("its version is the one with 64-bit times", S.unum(b[0:4]) == 2 ** 24)
    S.check("its time scale is that of the media", S.unum(b[8:12]) == v.ts["video"])
    S.check("its time is the decode time of the first fragment",
            S.unum(b[12:20]) == src.t0 + (N // v.nr) * v.D * v.nr * v.ts["video"])
    S.check("the media follows immediately", S.unum(b[20:28]) == 0)
    S.check("there is one entry", S.unum(b[28:32]) == 1)
    size, last = 0, max(j for j, t in enumerate(types) if t == b"mdat")
    for t, w, _ in bs[i + 1:last + 1]:
        size = size + S.len(w)
    S.check("it covers all fragments with their media, and refers to media", S.unum(b[32:36]) == size)
    S.check("its duration is that of all samples", S.unum(b[36:40]) == src.total)



def elsewhere(S):
    "Chunks and multiplexed segments are as without the option: their parts are not those that an index would describe."
    kind = S.variant
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN)
    t = S.int("vod_t", 0, c.MAXN)
    for rep in ("V1", "A1"):
        init(S, v, 512) if rep == "V1" else S.file("vod/c/A1/init.mp4", c.box(S, b"ftyp", b"iso6"))
        st = c.box(S, b"styp", b"msdh", S.u32(0), b"msdh")
        moof = lambda off: c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(7)), c.box(
            S, b"traf", c.full(S, b"tfhd", 0, 0x20000, S.u32(1)), c.tfdt(S, 1, t),
            c.full(S, b"trun", 0, 0x301, S.u32(1), S.u32(off), S.u32(100), S.u32(5))))
        n = S.len(moof(0))
        S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + N % v.nr), S.cat(st, moof(n + 8), c.box(S, b"mdat", S.blob("payload" + rep, ln=5))))
    rep, more = ("V1__A1", []) if kind == "mux" else ("V1", ["chunkdur_1"])
    get = lambda o: c.fetch_media(S, o + more + ["c", rep, S.fmt("%d.m4s", N)], (N + 1) * v.D, kind == "chunk")
    plain, out = get([]), get(["sidx_1"])
    S.check("both are served", plain.ok and out.ok and not c.refused(plain) and not c.refused(out))
    if kind == "mux":
        S.check("a multiplexed segment is as without the option", S.eq(plain.value, out.value))
    else:
        a, b = plain.value.chunks, out.value.chunks
        S.check("there are as many chunks", len(a) == len(b))
        for x, y in zip(a, b):
            S.check("a chunk is as without the option", S.eq(x, y))


ONE = (1,)
VARS = [(ONE, 0, "tfhd", None), (ONE, 0, "trex", "sidx"), (ONE, 0x301, "trex", "unknown"), (ONE, 0xf01, "tfhd", "no_styp"),
        (ONE, 0x705, "trex", "sidx"), (ONE, 0x201, "tfhd", "sidx"), (ONE, 0x201, "trex", None), (ONE, 0x301, "no_trex", None),
        (ONE, 0x301, "tfhd", "last"),
        ((2,), 0x301, "tfhd", None), ((2,), 0x201, "trex", "sidx"), ((1, 1), 0x301, "trex", None), ((1, 1), 1, "tfhd", "unknown"),
        ((1, 2, 1), 0x101, "trex", "sidx"), ((1, 1), 0x201, "tfhd", "between")]
HARNESSES = [
    Harness("index", index, variants=[v for v in VARS if v[0] == ONE], n_random=80, budget=150, functions=FUNCS, cuts=cuts.TRUN),
    Harness("elsewhere", elsewhere, variants=["mux", "chunk"], n_random=40, budget=60,
            functions=["dashlib/dash_proxy.py:process_media_segment,filter_media_segment"]),
    Harness("index_many", index, variants=[v for v in VARS if v[0] != ONE], n_random=80, budget=150, functions=FUNCS,
            bounded="1 to 3 fragments of 1 to 2 runs of 1 to 2 samples", slow=[VARS[-2], VARS[-3]]),
]
