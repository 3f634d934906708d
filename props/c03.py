"""C03: rewriting a media segment preserves everything else and keeps it well formed."""
from pyvc.harness import Harness
from props import common as c
from props import cuts

FUNCS = ["dashlib/mp4filter.py:MP4Filter.filter,filter_box,check_box",
         "dashlib/mediasegmentfilter.py:MediaSegmentFilter.process_styp,process_sidx,process_mfhd,process_tfhd,"
         "process_tfdt,process_trun,process_saio,finalize",
         "dashlib/dash_proxy.py:get_media,process_media_segment,filter_media_segment",
         "dashlib/structops.py:*"]


def s32(S, v):
    "Signed 32-bit field."
    return S.u32(S.ite(v < 0, v + 2 ** 32, v))


def trun_parts(S, flags, n, offset, first_flags, table):
    out = [S.u32(n)]
    if flags & 1:
        out.append(s32(S, offset))
    if flags & 4:
        out.append(S.u32(first_flags))
    out.append(table)
    return out


def entry_size(flags):
    return 4 * sum(1 for b in (0x100, 0x200, 0x400, 0x800) if flags & b)


def serve(S, seg, nr=None):
    """Serve VoD file `seg` as a live segment through the real provider.
    Returns (outcome, number, tfdt shift)."""
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN)
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), seg)
    out = c.fetch_media(S, ["c", "V1", S.fmt("%d.m4s", N)], (N + 1) * v.D)
    return out, N, (N // v.nr) * v.D * v.nr * v.ts["video"]


def rewrite(S):
    sidx, tver, extra, saio, combos, tv = S.variant
    top_extra = []
    if extra:
        # boxes the simulator does not know, before, between and after
        top_extra = [c.box(S, b"prft", S.blob("x0", lo=0, hi=2 ** 20)), c.box(S, b"free", S.blob("x1", lo=0, hi=2 ** 20)),
                     c.box(S, b"mfra", S.blob("x2", lo=0, hi=2 ** 20))]
    # the simulator reads every word after the major brand as a compatible brand (the minor version too)
    minor = S.int("minor", 0, c.MAXN)
    S.assume(minor != 0x6c6d7367)
    brands = S.cat(b"msdh", S.u32(minor), b"msix")
    styp = c.box(S, b"styp", brands)
    seq0 = S.int("vod_seq", 0, c.MAXN)
    t0 = S.int("vod_t", 0, c.MAXN if tver == 0 else 2 ** 62)
    tflags = S.int("tfdt_flags", 0, 2 ** 24 - 1)
    tfhd = c.full(S, b"tfhd", 0, 0x20000, S.u32(S.int("track", 1, c.MAXN)))
    flags = S.choice("trun_flags", combos)
    e = entry_size(flags)
    n = S.int("samples", 0, 2 ** 24, typ=(0, 1, 2, 7, 30), gmax=40)
    off = S.int("data_offset", -2 ** 31, 2 ** 31 - 8, typ=(0, 100, 2000))
    ff = S.int("first_flags", 0, c.MAXN)
    table = S.blob("samples_table", ln=n * e) if e else b""
    if e and S.symbolic and flags & 0x100:
        S.ghost_trun_sum = cuts.GhostSum(S, table, e, 0, n)
    trun = c.full(S, b"trun", tv, flags, *trun_parts(S, flags, n, off, ff, table))
    senc = c.box(S, b"senc", S.blob("senc", lo=0, hi=2 ** 20)) if extra else b""
    sgpd = c.box(S, b"sgpd", S.blob("sgpd", lo=0, hi=2 ** 20)) if extra else b""
    udta = c.box(S, b"udta", S.blob("udta", lo=0, hi=2 ** 20)) if extra else b""

    def saio_box(d):
        if saio is None:
            return b""
        ver, aux, cnt = saio
        vals = [S_off[i] + d for i in range(cnt)]
        return c.full(S, b"saio", ver, aux, auxinfo if aux else b"", S.u32(cnt),
                      *[S.u32(x) if ver == 0 else S.u64(x) for x in vals])
    S_off = [S.int("saio%d" % i, 0, (2 ** 64 if saio[0] else 2 ** 32) - 16) for i in range(saio[2])] if saio else []
    auxinfo = S.blob("auxinfo", ln=8) if saio and saio[1] else b""
    payload = S.blob("payload", lo=0, hi=2 ** 30)
    sx = b""
    if sidx is not None:
        sx = c.full(S, b"sidx", sidx, 0, S.blob("sidx", lo=24, hi=2 ** 16))

    def moof(seq, tfd, troff, d):
        trun_ = c.full(S, b"trun", tv, flags, *trun_parts(S, flags, n, troff, ff, table))
        traf = c.box(S, b"traf", tfhd, tfd, senc, saio_box(d), trun_, sgpd)
        return c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(seq)), udta, traf)
    mdat = c.box(S, b"mdat", payload)
    x0, x1, x2 = top_extra if extra else (b"", b"", b"")
    seg = S.cat(styp, x0, sx, moof(seq0, c.full(S, b"tfdt", tver, tflags, S.u32(t0) if tver == 0 else S.u64(t0)), off, 0),
                x1, mdat, x2)
    out, N, shift = serve(S, seg)
    t1 = t0 + shift
    S.assume(t1 < 2 ** 64)
    grow = 0
    if tver == 0 and t1 >= 2 ** 32:
        grow = 4
        tfd = c.full(S, b"tfdt", 1, tflags, S.u64(t1))
    else:
        tfd = c.full(S, b"tfdt", tver, tflags, S.u32(t1) if tver == 0 else S.u64(t1))
    S.check("the segment is served", c.served(S, out))
    want = S.cat(styp, x0, moof(N, tfd, off + grow, grow), x1, mdat, x2)
    got = out.value
    S.check("the media data is untouched and the size is as expected", S.len(got) == S.len(want))
    S.check("number, decode time and offsets are rewritten and nothing else changes", S.eq(got, want))


def multi(S):
    """Several movie fragments in one segment, with any widths of the decode times and one or two runs each: every
    fragment gets the number and the shift, and its own offsets follow if its own decode time is widened."""
    want_parts, src = [], []
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN)
    shift = (N // v.nr) * v.D * v.nr * v.ts["video"]
    for i, (ver, runs, aux) in enumerate(S.variant):
        t = S.int("vod_t%d" % i, 0, c.MAXN if ver == 0 else 2 ** 60, near=(2 ** 32 - 1 - shift, 2 ** 32 - shift))
        p = S.blob("payload%d" % i, lo=0, hi=2 ** 30)
        d = [S.int("off%d_%d" % (i, k), -2 ** 31, 2 ** 31 - 8, typ=(0, 100, 2000)) for k in range(runs)]
        sa = S.int("saio_%d" % i, 0, 2 ** 32 - 8)
        x = c.box(S, b"abcd", S.blob("x%d" % i, lo=0, hi=2 ** 20)) if aux else b""
        seq = S.int("seq%d" % i, 0, c.MAXN)

        def frag(seq, ver, t, grow):
            truns = [c.full(S, b"trun", 0, 1, S.u32(0), s32(S, o + grow)) for o in d]
            saio = c.full(S, b"saio", 0, 0, S.u32(1), S.u32(sa + grow)) if aux else b""
            traf = c.box(S, b"traf", c.full(S, b"tfhd", 0, 0x20000, S.u32(1)), c.tfdt(S, ver, t), saio, *truns)
            return S.cat(c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(seq)), traf), x, c.box(S, b"mdat", p))
        src.append(frag(seq, ver, t, 0))
        wide = ver == 0 and t + shift >= 2 ** 32
        want_parts.append(frag(N, 1 if wide else ver, t + shift, 4 if wide else 0))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), S.cat(*src))
    out = c.fetch_media(S, ["c", "V1", S.fmt("%d.m4s", N)], (N + 1) * v.D)
    S.check("the segment is served", c.served(S, out))
    S.check("every fragment is rewritten alike", S.eq(out.value, S.cat(*want_parts)))


MULTI = [((1, 1, False),), ((1, 1, False), (1, 1, False)), ((1, 1, False), (1, 1, True), (1, 1, False)),
         ((0, 1, True), (1, 1, False)), ((0, 2, False), (0, 1, True)), ((1, 1, True), (0, 1, False), (1, 2, True)),
         ((0, 1, False), (0, 1, False), (0, 2, True))]
ALL = [a + b for a in (0, 1, 4, 5) for b in range(0, 0x1000, 0x100)]
MIX = [0, 1, 0x101, 0x301, 0x705, 0xf01, 0xb05, 0x204]
VARIANTS = [(None, 0, False, None, MIX, 0), (0, 0, True, None, MIX[1:4], 0), (1, 1, False, None, MIX[3:6], 1),
            (None, 1, True, (0, 0, 1), MIX[1:4], 0), (None, 0, True, (1, 0, 2), MIX[2:5], 1),
            (None, 0, False, (0, 1, 2), MIX[4:7], 0), (0, 1, True, (1, 1, 1), MIX[1:3], 1),
            (1, 0, False, (0, 0, 0), MIX[5:], 0)] + [
                (None, 0, False, None, ALL[k:k + 8], (k // 8) % 2) for k in range(0, 64, 8)]
HARNESSES = [
    Harness("rewrite", rewrite, variants=VARIANTS, n_random=60, budget=150, functions=FUNCS, cuts=cuts.TRUN),
    Harness("multi", multi, variants=MULTI, slow=MULTI[-1:], n_random=60, budget=100, functions=FUNCS),
]
