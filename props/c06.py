"""C06: multiplexing two representations."""
from pyvc.harness import Harness
from props import common as c
from props import cuts

FUNCS = ["dashlib/segmentmuxer.py:*", "dashlib/dash_proxy.py:process_init_segment,process_media_segment", "dashlib/initsegmentfilter.py:InitLiveFilter.*",
         "dashlib/configprocessor.py:Config.update_with_reps,VodConfig.content_type_for_rep"]


def track(S, k, flags, tver, extra, more):
    "One single-track VoD segment. Returns (build(seq, time, offset) -> (traf, mfhd), payload, t0, ...)."
    tfhd = c.full(S, b"tfhd", 0, 0x20000, S.u32(S.int("track%d" % k, 1, c.MAXN)))
    n = S.int("samples%d" % k, 0, 2 ** 16, typ=(0, 1, 2, 7), gmax=20)
    e = 4 * sum(1 for b in (0x100, 0x200, 0x400, 0x800) if flags & b)
    table = S.blob("table%d" % k, ln=n * e) if e else b""
    ff = S.u32(S.int("ff%d" % k, 0, c.MAXN)) if flags & 4 else b""
    senc = c.box(S, b"senc", S.blob("senc%d" % k, lo=0, hi=2 ** 16)) if extra else b""
    sgpd = c.box(S, b"sgpd", S.blob("sgpd%d" % k, lo=0, hi=2 ** 16)) if extra else b""
    pssh = c.box(S, b"pssh", S.blob("pssh%d" % k, lo=0, hi=2 ** 16)) if extra else b""
    uuid = c.box(S, b"uuid", S.blob("uuid%d" % k, lo=0, hi=2 ** 16)) if extra else b""
    payload = S.blob("payload%d" % k, lo=0, hi=2 ** 28)
    t0 = S.int("t%d" % k, 0, c.MAXN if tver == 0 else 2 ** 60)

    # further runs of the same track, each with its own data offset and no entries of its own fields
    rest = [S.int("rest%d_%d" % (k, i), 0, 2 ** 28, typ=(0, 4, 100)) for i in range(more)]

    def traf(t, ver, off):
        trun = c.full(S, b"trun", 0, flags, S.u32(n), S.u32(off) if flags & 1 else b"", ff, table)
        truns = [c.full(S, b"trun", 0, 1, S.u32(i), S.u32(off + d)) for i, d in enumerate(rest)]
        return c.box(S, b"traf", tfhd, senc, c.tfdt(S, ver, t), trun, *(truns + [sgpd]))
    if S.symbolic and flags & 0x100:
        # one ghost sum per run: identified by its table
        S.ghost_trun_sums = getattr(S, "ghost_trun_sums", []) + [(table, cuts.GhostSum(S, table, e, 0, n))]
    return traf, payload, t0, pssh, uuid


def media(S):
    f1, f2, v1, v2, extra, styp, more = S.variant
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN)
    first, second = S.choice("order", [("V1", "A1"), ("A1", "V1")])
    media_of = {"V1": "video", "A1": "audio"}
    shift = (N // v.nr) * v.D * v.nr
    parts = []
    for k, (rep, flags, tver) in enumerate(((first, f1, v1), (second, f2, v2))):
        traf, payload, t0, pssh, uuid = track(S, k, flags, tver, extra, more[k])
        d = S.int("pos%d" % k, 0, None, typ=(0, 0, 5))        # where in the payload the samples start
        S.assume(d <= S.len(payload))
        st = c.box(S, b"styp", b"msdh", S.u32(0), S.u32(k)) if styp else b""
        ev = c.box(S, b"emsg", S.blob("emsg%d" % k, lo=12, hi=2 ** 16)) if extra and (k or styp) else b""
        if extra and k:                         # one track with two events
            ev = S.cat(ev, c.box(S, b"emsg", S.blob("second_emsg", lo=12, hi=2 ** 16)))
        mlen = 8 + 16 + S.len(pssh) + S.len(traf(0, tver, 0)) + S.len(uuid)
        seq = S.int("seq%d" % k, 0, c.MAXN)

        def mfhd(n):
            return c.full(S, b"mfhd", 0, 0, S.u32(n))
        src = S.cat(st, ev, c.box(S, b"moof", mfhd(seq), pssh, traf(t0, tver, mlen + 8 + d), uuid), c.box(S, b"mdat", payload))
        S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + N % v.nr), src)
        t1 = t0 + shift * v.ts[media_of[rep]]
        S.assume(t1 < 2 ** 64)
        ver = 1 if (tver == 1 or t1 >= 2 ** 32) else 0
        parts.append((traf, payload, t1, ver, d, st, S.cat(pssh, uuid), ev))
    out = c.fetch_media(S, ["c", first + "__" + second, S.fmt("%d.m4s", N)], (N + 1) * v.D)
    S.check("the multiplexed segment is served", c.served(S, out))
    (tr1, p1, t1, ver1, d1, st1, other1, ev1), (tr2, p2, t2, ver2, d2, _, other2, ev2) = parts
    mlen = 8 + 16 + S.len(other1) + S.len(other2) + S.len(tr1(0, ver1, 0)) + S.len(tr2(0, ver2, 0))
    o1 = mlen + 8 + d1
    o2 = mlen + 8 + S.len(p1) + d2
    want = S.cat(st1, ev1, ev2, c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(N)), other1, other2, tr1(t1, ver1, o1), tr2(t2, ver2, o2)),
                 c.box(S, b"mdat", p1, p2))
    S.check("same size", S.len(out.value) == S.len(want))
    S.check("one fragment with both tracks; offsets point at each track's own samples", S.eq(out.value, want))


def fragments(S):
    "Of segments with several fragments, too, every fragment of both tracks is there, in order, as served separately."
    n1, n2, tver, extra = S.variant
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN)
    first, second = S.choice("order", [("V1", "A1"), ("A1", "V1")])
    for k, (rep, n) in enumerate(((first, n1), (second, n2))):
        out = [c.box(S, b"styp", b"msdh", S.u32(0), S.u32(k))]
        if extra:
            out.append(c.box(S, b"emsg", S.blob("emsg%d" % k, lo=12, hi=2 ** 16)))
        for f in range(n):
            key = "%d_%d" % (k, f)
            t = S.int("t" + key, 0, c.MAXN if tver == 0 else 2 ** 60)
            payload = S.blob("payload" + key, lo=1, hi=2 ** 24)
            flags = S.int("sample_flags" + key, 0, c.MAXN)
            moof = lambda off: c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(f)), c.box(
                S, b"traf", c.full(S, b"tfhd", 0, 0x20000, S.u32(k + 1)), c.tfdt(S, tver, t),
                c.full(S, b"trun", 0, 0x701, S.u32(1), S.u32(off), S.u32(100), S.u32(S.len(payload)), S.u32(flags))))
            out += [moof(S.len(moof(0)) + 8), c.box(S, b"mdat", payload)]
        S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + N % v.nr), S.cat(*out))
    get = lambda rep: c.fetch_media(S, ["c", rep, S.fmt("%d.m4s", N)], (N + 1) * v.D)
    outs = [get(first), get(second), get(first + "__" + second)]
    S.check("all three are served", S.And(*[c.served(S, o) for o in outs]))
    one, two, both = [c.walk(S, o.value) for o in outs]
    S.check("all three are well formed", one is not None and two is not None and both is not None)
    head = [w for t, w, _ in one if t in (b"styp", b"emsg")] + [w for t, w, _ in two if t == b"emsg"]
    S.check("type of the first and events of both come first", S.eq(S.cat(*[w for _, w, _ in both[:len(head)]]), S.cat(*head)))
    media = both[len(head):]
    S.check("then there are fragments with their media", [t for t, _, _ in media] == [b"moof", b"mdat"] * (n1 + n2))
    tracks = {1: [], 2: []}
    for (_, moof, body), (_, mdat, _) in zip(media[::2], media[1::2]):
        kids = c.walk(S, body)
        S.check("a fragment is of one track", kids is not None and [t for t, _, _ in kids] == [b"mfhd", b"traf"])
        ident = S.unum(kids[1][2][12:16])
        S.check("which is one of the two", S.Or(ident == 1, ident == 2))
        tracks[1 if ident == 1 else 2] += [moof, mdat]
    for k, alone in ((1, one), (2, two)):
        want = [w for t, w, _ in alone if t in (b"moof", b"mdat")]
        S.check("every fragment is there, in order, as served separately",
                len(want) == len(tracks[k]) and bool(want) and S.eq(S.cat(*want), S.cat(*tracks[k])))


def init(S):
    "ftyp and movie header of the first, both tracks and both track defaults, in order, with the durations of a live session."
    c.vod(S)
    first, second = S.choice("order", [("V1", "A1"), ("A1", "V1")])
    more, ver = S.variant
    live = []
    for k, rep in enumerate((first, second)):
        ftyp = c.box(S, b"ftyp", S.blob("ftyp%d" % k, lo=8, hi=100))
        w = (S.u32, 12, 16) if ver == 0 else (S.u64, 20, 24)
        top = 2 ** 32 - 1 if ver == 0 else 2 ** 64 - 1
        durs = [S.int("%s_dur%d" % (n, k), 0, top) for n in ("movie", "track", "media")]
        bl = [S.blob("mvhd%d" % k, ln=w[1]), S.blob("mvhd_rest%d" % k, ln=80), S.blob("tkhd%d" % k, ln=w[2]), S.blob("tkhd_rest%d" % k, ln=60),
              S.blob("mdhd%d" % k, ln=w[1]), S.blob("mdhd_rest%d" % k, ln=4), S.blob("rest%d" % k, lo=8, hi=2 ** 20)]
        trex = c.full(S, b"trex", 0, 0, S.blob("trex%d" % k, ln=20))
        other = c.box(S, b"udta", S.blob("udta%d" % k, lo=0, hi=2 ** 10)) if more else b""
        mvex = c.box(S, b"mvex", trex)

        def boxes(dm, dt, dd):
            mvhd = c.full(S, b"mvhd", ver, 0, bl[0], w[0](dm), bl[1])
            mdia = c.box(S, b"mdia", c.full(S, b"mdhd", ver, 0, bl[4], w[0](dd), bl[5]), c.box(S, b"minf", bl[6]))
            return mvhd, c.box(S, b"trak", c.full(S, b"tkhd", ver, 7, bl[2], w[0](dt), bl[3]), mdia)
        mvhd, trak = boxes(*durs)
        order = [mvhd, mvex, trak, other] if k == 0 else [mvhd, other, trak, mvex]
        S.file("vod/c/%s/init.mp4" % rep, S.cat(ftyp, c.box(S, b"moov", *order)))
        live.append((ftyp, trex) + boxes(0, 0, 0))
    out = c.fetch_init(S, ["c", first + "__" + second, "init.mp4"], S.int("now", 0, None, typ=(0, 1500000000)))
    S.check("the multiplexed initialization segment is served", c.served(S, out))
    (f1, x1, m1, k1), (f2, x2, m2, k2) = live
    want = S.cat(f1, c.box(S, b"moov", m1, c.box(S, b"mvex", x1, x2), k1, k2))
    S.check("same size", S.len(out.value) == S.len(want))
    S.check("file type and movie header of the first, defaults and tracks of both", S.eq(out.value, want))


def gate(S):
    "A multiplexed segment obeys the same availability window as its parts."
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN)
    snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
    first = S.ite(snr == -1, 1, snr)
    avail = (N - first + 1) * v.D
    now = S.real("now", 0, None, near=(avail, avail + v.D + v.tsbd))
    for rep in ("V1", "A1"):
        S.file(S.fmt("vod/c/" + rep + "/%d.m4s", v.first + (N - first) % v.nr), c.small_segment(S, 0))
    out = c.fetch_media(S, [S.fmt("snr_%d", snr), "c", "V1__A1", S.fmt("%d.m4s", N)], now)
    inside = S.And(N >= first, now >= avail, now <= avail + v.D + v.tsbd)
    S.check("served exactly inside the window", S.iff(c.served(S, out), inside))
    S.check("refused outside", S.iff(c.refused(out), S.Not(inside)))


VARS = [(0x1, 0x1, 1, 1, False, True, (0, 2)), (0x301, 0x201, 0, 1, True, True, (0, 0)), (0xf01, 0x701, 1, 0, False, False, (1, 0)),
        (0x205, 0xb05, 0, 0, True, True, (0, 0)), (0x5, 0x301, 0, 0, False, True, (1, 1)), (0x701, 0x605, 1, 1, True, False, (0, 0))]
HARNESSES = [
    Harness("media", media, variants=VARS, n_random=60, budget=150, functions=FUNCS, cuts=cuts.TRUN),
    Harness("fragments", fragments, variants=((2, 1, 1, False), (1, 2, 0, True), (2, 2, 1, True), (3, 2, 1, False)), n_random=60, budget=60,
            functions=FUNCS, bounded="up to three fragments"),
    Harness("init", init, variants=((False, 0), (True, 1), (True, 0)), n_random=80, budget=100, functions=FUNCS),
    Harness("gate", gate, n_random=200, budget=100, functions=FUNCS),
]
