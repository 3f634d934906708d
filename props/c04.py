"""C04: the last segment of a session, and no other, is marked with the 'lmsg' brand."""
from pyvc.harness import Harness
from props import common as c

FUNCS = ["dashlib/mediasegmentfilter.py:MediaSegmentFilter.process_styp,__init__", "dashlib/mp4filter.py:MP4Filter.filter",
         "dashlib/dash_proxy.py:process_media_segment,filter_media_segment",
         "dashlib/configprocessor.py:Config.process_start_time,Config.update_with_modulo_period"]
LMSG = 0x6c6d7367


def styp_brands(S, data):
    "The four-byte words after the major brand, or None when there is no styp first."
    bs = c.walk(S, data)
    if not bs or bs[0][0] != b"styp":
        return None
    body = bs[0][2]
    n = S.len(body)
    out, pos = [], 0
    while pos < n:
        out.append(body[pos:pos + 4])
        pos += 4
        if len(out) > 20:
            return None
    return out


def brands(S):
    "A segment with any major brand, minor version and up to three compatible brands, marked or not in the VoD."
    nbr = S.variant
    v = c.vod(S)
    D = v.D
    start = S.int("start", 0, 2 ** 32, typ=(0, 6, 1000, 1500000000))
    dur = S.int("dur", 0, 2 ** 32, typ=(0, 10, 60, 61, 3600))
    snr = S.int("snr", -1, None, typ=(-1, 0, 1, 7))
    first = S.ite(snr == -1, 1, snr)
    ast = start // D * D
    last = first + ((start + dur) // D * D - ast) // D - 1
    N = S.int("N", 0, c.MAXN, near=(last, last - 1, first))
    S.assume(N >= first)
    words = [S.u32(S.int("w%d" % i, 0, c.MAXN, typ=(LMSG, 0x6d736478, 0))) for i in range(nbr)]
    major = S.int("major", 0, c.MAXN, typ=(0x6d736468,))
    S.assume(major != LMSG)
    minor = S.int("minor", 0, c.MAXN, typ=(0, 1))
    S.assume(minor != LMSG)
    rest = c.small_segment(S, S.int("t", 0, 2 ** 60), payload=S.blob("payload", lo=0, hi=2 ** 30), styp=False)
    src = S.cat(c.box(S, b"styp", S.u32(major), S.u32(minor), *words), rest)
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + (N - first) % v.nr), src)
    out = c.fetch_media(S, [S.fmt("start_%d", start), S.fmt("dur_%d", dur), S.fmt("snr_%d", snr), "c", "V1",
                            S.fmt("%d.m4s", N)], ast + (N - first + 1) * D)
    S.check("segments up to the last one are served, later ones are not", S.iff(c.served(S, out), N <= last))
    if not c.served(S, out):
        return
    got = styp_brands(S, out.value)
    S.check("the segment type box is kept", got is not None and len(got) >= 2)
    S.check("the major brand and the minor version are kept",
            S.And(S.unum(got[0]) == major, S.unum(got[1]) == minor))
    got = got[2:]
    keep = [w for w in words if not (w == b"lmsg")]
    want = keep + ([b"lmsg"] if N == last else [])
    S.check("lmsg is there exactly for the last segment, the other brands are kept",
            len(want) == len(got) and S.And(*[S.eq(a, b) for a, b in zip(got, want)]))


def endless(S):
    "A session without an end never marks a segment."
    v = c.vod(S)
    N = S.int("N", 0, c.MAXN)
    w = S.u32(S.int("w", 0, c.MAXN, typ=(LMSG, 1)))
    src = S.cat(c.box(S, b"styp", b"msdh", S.u32(0), w), c.small_segment(S, 0, styp=False))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), src)
    out = c.fetch_media(S, ["c", "V1", S.fmt("%d.m4s", N)], (N + 1) * v.D)
    S.check("the segment is served", c.served(S, out))
    got = styp_brands(S, out.value)
    S.check("the segment type box is kept", got is not None)
    S.check("no segment of an endless session is marked", S.And(*[S.Not(S.eq(b, b"lmsg")) for b in got]))


def several(S):
    "Several durations: only the very last segment of the session is marked; styp marked or not in the VoD."
    v = c.vod(S)
    D = v.D
    start = S.int("start", 0, 2 ** 32, typ=(0, 6, 1000, 1500000000))
    ast = start // D * D
    durs = [S.int("dur%d" % i, 0, 2 ** 32, typ=(10, 30, 61)) for i in range(S.variant)]
    total = sum(durs)
    last = ((start + total) // D * D - ast) // D - 1
    N = S.int("N", 0, c.MAXN, near=(last, last - 1, durs[0] // D - 1))
    S.file(S.fmt("vod/c/V1/%d.m4s", v.first + N % v.nr), c.small_segment(S, 0))
    out = c.fetch_media(S, [S.fmt("start_%d", start)] + [S.fmt("dur_%d", d) for d in durs] +
                        ["c", "V1", S.fmt("%d.m4s", N)], ast + (N + 1) * D)
    S.check("served up to the last one", S.iff(c.served(S, out), N <= last))
    if c.served(S, out):
        got = styp_brands(S, out.value)
        S.check("marked exactly when it is the last", S.iff(S.eq(got[-1], b"lmsg"), N == last))


HARNESSES = [
    Harness("brands", brands, variants=(0, 1, 2, 3), n_random=250, budget=150, functions=FUNCS,
            assumes=["the simulator reads the minor version of a styp box as a brand; it is assumed not to spell 'lmsg'"]),
    Harness("endless", endless, n_random=100, budget=60, functions=FUNCS),
    Harness("several", several, variants=(2, 3), n_random=200, budget=100, functions=FUNCS),
]
