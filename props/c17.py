"""C17: subtitle segments are retimed by exactly the shift of the segment and stay well formed."""
from pyvc.harness import Harness
from props import common as c
from props import cuts

FUNCS = ["dashlib/ttml_timing_offset.py:adjust_ttml_content",
         "dashlib/mediasegmentfilter.py:MediaSegmentFilter.__init__,find_and_process_mdat,update_ttml_mdat,"
         "process_tfhd,process_tfdt,process_trun,process_mfhd,process_styp",
         "dashlib/mp4filter.py:MP4Filter.filter,filter_box", "dashlib/dash_proxy.py:get_media,filter_media_segment"]


class Doc(object):
    "A subtitle document, as stored and as it has to be delivered with media time moved by `shift` s as segment N."

    def __init__(self, S, shift, N):
        self.S, self.shift, self.N = S, shift, N
        self.src, self.want = b"", b""
        self.k = 0

    def same(self, *ps):
        for p in ps:
            self.src, self.want = self.S.cat(self.src, p), self.S.cat(self.want, p)

    def both(self, a, b):
        self.src, self.want = self.S.cat(self.src, self.S.enc(a)), self.S.cat(self.want, self.S.enc(b))

    def text(self):
        self.k += 1
        self.same(self.S.clean("text%d" % self.k))

    def hms(self):
        S = self.S
        self.k += 1
        h = S.int("h%d" % self.k, 0, 99, typ=(0, 1, 23, 99))
        m = S.int("m%d" % self.k, 0, 59, typ=(0, 59))
        s = S.int("s%d" % self.k, 0, 59, typ=(0, 1, 59))
        return S.fmt("%02d:%02d:%02d", h, m, s), 3600 * h + 60 * m + s + self.shift

    def time(self, attr, tail='"'):
        "A timing attribute; what follows the seconds is kept."
        S = self.S
        a, t = self.hms()
        self.both('%s="%s%s' % (attr, a, tail),
                  '%s="%s%s' % (attr, S.fmt("%02d:%02d:%02d", t // 3600, t % 3600 // 60, t % 60), tail))

    def wall(self, lang, frac=""):
        "The clock text of the test content becomes the instant in UTC."
        a, t = self.hms()
        self.both("%s : %s%s" % (lang, a, frac), "%s : UTC = %s" % (lang, self.S.utc(t)))

    def number(self):
        self.k += 1
        n = self.S.int("vod_nr%d" % self.k, 0, None, typ=(0, 1, 9, 10, 123))
        self.both(self.S.fmt("Segment # %d", n), self.S.fmt("Segment # %d", self.N))


def layout(d, kind):
    if kind == "plain":
        d.text()
    elif kind == "one":
        d.text()
        d.same(b'<p xml:id="sub-7" ')
        d.time("begin")
        d.same(b" ")
        d.time("end")
        d.text()
    elif kind == "fraction":
        d.text()
        d.same(b'<p dur="00:00:10.000" ')
        d.time("begin", d.S.choice("tail", ['.250"', '.5"', ':12"', '.123456"']))
        d.same(b" ")
        d.time("end", '.999"')
        d.text()
    elif kind == "clock":
        d.text()
        d.same(b"<p>")
        d.wall("eng", d.S.choice("decimals", [".000", ".5", ".25", ".123456"]))
        d.text()
        d.same(b"<p>")
        d.wall("swe")
        d.text()
    elif kind == "number":
        d.text()
        d.number()
        d.text()
    elif kind == "all":
        d.same(b'<?xml version="1.0" encoding="UTF-8"?><tt ttp:timeBase="media" xml:lang="eng"')
        d.text()
        d.same(b'<p style="s0" ')
        d.time("begin", '.000"')
        d.same(b" ")
        d.time("end", '.500"')
        d.same(b'><span xml:id="12:34:56">')
        d.wall("eng", ".000")
        d.text()
        d.same(b" 4:3 01:02:03 (1:99) ")
        d.number()
        d.same(b"</span></p>")
        d.text()
        d.same("\u00e5\u4e2d 00:00:00".encode("utf-8"))
        d.same(b"</tt>")


def ttml(S):
    kind, tver, flags, hflags, styp = S.variant
    v = c.vod(S, media=("video", "subtitles"))
    N = S.int("N", 0, c.MAXN)
    loops = N // v.nr
    shift = loops * v.D * v.nr
    S.assume(shift < 200000000000)                      # four-digit years
    d = Doc(S, shift, N)
    layout(d, kind)
    t0 = S.int("vod_t", 0, c.MAXN if tver == 0 else 2 ** 60)
    t1 = t0 + shift * v.ts["subtitles"]
    S.assume(t1 < 2 ** 64)
    seq = S.int("vod_seq", 0, c.MAXN)
    dur = S.int("sample_dur", 0, c.MAXN)
    off = S.int("data_offset", 0, 2 ** 31 - 16, typ=(0, 100, 120))
    n_src, n_want = S.len(d.src), S.len(d.want)
    S.assume(S.And(n_src < 2 ** 30, n_want < 2 ** 30))
    grow = 4 if tver == 0 and t1 >= 2 ** 32 else 0

    def segment(doc, n, seq, tfd, off):
        h = [S.u32(7)]
        if hflags & 2:
            h.append(S.u32(1))
        h.append(S.u32(dur))
        h.append(S.u32(n))
        if hflags & 0x20:
            h.append(S.u32(0x2000000))
        r = [S.u32(1), S.u32(off)]
        if flags & 0x100:
            r.append(S.u32(dur))
        if flags & 0x200:
            r.append(S.u32(n))
        if flags & 0x400:
            r.append(S.u32(0))
        traf = c.box(S, b"traf", c.full(S, b"tfhd", 0, hflags, *h), tfd, c.full(S, b"trun", 0, flags, *r))
        moof = c.box(S, b"moof", c.full(S, b"mfhd", 0, 0, S.u32(seq)), traf)
        st = c.box(S, b"styp", b"msdh", S.u32(0), b"msdh") if styp else b""
        return S.cat(st, moof, c.box(S, b"mdat", doc))
    S.file(S.fmt("vod/c/S1/%d.m4s", v.first + N % v.nr), segment(d.src, n_src, seq, c.tfdt(S, tver, t0), off))
    ast = S.int("start_segs", 0, 2 ** 31, typ=(0, 1, 100)) * v.D      # media time does not depend on the start
    out = c.fetch_media(S, [S.fmt("start_%d", ast), "c", "S1", S.fmt("%d.m4s", N)], ast + (N + 1) * v.D)
    S.check("the subtitle segment is served", c.served(S, out))
    tfd = c.tfdt(S, 1 if grow else tver, t1)
    want = segment(d.want, n_want, N, tfd, off + grow)
    S.check("the sizes agree with the new text", S.len(out.value) == S.len(want))
    S.check("times are moved with the segment, the number is the live one, nothing else changes",
            S.eq(out.value, want))


KINDS = ("plain", "one", "fraction", "clock", "number", "all")
HEADS = [(0, 0x1, 0x20038, True), (1, 0x1, 0x20018, False), (0, 0x301, 0x2001a, True), (1, 0x701, 0x3003a, True)]
VARIANTS = [(k,) + HEADS[i % 4] for i, k in enumerate(KINDS)] + [(k,) + HEADS[(i + j) % 4] for j in (1, 2, 3)
                                                                for i, k in enumerate(KINDS)]
HARNESSES = [
    Harness("ttml", ttml, variants=VARIANTS, slow=VARIANTS[8:], n_random=60, budget=60, functions=FUNCS),
]
