"""Shared building blocks of the harnesses: VoD configuration, URL, provider and box builders.

All values may be symbolic.  Text and bytes built here are *inputs* of the code under contract."""

HOST = "sim.example.org:8080"
PREFIX = "livesim"


class Vod(object):
    "The VoD content as the simulator is configured with it."

    def __init__(self, D, first, nr, tsbd, ts, reps):
        self.D, self.first, self.nr, self.tsbd, self.ts, self.reps = D, first, nr, tsbd, ts, reps


REPS = {"video": ["V1", "V2", "A1V", "S1V", "T1V"], "audio": ["A1"], "subtitles": ["S1"], "image": ["T1"]}   # one name in another


MAXN = 2 ** 32 - 1        # mfhd.sequence_number is 32 bits


# Options that concern the MPD only: whatever they are, segments are served as without them.
UNRELATED = [["utc_direct-ntp", "spd_10", "mup_30", "sts_1500000000", "sid_x"], ["segtimeline_1"], ["segtimelinenr_1", "spd_1"],
             ["periods_60", "continuous_1", "segtimeline_1"], ["periods_20", "xlink_10", "insertad_1"],
             ["periods_10", "etp_5", "etpDuration_20", "mpdcallback_2", "peroff_1"], ["xlink_5", "periods_5", "segtimelinenr_1"],
             ["segtimelineloss_1", "segtimeline_1"], ["init_30", "mup_0"], ["periods_0", "utc_head"]]


def vod(S, name="c", media=("video", "audio"), version="1.0", D=None, nr=None, first=None, tsbd=None, ts=None,
        total=None, max_dur=60, conc_D=None):
    """Write the content's .cfg file with arbitrary (documented-range) values and return them."""
    if D is None:
        D = S.int("seg_dur", 1, max_dur, typ=(1, 2, 4, 6, 8, 10))
    if first is None:
        first = S.int("first_seg", 0, None, typ=(0, 1, 5))
    if nr is None:
        nr = S.int("nr_segs", 1, None, typ=(1, 2, 3, 10, 600))
    if tsbd is None:
        tsbd = S.int("default_tsbd", 0, None, typ=(0, 10, 300))
    tss = dict(ts or {})
    for m in media:
        if m not in tss:
            tss[m] = S.int("ts_" + m, 1, 2 ** 26, typ=(1, 1000, 48000, 90000, 10000000))
    lines = ["[General]", "version = %s" % version, "", "[Setup]",
             S.fmt("default_tsbd_secs = %d", tsbd), S.fmt("segment_duration_s = %d", D),
             S.fmt("nr_segments_in_loop = %d", nr), S.fmt("first_segment_in_loop = %d", first), ""]
    for m in media:
        lines += ["[%s]" % m, "representations = %s" % ",".join(REPS[m]), S.fmt("timescale = %d", tss[m])]
        if version == "1.1":
            lines += [S.fmt("total_duration = %d", total[m]), "dat_file = %s_%s.dat" % (name, m)]
        lines.append("")
    S.file("cfg/%s.cfg" % name, "\n".join(lines))
    return Vod(D, first, nr, tsbd, tss, REPS)


def provider(S, parts, now, https=0):
    "The real provider for a request with the given URL parts (after the host)."
    dp = S.mod("dashlib.dash_proxy")
    return dp.createProvider(HOST, [PREFIX] + list(parts), None, S.root + "/cfg", S.root + "/vod", now, None, https)


def fetch_media(S, parts, now, chunk=False):
    dp = S.mod("dashlib.dash_proxy")

    def go():
        return dp.get_media(provider(S, parts, now), chunk)
    return S.call(go)


def fetch_init(S, parts, now):
    dp = S.mod("dashlib.dash_proxy")

    def go():
        return dp.get_init(provider(S, parts, now))
    return S.call(go)


def fetch_mpd(S, parts, now):
    mp = S.mod("dashlib.mpd_proxy")

    def go():
        return mp.get_mpd(provider(S, parts, now))
    return S.call(go)


def refused(out):
    "The request was answered with an error response."
    return out.ok and isinstance(out.value, dict) and out.value.get("ok") is False


def served(S, out):
    return out.ok and not isinstance(out.value, dict)


def box(S, typ, *content):
    body = S.cat(*content) if content else b""
    return S.cat(S.u32(S.len(body) + 8), typ, body)


def full(S, typ, version, flags, *content):
    return box(S, typ, S.u32(version * 16777216 + flags), *content)


def tfdt(S, version, t):
    return full(S, b"tfdt", version, 0, S.u32(t) if version == 0 else S.u64(t))


def small_segment(S, t, ver=1, seq=0, payload=b"", styp=True, dur=None):
    "A media segment with one empty run: enough to observe number, decode time and payload."
    trun = full(S, b"trun", 0, 0, S.u32(0))
    traf = box(S, b"traf", full(S, b"tfhd", 0, 0x20000, S.u32(1)), tfdt(S, ver, t), trun)
    moof = box(S, b"moof", full(S, b"mfhd", 0, 0, S.u32(seq)), traf)
    st = box(S, b"styp", b"msdh", S.u32(0), b"msdh") if styp else b""
    return S.cat(st, moof, box(S, b"mdat", payload))


def walk(S, data, path=()):
    """Boxes directly inside `data` as (type, whole box, body); None when sizes are not consistent."""
    out = []
    pos = 0
    n = S.len(data)
    k = 0
    while pos < n:
        k += 1
        if k > 60:
            return None
        if n - pos < 8:
            return None
        sz = S.unum(data[pos:pos + 4])
        if sz < 8 or sz > n - pos:
            return None
        b = data[pos:pos + sz]
        out.append((data[pos + 4:pos + 8], b, b[8:]))
        pos = pos + sz
    return out


def find(S, data, *path):
    "First box with the given path of types (body), or None."
    cur = data
    for t in path:
        bs = walk(S, cur)
        if bs is None:
            return None
        for typ, whole, body in bs:
            if typ == t:
                cur = body
                break
        else:
            return None
    return cur


def find_all(S, data, t):
    bs = walk(S, data)
    return None if bs is None else [(w, b) for (ty, w, b) in bs if ty == t]


def media_facts(S, data):
    "(sequence number, decode time, payload) of a single-fragment media segment."
    mfhd = find(S, data, b"moof", b"mfhd")
    td = find(S, data, b"moof", b"traf", b"tfdt")
    md = find(S, data, b"mdat")
    if mfhd is None or td is None or md is None:
        return None
    v = S.unum(td[0:1])
    t = S.unum(td[4:8]) if v == 0 else S.unum(td[4:12])
    return S.unum(mfhd[4:8]), t, md


# ---- MPD -----------------------------------------------------------------------------------------

NS = "{urn:mpeg:dash:schema:mpd:2011}"
_AS = {
    "video": '<AdaptationSet contentType="video" mimeType="video/mp4" segmentAlignment="true" startWithSAP="1">%s'
             '<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>'
             '<SegmentTemplate startNumber="1" initialization="$RepresentationID$/init.mp4" duration="%s" '
             'media="$RepresentationID$/$Number$.m4s"%s/>'
             '<Representation id="V1" codecs="avc1.64001e" width="640" height="360" frameRate="60/2" bandwidth="300000"/>'
             '<Representation id="V2" codecs="avc1.64001e" width="320" height="180" bandwidth="100000"/></AdaptationSet>',
    "audio": '<AdaptationSet contentType="audio" mimeType="audio/mp4" lang="eng" segmentAlignment="true">%s'
             '<SegmentTemplate startNumber="1" initialization="$RepresentationID$/init.mp4" duration="%s" '
             'media="$RepresentationID$/$Number$.m4s"%s/>'
             '<Representation id="A1" codecs="mp4a.40.2" audioSamplingRate="48000" bandwidth="48000"/></AdaptationSet>',
    "subtitles": '<AdaptationSet contentType="subtitles" mimeType="application/mp4" lang="eng">%s'
                 '<SegmentTemplate startNumber="1" initialization="$RepresentationID$/init.mp4" duration="%s" '
                 'media="$RepresentationID$/$Number$.m4s"%s/>'
                 '<Representation id="S1" codecs="stpp" bandwidth="1000"/></AdaptationSet>',
    "image": '<AdaptationSet contentType="image" mimeType="image/jpeg">%s'
             '<SegmentTemplate startNumber="1" duration="%s" media="$RepresentationID$/$Number$.jpg"%s/>'
             '<Representation id="T1" bandwidth="1000" width="6400" height="180"/></AdaptationSet>',
}
PROFILE = "urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/dash-if-simple"


def vod_mpd(S, media=("video", "audio"), name="Manifest.mpd", content="c", head="", attrs="", tmpl="", extra="",
            after="", dur="2"):
    "Write the stored VoD MPD."
    body = "".join(_AS[m] % (extra, dur, tmpl) for m in media)
    xml = ('<?xml version="1.0" encoding="utf-8"?>\n<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" '
           'mediaPresentationDuration="PT634.566S" minBufferTime="PT2.00S" profiles="%s" type="static"%s>'
           '%s<Period id="precambrian">%s</Period>%s</MPD>' % (PROFILE, attrs, head, body, after))
    S.file("vod/%s/%s" % (content, name), xml)
    return xml


def vod_mpd_d(S, v, media=("video", "audio"), **k):
    "The stored MPD as content is prepared: the template duration is that of the content's segments."
    return vod_mpd(S, media, dur=S.fmt("%d", v.D), **k)


def mpd_root(S, out):
    "Root element of the MPD response, or None when it is not a well-formed MPD."
    import xml.etree.ElementTree as ET
    if not out.ok or not isinstance(out.value, str):
        return None
    try:
        r = ET.fromstring(out.value.encode("utf-8"))
    except ET.ParseError:
        return None
    return r if r.tag == NS + "MPD" else None


def mpd_of_body(S, b):
    "Root element of an MPD delivered by the server."
    import xml.etree.ElementTree as ET
    try:
        r = ET.fromstring(b if isinstance(b, (bytes, str)) else b.decode("utf-8"))
    except (ET.ParseError, TypeError):
        return None
    return r if r.tag == NS + "MPD" else None


def templates(root):
    "[(period, adaptation set, segment template)] in document order."
    out = []
    for p in root.findall(NS + "Period"):
        for a in p.findall(NS + "AdaptationSet"):
            for t in a.findall(NS + "SegmentTemplate"):
                out.append((p, a, t))
    return out
