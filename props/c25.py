"""C25: what the stored MPD says about the content is passed on."""
from pyvc.harness import Harness
from props import common as c
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd,generate_period_data", "dashlib/mpdprocessor.py:MpdProcessor.*"]
CENC = "urn:mpeg:cenc:2013"
ALL = ("asset", "protected", "properties", "described", "metrics", "reps", "audio")
SETS = [(), ALL, ("only_video",)] + [(x,) for x in ALL] + [tuple(y for y in ALL if y != x) for x in ALL]
PROFILES = {"scte35": "http://dashif.org/guidelines/adin/app",
            "chunkdur": "http://www.dashif.org/guidelines/low-latency-live-v5"}
OWN = {
    "MPD": ("type", "profiles", "availabilityStartTime", "availabilityEndTime", "timeShiftBufferDepth", "minimumUpdatePeriod",
            "maxSegmentDuration", "mediaPresentationDuration", "suggestedPresentationDelay", "publishTime", "id"),
    "Period": ("id", "start", "duration"),
    "SegmentTemplate": ("startNumber", "presentationTimeOffset"),
}


def stored(S, tmpl_dur):
    "An MPD with everything a content provider may put in it."
    num = lambda name, hi=2 ** 32: S.fmt("%d", S.int(name, 0, hi, typ=(0, 1, 90000)))
    has = set(S.choice("content", SETS[:3] if any(o.startswith("segtimeline") for o in S.variant) else SETS))
    x = ['<?xml version="1.0" encoding="utf-8"?>\n<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" '
         'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" '
         'xsi:schemaLocation="urn:mpeg:dash:schema:mpd:2011 DASH-MPD.xsd" xmlns:cenc="%s" '
         'mediaPresentationDuration="PT634.566S" minBufferTime="PT%sS" profiles="%s" type="static">'
         % (CENC, num("buffer", 60), c.PROFILE)]
    for i in range(S.choice("infos", [0, 1, 2])):
        x.append('<ProgramInformation lang="sv"><Title>Utsikt &amp; \u00e5sikt %d</Title></ProgramInformation>' % i)
    if S.flag("has_baseurl"):
        x.append("<BaseURL>dash/</BaseURL>")
    if S.flag("has_service_description"):
        x.append('<ServiceDescription id="7"><Scope schemeIdUri="urn:x:y"/><Latency target="3500"/></ServiceDescription>')
    x.append('<Period id="the_one">')
    if "asset" in has:
        x.append('<AssetIdentifier schemeIdUri="urn:org:dashif:asset-id:2013" value="md:cid:EIDR:10.5240%2f0EFB"/>')
    x.append('<AdaptationSet contentType="video" id="%s" group="1" mimeType="video/mp4" par="16:9" maxWidth="%s" '
             'segmentAlignment="true" startWithSAP="1">' % (num("id"), num("width")))
    if "protected" in has:
        x.append('<ContentProtection schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc" '
                 'cenc:default_KID="10000000-1000-1000-1000-100000000001"/>'
                 '<ContentProtection schemeIdUri="urn:uuid:edef8ba9"><cenc:pssh>AAAAc3Bzc2gAAAAA</cenc:pssh>'
                 '</ContentProtection>')
    if "properties" in has:
        x.append('<EssentialProperty schemeIdUri="http://dashif.org/guidelines/trickmode" value="%s"/>'
                 '<SupplementalProperty schemeIdUri="urn:mpeg:dash:adaptation-set-switching:2016" value="2"/>'
                 % num("trick"))
    if "described" in has:
        x.append('<Accessibility schemeIdUri="urn:scte:dash:cc:cea-608:2015" value="CC1=eng"/>'
                 '<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/><Label>Huvudbild \u00d7 2</Label>')
    x.append('<SegmentTemplate startNumber="%s" initialization="$RepresentationID$/init.mp4" duration="%s" '
             'media="$RepresentationID$/$Number$.m4s"/>' % (num("start_number"), tmpl_dur))
    for k in range(3 if "reps" in has else 1):
        x.append('<Representation id="V%d" codecs="avc1.64001e" width="640" height="%s" frameRate="60/2" bandwidth="%s" '
                 'sar="1:1"/>' % (k + 1, num("height%d" % k), num("bandwidth%d" % k)))
    x.append("</AdaptationSet>")
    for k in range(2 if "audio" in has else 0 if "only_video" in has else 1):
        x.append('<AdaptationSet contentType="audio" mimeType="audio/mp4" lang="%s" segmentAlignment="true">'
                 '<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>'
                 '<SegmentTemplate startNumber="1" initialization="$RepresentationID$/init.mp4" duration="%s" '
                 'media="$RepresentationID$/$Number$.m4s"/>'
                 '<Representation id="A%d" codecs="mp4a.40.2" audioSamplingRate="48000" bandwidth="%s">'
                 '<AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" '
                 'value="2"/></Representation></AdaptationSet>' % (("eng", "swe")[k], tmpl_dur, k + 1, num("rate%d" % k)))
    x.append("</Period>")
    if "metrics" in has:
        x.append('<Metrics metrics="BufferLevel"><Reporting schemeIdUri="urn:r"/></Metrics>')
    x.append("</MPD>")
    xml = S.fmt("".join(x).replace("%2f", "%%2f"))
    S.file("vod/c/Manifest.mpd", xml)
    return xml


def local(e):
    return e.tag[len(c.NS):] if e.tag.startswith(c.NS) else e.tag


def text(x):
    return "" if x is None else x.strip()


def added(e, parent, opts):
    "The element is one that the session documents to add there."
    n, scheme = local(e), e.get("schemeIdUri")
    if parent == "MPD":
        return n in ("BaseURL", "Location", "UTCTiming") or (n == "ServiceDescription" and e.get("id") == "0")
    if parent == "Period":
        return (n == "SegmentBase" and "peroff_1" in opts) or \
            (n == "EventStream" and scheme == "urn:mpeg:dash:event:callback:2015")
    if parent == "AdaptationSet":
        return (n == "InbandEventStream" and scheme == "urn:scte:scte35:2013:xml" and "scte35_1" in opts) or \
            (n == "SupplementalProperty" and scheme == "urn:mpeg:dash:period_continuity:2014" and "continuous_1" in opts) or \
            (n == "ProducerReferenceTime" and "chunkdur_0.5" in opts)
    if parent == "SegmentTemplate":
        return n == "SegmentTimeline"
    return False


def same(S, old, new, opts):
    "`new` says what `old` says, but for what a live session sets and adds."
    n = local(old)
    S.check("elements stay what they are", new.tag == old.tag)
    own = OWN.get(n, ())
    if n == "SegmentTemplate":
        if "chunkdur_0.5" in opts:
            own += ("availabilityTimeOffset", "availabilityTimeComplete")
        if "segtimeline_1" in opts or "segtimelinenr_1" in opts:
            own += ("duration", "timescale", "media")
    S.check("no attribute is lost or added",
            sorted(k for k in old.attrib if k not in own) == sorted(k for k in new.attrib if k not in own))
    for k in old.attrib:
        if k not in own:
            S.check("attributes keep their values", new.get(k) == old.get(k))
    S.check("text is kept", text(old.text) == text(new.text))
    a = [e for e in old if not (n == "MPD" and local(e) == "BaseURL")]
    b = [e for e in new if not added(e, n, opts)]
    if n == "MPD":
        ps = [e for e in b if local(e) == "Period"]
        S.check("there are periods", len(ps) > 0)
        if not any(o.startswith("periods_") for o in opts):
            S.check("there is one period", len(ps) == 1)
        i = [local(e) for e in a].index("Period")
        S.check("periods follow each other", [local(e) for e in b[i:i + len(ps)]] == ["Period"] * len(ps))
        a = a[:i] + [a[i]] * len(ps) + a[i + 1:]
    S.check("no element is lost or added", len(a) == len(b))
    for x, y in zip(a, b):
        same(S, x, y, opts)


def passed(S):
    opts = S.variant
    D = 2
    v = c.vod(S, D=D, nr=4, first=1, tsbd=30, ts={"video": 90000, "audio": 48000},
              version="1.1", total={"video": 720000, "audio": 384000})
    for m, ts in (("video", 90000), ("audio", 48000)):
        S.file("cfg/c_%s.dat" % m, S.cat(S.le(2, 1), S.le(2, 3), S.le(4, 0), S.le(4, 2 * ts)))
    xml = stored(S, "2")
    now = S.int("now", 0, 2 ** 33, typ=(0, 59, 60, 1500000000))
    if "segtimeline_1" in opts or "segtimelinenr_1" in opts:
        now = 8 * S.int("loops", 2, 2 ** 20) + S.int("secs", 0, 7)
    if any(o.startswith("periods_") for o in opts):
        now = 60 * S.int("period", 0, 2 ** 24) + S.int("rest", 0, 59)
    out = c.fetch_mpd(S, list(opts) + ["c", "Manifest.mpd"], now)
    root = c.mpd_root(S, out)
    S.check("the MPD is served and well formed", root is not None)
    old = c.mpd_of_body(S, xml.encode("utf-8"))
    same(S, old, root, opts)
    was, profs = old.get("profiles").split(","), root.get("profiles").split(",")
    S.check("the profiles stay, and those of the options used are added",
            profs == was + [PROFILES[o.split("_")[0]] for o in opts if o.split("_")[0] in PROFILES])


VARS = [(), ("start_10", "stop_3600"), ("periods_60",), ("periods_60", "continuous_1", "scte35_1"), ("scte35_1", "utc_head-ntp"),
        ("chunkdur_0.5",), ("segtimeline_1",), ("segtimelinenr_1",), ("peroff_1", "snr_5"), ("baseurl_u20_d20", "tsbd_60"),
        ("periods_60", "mpdcallback_60"), ("tfdt_32",), ("modulo_10",), ("spd_10", "mup_30", "ato_inf")]
HARNESSES = [
    Harness("passed", passed, variants=VARS, n_random=60, budget=150, functions=FUNCS, contracts=ISO, contracts_used=USES_ISO,
            slow=[v for v in VARS if v not in (VARS[3], VARS[5], VARS[6], VARS[8], VARS[1])]),
]
