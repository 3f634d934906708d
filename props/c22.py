"""C22: remote periods (xlink) and ad periods."""
import xml.etree.ElementTree as ET

from pyvc.harness import Harness
from props import common as c
from props.c11 import plan, instant
from props.contracts import ISO, USES_ISO

FUNCS = ["dashlib/mpd_proxy.py:get_mpd,generate_dynamic_mpd,generate_period_data,generate_response_with_xlink,find_period,"
         "insert_asset_identifier",
         "dashlib/mpdprocessor.py:MpdProcessor.update_periods,MpdProcessor.process_mpd_children,get_full_xml",
         "dashlib/configprocessor.py:ConfigProcessor.process_url"]
XL = "{http://www.w3.org/1999/xlink}"
# content protection: elements and attributes of other namespaces, inside the periods
CENC = ('<ContentProtection schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc" xmlns:cenc="urn:mpeg:cenc:2013" '
        'cenc:default_KID="10000000-1000-1000-1000-100000000001"><cenc:pssh>p1</cenc:pssh></ContentProtection>'
        '<Label>p0 p1 p4 id="p2"</Label>')


def alike(S, a, b):
    "Two elements with the same content (white space between elements apart)."
    if a.tag != b.tag or set(a.attrib) != set(b.attrib) or len(a) != len(b):
        return False
    r = [S.eq(a.get(k), b.get(k)) for k in sorted(a.attrib)] + [S.eq((a.text or "").strip(), (b.text or "").strip())]
    for x, y in zip(a, b):
        e = alike(S, x, y)
        if e is False:
            return False
        r.append(e)
    return S.And(*r)


def setting(S, n, kinds):
    pd = 3600 // min(n, 60)
    v = c.vod(S, D=2)
    opts, ast, p, first, tsbd = plan(S, n, kinds, 2)
    if "base" in kinds:
        opts = ["baseurl_u20_d10", "baseurl_d10_u20"] + opts
    if "ato" in kinds:
        opts = ["ato_1"] + opts
    # the identifiers of periods also appear elsewhere in the text: as "p4" in "mp4", in other attributes and in content
    c.vod_mpd_d(S, v, extra=CENC if "cenc" in kinds else "", after='<Metrics metrics="p0 p1"/>' if "cenc" in kinds else "")
    K, x = instant(S, pd)
    return opts, pd, ast + K * pd + x


def rest(S, a, b):
    "Everything outside the periods is as in the session without the option (the links lead back to the session itself)."
    skip = ("Period", "BaseURL", "Location")
    xs = [e for e in a if e.tag[len(c.NS):] not in skip]
    ys = [e for e in b if e.tag[len(c.NS):] not in skip]
    if len(xs) != len(ys) or set(a.attrib) != set(b.attrib):
        return False
    return S.And(*([S.eq(a.get(k), b.get(k)) for k in sorted(a.attrib)] + [alike(S, x, y) for x, y in zip(xs, ys)]))


def links(S):
    "Every so many periods are links; a link resolves to the period it stands for."
    n, m, kinds = S.variant
    opts, pd, now = setting(S, n, kinds)
    plain = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    xo = opts + ["xlink_%d" % m] if S.flag("xlink_last") else ["xlink_%d" % m] + opts
    root = c.mpd_root(S, c.fetch_mpd(S, xo + ["c", "Manifest.mpd"], now))
    S.check("the MPDs are served and well formed", plain is not None and root is not None)
    S.check("nothing outside the periods changes", rest(S, plain, root))
    ps, xs = plain.findall(c.NS + "Period"), root.findall(c.NS + "Period")
    S.check("there are as many periods as without links", len(ps) == len(xs))
    head = "http://%s/%s/" % (c.HOST, c.PREFIX)
    step = min(n, 60) // min(m, 60)
    for p, x in zip(ps, xs):
        k = S.parse_int(p.get("id")[1:])
        if k % step == 0:
            href = x.get(XL + "href")
            S.check("it is a link that is followed on loading", href is not None and x.get(XL + "actuate") == "onLoad")
            S.check("with nothing in it", len(x) == 0 and len(x.attrib) == 2)
            S.check("to this server", href.startswith(head))
            out = c.fetch_mpd(S, href[len(head):].split("/"), now)
            S.check("the link is served", out.ok and isinstance(out.value, str))
            try:
                q = ET.fromstring(out.value)
            except ET.ParseError:
                q = None
            S.check("it leads to a well-formed period", q is not None and q.tag == c.NS + "Period")
            S.check("which is the one it stands for", alike(S, p, q))
        else:
            S.check("the other periods stay in the MPD as they are", alike(S, p, x))


def strip_asset(p):
    "The period without its asset identifiers; how many there were and where the first stood."
    a = [e for e in p if e.tag == c.NS + "AssetIdentifier"]
    where = [list(p).index(e) for e in a]
    for e in a:
        p.remove(e)
    return len(a), where[:1]


ADS = {1: "ad.php?id=6_ad", 2: "ad.php?id=6_ad_twoperiods", 3: "ad.php?id=6_ad_twoperiods_withremote", 4: "invalidurl.php",
       5: "ad.php?id=6_ad"}


def ads(S):
    "With insertad the periods other than the first whose turn it is become ad links; the content periods are identified."
    n, m, ad, kinds = S.variant
    opts, pd, now = setting(S, n, kinds)
    plain = c.mpd_root(S, c.fetch_mpd(S, opts + ["c", "Manifest.mpd"], now))
    root = c.mpd_root(S, c.fetch_mpd(S, opts + ["xlink_%d" % m, "insertad_%d" % ad, "c", "Manifest.mpd"], now))
    S.check("the MPDs are served and well formed", plain is not None and root is not None)
    S.check("nothing outside the periods changes", rest(S, plain, root))
    ps, xs = plain.findall(c.NS + "Period"), root.findall(c.NS + "Period")
    S.check("there are as many periods as without ads", len(ps) == len(xs))
    step = min(n, 60) // min(m, 60)
    seen = 0
    is_ad = []
    for p in ps:
        turn = bool(S.parse_int(p.get("id")[1:]) % step == 0)
        seen += turn
        is_ad.append(turn and seen > 1)
    for i, (p, x) in enumerate(zip(ps, xs)):
        if is_ad[i]:
            S.check("an ad is a link that is followed on loading",
                    x.get(XL + "href") == "http://vm1.dashif.org/dynamicxlink/" + ADS[ad] and
                    x.get(XL + "actuate") == "onLoad" and len(x.attrib) == 2)
            if ad == 5:
                y = ET.fromstring(ET.tostring(p, encoding="unicode"))
                for k in ("id", "start", "duration"):
                    y.attrib.pop(k, None)
                z = ET.fromstring(ET.tostring(x, encoding="unicode"))
                for k in list(z.attrib):
                    z.attrib.pop(k)
                S.check("with the content to play when it does not load", alike(S, y, z))
            else:
                S.check("with nothing in it", len(x) == 0)
        else:
            got, where = strip_asset(x)
            S.check("a content period is identified as such, before its media", got == 1 and where == [0])
            d = x.attrib.pop("duration", None)
            if i + 1 < len(ps) and (is_ad[i + 1]):
                S.check("the period before an ad has its duration", d is not None and S.iso(d) == pd)
            S.check("and otherwise as without ads", alike(S, p, x))


def refused(S):
    "Links that do not fit the periods, ads without links and periods that are not there are refused."
    kind = S.variant
    v = c.vod(S, D=2)
    c.vod_mpd_d(S, v)
    now = S.int("now", 0, 2 ** 33, near=(0, 100, 4000))
    name = "Manifest.mpd"
    if kind == "single":
        opts = [S.fmt("xlink_%d", S.int("m", 1, 60))]
    elif kind == "divide":
        n = S.choice("n", [2, 3, 4, 10, 12, 15, 60])
        m = S.choice("m", [7, 8, 9, 11, 16, 25, 45, 59])
        opts = ["periods_%d" % n, "xlink_%d" % m]
    elif kind == "ad":
        opts = [S.fmt("insertad_%d", S.int("ad", 1, 5)), "periods_60"]
    else:
        opts = ["periods_60", "xlink_60", "tsbd_10"]
        k = S.int("k", 0, 2 ** 40, near=(now // 60 - 1, now // 60 + 1, now // 60 + 2, now // 600, now // 6000))
        S.assume(S.Or((k + 1) * 60 + 12 <= now, k * 60 > now + 30))
        name = S.fmt("Manifest.mpd+p%d.period", k)
    out = c.fetch_mpd(S, opts + ["c", name], now)
    S.check("refused", not out.ok)


LK = [("snr",), ("start", "cenc"), ("start", "peroff", "continuous"), ("ato",), ("base", "cenc")]
LV = [(n, m, LK[(i + j) % 5]) for j in range(5)
      for i, (n, m) in enumerate([(60, 60), (60, 30), (10, 5), (12, 2), (30, 10), (2, 1), (90, 15), (20, 20)])]
LQ = [(60, 60, LK[0]), (60, 30, LK[1]), (10, 5, LK[2]), (12, 2, LK[3]), (30, 10, LK[4])]
AV = [(n, m, ad, k) for (n, m, k) in [(60, 30, ("snr",)), (60, 60, ("start", "cenc")), (12, 4, ("ato",))] for ad in range(1, 6)]
AQ = [AV[0], AV[6], AV[12], AV[3], AV[9]]
B = "time-shift buffers of up to two periods"
HARNESSES = [
    Harness("links", links, variants=LV, slow=[v for v in LV if v not in LQ], contracts=ISO, contracts_used=USES_ISO,
            n_random=40, budget=150, functions=FUNCS, bounded=B),
    Harness("ads", ads, variants=AV, slow=[v for v in AV if v not in AQ], contracts=ISO, contracts_used=USES_ISO,
            n_random=40, budget=150, functions=FUNCS, bounded=B),
    Harness("refused", refused, variants=("single", "divide", "ad", "gone"), contracts=ISO, contracts_used=USES_ISO,
            n_random=40, budget=100, functions=FUNCS),
]
