"""libweb and the request writer of libhttp (C18, C19)"""
import re, calendar, time
from util import *

def call(d, *a):
    f = []
    for x in a:
        f.extend(x) if isinstance(x, list) else f.append(x)
    return d.call(*f)

# ------------------------------------------------------------------- URLs
UN = rb"A-Za-z0-9\-._~"
SUB = rb"!$&'()*+,;="
PCT = rb"%[0-9A-Fa-f]{2}"
def cls(extra=b""):
    return rb"(?:[" + UN + SUB + extra + rb"]|" + PCT + rb")"
REG = cls() + rb"*"
AUTH = (rb"(?:(?:(?P<user>" + REG + rb")(?P<pc>:(?P<pass>" + cls(b":") + rb"*))?@)?"
        rb"(?P<host>\[[" + UN + SUB + rb":]+\]|" + REG + rb")(?::(?P<port>[0-9]*))?)")
PATH = cls(b":@/") + rb"*"
QF = rb"(?:\?(?P<query>" + cls(b":@/?") + rb"*))?(?:#(?P<fragment>" + cls(b":@/?") + rb"*))?"
HIER = (rb"(?://" + AUTH + rb"(?P<p1>(?:/" + PATH + rb")?)"
        rb"|(?P<p2>/(?:" + cls(b":@") + PATH + rb")?)"
        rb"|(?P<p3>(?:" + cls(b":@") + PATH + rb")?))")
URI = re.compile(rb"(?P<scheme>[A-Za-z][A-Za-z0-9+\-.]*):" + HIER + QF + rb"\Z")
REL = re.compile(HIER + QF + rb"\Z")

def ref_url(t, rel=False):
    """dict of parts, None when t is no URL; 'port' may make it unacceptable"""
    m = URI.match(t)
    if not m and rel:
        m = REL.match(t)
        if m:
            p3 = m.group("p3")
            # the first segment of a relative path holds no colon
            if p3 and b":" in p3.split(b"/")[0]:
                return None
    if not m:
        return None
    g = m.groupdict()
    path = next((g[k] for k in ("p1", "p2", "p3") if g[k] is not None), b"")
    r = {k: g.get(k) or b"" for k in ("scheme", "user", "pass", "host", "port", "query", "fragment")}
    r["path"] = path
    return r

FIELDS = ["scheme", "user", "pass", "host", "port", "path", "query", "fragment"]
def portok(p):
    return p == b"" or 1 <= int(p) <= 65535

def rpart(rng, extra=b"", n=8, empty=True):
    out = b""
    for _ in range(rng.randint(0 if empty else 1, n)):
        r = rng.random()
        if r < .15:
            out += b"%%%02x" % rng.randrange(256) if rng.random() < .5 else b"%%%02X" % rng.randrange(256)
        elif r < .6:
            out += bytes([rng.choice(b"abzAZ019")])
        else:
            out += bytes([rng.choice(b"-._~!$&'()*+,;=" + extra)])
    return out

def gen_url(rng, rel=False):
    t = b""
    r = rng.random()
    if not rel or rng.random() < .5:
        t += bytes([rng.choice(b"abzHZ")]) + bytes(rng.choice(b"abz019+-.") for _ in range(rng.randint(0, 6))) + b":"
    if r < .6:
        t += b"//"
        q = rng.random()
        if q < .3:
            t += rpart(rng) + (b":" + rpart(rng, b":") if rng.random() < .6 else b"") + b"@"
        if rng.random() < .2:
            t += b"[" + bytes(rng.choice(b"0123456789abcdef:.v") for _ in range(rng.randint(1, 12))) + b"]"
        else:
            t += rpart(rng, n=12)
        if rng.random() < .5:
            t += b":" + rng.choice([b"", b"80", b"1", b"65535", b"443", b"8080", str(rng.randint(1, 65535)).encode()])
            if rng.random() < .08:
                t += rng.choice([b"65536", b"0", b"99999", b"000000000000000000080"])
        if rng.random() < .7:
            t += b"/" + rpart(rng, b":@/", 10)
    elif r < .8:
        t += b"/" + (rpart(rng, b":@", 1, False) + rpart(rng, b":@/") if rng.random() < .8 else b"")
    elif r < .95:
        t += rpart(rng, b":@", 2, False) + rpart(rng, b":@/")
    if rng.random() < .5:
        t += b"?" + rpart(rng, b":@/?")
    if rng.random() < .4:
        t += b"#" + rpart(rng, b":@/?")
    return t

def off(t, s):
    if s == b"!":
        return None
    a, n = map(int, s.split(b":"))
    return t[a:a + n]

def cmp_url(ctx, t, got, exp, what):
    vals = {}
    for f, s in zip(FIELDS, got):
        v = off(t, s)
        if v is None:
            ctx.violation("%s of %r: the %s lies outside the text" % (what, t, f))
            return
        vals[f] = v
    for f in FIELDS:
        if vals[f] != exp[f]:
            ctx.violation("%s of %r: %s is %r, not %r" % (what, t, f, vals[f], exp[f]))
            return

def url_one(ctx, d, t, rel, quiet):
    exp = ref_url(t, rel)
    r = call(d, "urlref" if rel else "url", [t] + ([b"q"] if quiet else []))
    what = "parse_url_reference" if rel else "parse_url"
    if (r[0] == b"ok") != (r[1] == b"OK"):
        ctx.violation("%s and %s_ex disagree on %r" % (what, what, t))
        return
    if r[0] == b"ok":
        if exp is None:
            ctx.violation("%s accepts %r" % (what, t))
            return
        ctx.count("urls_accepted")
        ctx.distinct(t)
        cmp_url(ctx, t, r[2:10], exp, what)
        ctx.check(r[10] == t, "url_text of %r is %r" % (t, r[10]))
        # a plain host:port is checked
        if exp["port"] and not exp["user"] and not exp["pass"] and b"@" not in t and not exp["host"].startswith(b"["):
            ctx.check(portok(exp["port"]), "%s accepts the port of %r" % (what, t))
    else:
        ctx.count("urls_refused")
        ctx.check(r[1] == b"PARAMERROR" or r[1] == b"ERROR" or b"PARAM" in r[1].upper(), "%s refuses %r as %r" % (what, t, r[1]))
        if exp is not None and portok(exp["port"]):
            ctx.violation("%s refuses the valid %r" % (what, t))

def url_case(ctx, rng, i):
    ctx = Say(ctx)
    d = ctx.driver("drv_web")
    for _ in range(20):
        rel = rng.random() < .5
        t = gen_url(rng, rel)
        if rng.random() < .35:
            t = mutate(rng, t, rng.choice([1, 1, 1, 2, 3]))
        url_one(ctx, d, t, rel, rng.random() < .2)
    for _ in range(10):
        addr_one(ctx, d, rng)

# -------------------------------------------------------------- addrspecs
HOST = rb"\[[" + UN + SUB + rb":]+\]|" + REG
def ref_addr(t):
    m = re.match(rb"(?P<s>[A-Za-z][A-Za-z0-9+\-.]*)://(?P<h>" + HOST + rb")(?::(?P<p>[0-9]*))?\Z", t)
    if m:
        return m.group("s"), m.group("h"), m.group("p") or b""
    m = re.match(rb":(?P<p>[0-9]+)\Z", t)
    if m:
        return b"", b"", m.group("p")
    m = re.match(rb"(?P<h>\[[" + UN + SUB + rb":]+\]|" + cls() + rb"+)(?::(?P<p>[0-9]*))?\Z", t)
    if m:
        return b"", m.group("h"), m.group("p") or b""
    return None

def addr_one(ctx, d, rng):
    h = (b"[" + bytes(rng.choice(b"0123456789abcdef:.v") for _ in range(rng.randint(1, 12))) + b"]") if rng.random() < .25 else rpart(rng, n=10)
    p = rng.choice([b"", b":", b":80", b":65535", b":%d" % rng.randint(1, 65535), b":993"])
    s = b"" if rng.random() < .5 else bytes([rng.choice(b"abzHZ")]) + bytes(rng.choice(b"abz019+-.") for _ in range(rng.randint(0, 6))) + b"://"
    if rng.random() < .1:
        h = b""
    t = s + h + p
    if rng.random() < .3:
        t = mutate(rng, t, rng.choice([1, 1, 2]))
    exp = ref_addr(t)
    r = call(d, "addrspec", [t])
    if (r[0] == b"ok") != (r[1] == b"OK"):
        ctx.violation("parse_addrspec and parse_addrspec_ex disagree on %r" % t)
    elif r[0] == b"ok":
        ctx.count("addrspecs_accepted")
        ctx.distinct(b"a" + t)
        if exp is None:
            ctx.violation("parse_addrspec accepts %r" % t)
            return
        got = tuple(off(t, x) for x in r[2:5])
        ctx.check(got == exp, "parse_addrspec of %r: %r, not %r" % (t, got, exp))
    else:
        ctx.count("addrspecs_refused")
        ctx.check(exp is None or (exp[2] != b"" and not portok(exp[2])), "parse_addrspec refuses the valid %r" % t)

# ---------------------------------------------------------------- headers
TCH = b"!#$%&'*+-.^_`|~0189azAZ"
KW = [b"HTTP", b"chunked", b"GMT", b"Mon", b"jan", b"may", b"Content", b"monday", b"Link", b"rel", b"title*"]
def tok(rng, n=8):
    if rng.random() < .3:
        return rng.choice(KW)
    return bytes(rng.choice(TCH) for _ in range(rng.randint(1, n)))
def ows(rng):
    return b"".join(rng.choice([b" ", b"\t"]) for _ in range(rng.choice([0, 0, 0, 1, 2])))

def gen_links(rng):
    """text and expected [(url, [(key, value)])]; None: too large"""
    t, exp = b"", []
    big = False
    for k in range(rng.randint(1, 4)):
        if k:
            t += b"," + ows(rng)
        u = gen_url(rng, True)
        while ref_url(u, True) is None or not portok(ref_url(u, True)["port"]):
            u = gen_url(rng, True)
        t += b"<" + u + b">" + ows(rng)
        ps = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            key = tok(rng)
            t += b";" + ows(rng) + key + ows(rng)
            r = rng.random()
            if r < .2:
                ps.append((key, b""))
                continue
            t += b"=" + ows(rng)
            if r < .5:
                v = tok(rng)
                t += v
            else:
                n = rng.choice([0, 1, 3, 8, 20])
                if rng.random() < .02:
                    n = rng.choice([1023, 1024, 1025, 3000])
                v = bytes(rng.choice(b"\t !\"\\,;=<>()[]{}abzAZ09\x80\xff/:@") for _ in range(n))
                if n > 1024:
                    big = True
                q = b""
                for c in v:
                    c = bytes([c])
                    q += b"\\" + c if c in b"\"\\" or rng.random() < .1 else c
                t += b'"' + q + b'"'
            t += ows(rng)
            ps.append((key, v))
            if big:
                break
        exp.append((u, ps))
        if big:
            break
    return t, exp, big

TOKRE = re.compile(rb"[!#$%&'*+\-.^_`|~0-9A-Za-z]+")
QRE = re.compile(rb'"((?:[\t !#-\[\]-~\x80-\xff]|\\[\t -~\x80-\xff])*)"', re.S)
WS = re.compile(rb"[ \t]*")
def ref_links(t):
    """what a link header means, None when it is malformed; "port" for urls which may be refused"""
    out, p = [], 0
    if not t:
        return None
    while True:
        if t[p:p + 1] != b"<":
            return None
        e = t.find(b">", p)
        if e < 0:
            return None
        u = t[p + 1:e]
        r = ref_url(u, True)
        if r is None:
            return None
        if not portok(r["port"]):
            return "port"
        ps = []
        p = WS.match(t, e + 1).end()
        while t[p:p + 1] == b";":
            m = TOKRE.match(t, WS.match(t, p + 1).end())
            if not m:
                return None
            k, v = m.group(), b""
            p = WS.match(t, m.end()).end()
            if t[p:p + 1] == b"=":
                p = WS.match(t, p + 1).end()
                m = TOKRE.match(t, p)
                if m:
                    v = m.group()
                else:
                    m = QRE.match(t, p)
                    if not m:
                        return None
                    v = re.sub(rb"\\(.)", rb"\1", m.group(1), flags=re.S)
                p = WS.match(t, m.end()).end()
            ps.append((k, v))
        out.append((u, ps))
        if p == len(t):
            return out
        if t[p:p + 1] != b",":
            return None
        p = WS.match(t, p + 1).end()

def rd_links(t, r):
    out, i, extra = [], 0, []
    while i < len(r):
        if r[i] == b"L":
            out.append((r[i + 1:i + 9], []))
            i += 9
        elif r[i] == b"P":
            out[-1][1].append((r[i + 1], r[i + 2]))
            i += 3
        elif r[i] == b"E":
            return out, r[i + 1], r[i + 2], extra
        else:
            extra.append(r[i])
            i += 1
    return out, b"?", b"", extra

def link_case(ctx, rng, i):
    ctx = Say(ctx)
    d = ctx.driver("drv_web")
    for _ in range(12):
        t, exp, big = gen_links(rng)
        mode = rng.choice([0, 0, 1, 2, 3])
        damaged = rng.random() < .25
        if damaged:
            t = mutate(rng, t, rng.choice([1, 1, 2]))
        out, st, err, extra = rd_links(t, call(d, "links", [t, str(mode)]))
        ctx.check(not extra, "links of %r: %r" % (t, extra))
        if damaged:
            ctx.count("links_damaged")
            exp = ref_links(t)
            if exp == "port" or (exp and any(len(v) > 1024 for _, ps in exp for _, v in ps)):
                continue
            if exp is None:
                ctx.check(st != b"OK" and err, "the malformed links %r are accepted" % t)
                continue
            ctx.count("links_damaged_but_valid")
        ctx.count("links_read")
        ctx.distinct(t)
        if big and not damaged:
            ctx.count("links_too_large")
            ctx.check(st != b"OK", "an over-long link parameter is not reported: %d bytes" % len(t))
            n = len(out)
            ctx.check([off(t, o[0][5]) for o in out] == [ref_url(e[0], True)["path"] for e in exp[:n]], "links of an over-long header")
            continue
        ctx.check(st == b"OK", "links of the valid %r: %r %r" % (t, st, err))
        if st != b"OK":
            continue
        ctx.check(len(out) == len(exp), "links of %r: %d found, not %d" % (t, len(out), len(exp)))
        for k, ((u, ps), (eu, eps)) in enumerate(zip(out, exp)):
            cmp_url(ctx, t, u, ref_url(eu, True), "link")
            if (mode & 1) and (k & 1):
                continue
            ctx.check(ps == eps, "links of %r: parameters %r, not %r" % (t, ps, eps))
            ctx.count("link_params", len(eps))
    for _ in range(6):
        v = bytes(rng.choice(b"\\\\\"ab \xff") for _ in range(rng.randint(0, 12)))
        cap = rng.choice([0, 1, 3, 5, 12, 64])
        e, o = call(d, "qstr", [v, str(cap)])
        exp, k, ok = b"", 0, True
        while k < len(v):
            if v[k] == 0x5c:
                k += 1
                if k == len(v):
                    ok = False
                    break
            exp += v[k:k + 1]
            k += 1
        if len(exp) > cap:
            ctx.check(e != b"OK" and exp.startswith(o), "quoted-string decode of %r into %d" % (v, cap))
        elif not ok:
            ctx.check(e != b"OK", "quoted-string decode of %r" % v)
        else:
            ctx.check(e == b"OK" and o == exp, "quoted-string decode of %r: %r %r" % (v, e, o))

MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAY = "Mon Tue Wed Thu Fri Sat Sun".split()
ZONES = ["UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Europe/Moscow", "Pacific/Apia"]
def retry_case(ctx, rng, i):
    ctx = Say(ctx)
    tz = ZONES[i % len(ZONES)]
    d = ctx.driver("drv_web", env={"TZ": tz}, key="drv_web " + tz)
    for _ in range(10):
        r = rng.random()
        if r < .4:
            n = rng.choice([0, 1, 120, 3600, 2**31 - 1, 2**31, 2**32, 10**10, 2**62, 2**63 - 1, 2**63, 2**64, 10**25, rng.randint(0, 10**6), 2**63 - 1 - int(time.time())])
            t = b"0" * rng.choice([0, 0, 1, 5]) + str(n).encode()
            exp = ("rel", n)
        elif r < .85:
            y = rng.choice([1970, 1999, 2000, 2023, 2024, 2025, 2038, 2100, 2400, 9999, rng.randint(1971, 2200)])
            m = rng.randint(1, 12)
            dd = rng.randint(1, calendar.monthrange(y, m)[1])
            if rng.random() < .2:
                dd = calendar.monthrange(y, m)[1]
            h, mi, s = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
            wd = calendar.weekday(y, m, dd)
            exp = ("abs", calendar.timegm((y, m, dd, h, mi, s)))
            if rng.random() < .15:
                k = rng.randrange(5)
                if k == 0: dd = rng.choice([0, 32, 99, calendar.monthrange(y, m)[1] + 1])
                if k == 1: h = rng.choice([24, 25, 99])
                if k == 2: mi = rng.choice([60, 99])
                if k == 3: s = rng.choice([61, 99])
                if k == 4: m, dd, y = 2, 30, y
                exp = ("nodate", None)
            t = ("%s, %02d %s %04d %02d:%02d:%02d GMT" % (DAY[wd], dd, MON[m - 1], y, h, mi, s)).encode()
            if rng.random() < .1:
                t = flip(rng, t)
        else:
            t = rng.choice([b"", b" ", b"-1", b"+5", b"1 2", b"5s", b"0x10", b"1.5", b"Thu, 20 Jul 2023 05:45:36", b"Thu, 20 Jul 23 05:45:36 GMT",
                            b"Thu, 20 Jul 2023 05:45:36 UTC", b"Thursday, 20-Jul-23 05:45:36 GMT", b"Thu Jul 20 05:45:36 2023", b"Thu, 0 Jul 2023 05:45:36 GMT", b"Thu, 20 Jul 2023 05:45:36 GMTx",
                            b"Thu, 20 Jul 2023 05:45 GMT", b"Thx, 20 Jul 2023 05:45:36 GMT", b"Thu, 20 Foo 2023 05:45:36 GMT", b"20 Jul 2023 05:45:36 GMT", b"\x00", b"\xff"])
            exp = ("bad", None)
        if exp[0] != "bad":
            t += ows(rng)
        r = call(d, "retry", [t] + ([b"q"] if rng.random() < .2 else []))
        ok, t0, v, t1 = r[0] == b"ok", int(r[2]), int(r[3]), int(r[4])
        ctx.check(ok == (r[1] == b"OK"), "parse_retry_after and parse_retry_after_ex disagree on %r" % t)
        ctx.distinct(t)
        ctx.count("retry_" + exp[0])
        if exp[0] == "rel":
            n = exp[1]
            if ok:
                ctx.check(t0 + n <= v <= t1 + n, "Retry-After %r is %d, now is %d" % (t, v, t0))
            else:
                ctx.check(t0 + n >= 2**63 - 100, "the valid Retry-After %r is refused" % t)
        elif exp[0] == "abs":
            ctx.check(ok and v == exp[1], "in time zone %s Retry-After %r is %r %d, not %d" % (tz, t, r[0], v, exp[1]))
        elif exp[0] == "bad":
            ctx.check(not ok, "Retry-After %r is taken to be %d" % (t, v))

def flip(rng, t):
    return bytes(c ^ 0x20 if chr(c).isalpha() and rng.random() < .5 else c for c in t)

VCH = b"!\"#%&'(),-./:;<=>?@[\\]^_`{|}~0189azAZ\x80\xff"
def gen_head(rng):
    code = rng.choice([200, 204, 206, 301, 304, 400, 404, 429, 500, 503, 599, 201, rng.randint(200, 599)])
    words = lambda n: b" ".join(bytes(rng.choice(VCH) for _ in range(rng.randint(1, 8))) if rng.random() < .7 else rng.choice(KW) for _ in range(n))
    reason = words(rng.randint(0, 3)) if rng.random() < .95 else words(80)
    msg = b"HTTP/%d.%d %d " % (1, rng.choice([1, 1, 1, 0]), code) + reason + b"\r\n"
    hdrs = []
    for _ in range(rng.choice([0, 1, 2, 5, 10])):
        k = tok(rng, 12)
        v = words(rng.randint(1, 4)).replace(b" ", rng.choice([b" ", b"\t", b"  "]))
        if rng.random() < .06:
            v = b""
        hdrs.append((k, v))
        msg += k + b":" + ows(rng) + v + ows(rng) + b"\r\n"
    return code, reason, hdrs, msg + b"\r\n"

def head_case(ctx, rng, i):
    ctx = Say(ctx)
    d = ctx.driver("drv_web")
    for _ in range(8):
        code, reason, hdrs, msg = gen_head(rng)
        body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 5, 40])))
        cut = None
        whole = msg + body
        if rng.random() < .2:
            cut = rng.randrange(len(msg))
            whole = msg[:cut]
        longest = max(len(l) + 2 for l in msg.split(b"\r\n"))
        size = rng.choice([longest + rng.randint(0, 8), longest + 100, 4096, 8192, 20000])
        r = call(d, "hread", [str(size)] + chunks(rng, whole, 10))
        ctx.distinct(whole)
        ctx.count("heads")
        k, gh, st, end, gb = 0, [], None, None, None
        while k < len(r):
            if r[k] == b"S": st = (int(r[k + 1]), r[k + 2]); k += 3
            elif r[k] == b"H": gh.append((r[k + 1], r[k + 2])); k += 3
            elif r[k] == b"B": gb = b"".join(r[k + 1:]); end = "B"; break
            else: end = r[k:]; break
        if cut is not None:
            ctx.check(end == [b"I"], "the truncated head %r: %r" % (whole, end))
            ctx.check(gh == hdrs[:len(gh)], "headers of the truncated %r: %r" % (whole, gh))
            n = msg[:cut].count(b"\r\n")
            ctx.check(len(gh) in (max(0, n - 1), ), "the truncated %r gives %d headers" % (whole, len(gh)))
            continue
        if end != "B":
            ctx.violation("the head %r through a buffer of %d: %r after %d headers" % (msg, size, end, len(gh)))
            continue
        ctx.check(gh == hdrs, "headers of %r: %r, not %r" % (msg, gh, hdrs))
        ctx.check(st == (code, reason[:255]), "status of %r: %r" % (msg, st))
        ctx.check(gb == body, "body after %r: %r, not %r" % (msg, gb, body))
        ctx.count("headers_compared", len(hdrs))
    # heads no server may send
    code, reason, hdrs, msg = gen_head(rng)
    bad = rng.choice([b"HTTP/1.1 99 OK\r\n\r\n", b"HTTP/1.1 600 OK\r\n\r\n", b"HTTP/1.1 2000 OK\r\n\r\n", b"HTTP/1.1 200 OK\n\n", b"HTP/1.1 200 OK\r\n\r\n", b"HTTP/1.1200 OK\r\n\r\n",
                      msg[:-2] + b": nokey\r\n\r\n", msg[:-2] + b"key : v\r\n\r\n", msg[:-2] + b"key\r\n\r\n", msg[:-2] + b"key: a\x01b\r\n\r\n", msg[:-2] + b" folded\r\n\r\n", msg[:-2] + b"k: a\x00\r\n\r\n",
                      msg[:-2] + b"k\xff: a\r\n\r\n", msg[:-2] + b"k: a\rb: c\r\n\r\n", msg[:-2] + b"k: a\nb: c\r\n\r\n"])
    r = call(d, "hread", [b"8192"] + chunks(rng, bad, 6))
    ctx.check(b"X" in r, "the malformed head %r is read as %r" % (bad, r))
    ctx.count("bad_heads")

# --------------------------------------------------------------- requests
METHODS = [b"GET", b"HEAD", b"POST", b"PUT", b"DELETE"]
SAFE = b"*-._0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
def form(s):
    return b"".join(bytes([c]) if c in SAFE else b"+" if c == 32 else b"%%%02X" % c for c in s)

def marshal_case(ctx, rng, i):
    ctx = Say(ctx)
    d = ctx.driver("drv_web")
    for _ in range(8):
        meth = rng.randrange(5)
        while True:
            u = gen_url(rng)
            ru = ref_url(u)
            if ru and ru["scheme"] and ru["host"] and portok(ru["port"]) and b"://" in u:
                break
        params = [(blob(rng, 8), blob(rng, 12)) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        hdrs = [(tok(rng), bytes(rng.choice(VCH) for _ in range(rng.randint(1, 20)))) for _ in range(rng.choice([0, 1, 2, 5]))]
        blen = rng.choice([0, 1, 10, 12345, 2**32, 2**63])
        sizes = rng.choice([[100000], [1], [2], [3], [rng.randint(1, 30)], [rng.randint(1, 60) for _ in range(rng.randint(2, 8))], [7, 0, 3], [1, 50]])
        a = [str(meth), u, str(len(params))] + [x for p in params for x in p] + [str(len(hdrs))] + [x for p in hdrs for x in p] + [str(blen)] + [str(s) for s in sizes]
        r = call(d, "marshal", a)
        if r[0] != b"ok":
            continue
        q = ru["query"]
        target = (ru["path"] or b"/")
        if q or params:
            target += b"?" + q
            if params and q and not q.endswith(b"&"):
                target += b"&"
            target += b"&".join(form(k) + b"=" + form(v) for k, v in params)
        host = ru["host"] + (b":" + ru["port"] if ru["port"] else b"")
        head = b"%s %s HTTP/1.1\r\n" % (METHODS[meth], target)
        lines = [(b"Host", host)] + ([(b"Content-Length", b"%d" % blen)] if meth in (2, 3) else []) + hdrs
        exp = head + b"".join(k + b": " + v + b"\r\n" for k, v in lines) + b"\r\n"
        ctx.distinct((exp, tuple(sizes)))
        for rnd in (0, 1):
            done, calls, out = r[1 + 3 * rnd:4 + 3 * rnd]
            if not ru["port"]:   # an empty port may be written as such
                out = out.replace(b"\r\nHost: " + ru["host"] + b":\r\n", b"\r\nHost: " + ru["host"] + b"\r\n", 1)
            if done != b"done" or out != exp:
                ctx.violation("request %r %r %r, buffers %r, round %d: %s %r instead of %r" % (METHODS[meth], u, params, sizes, rnd, done.decode(), out, exp))
                break
            if int(calls) > 1:
                ctx.count("resumed_requests")
        ctx.count("requests_compared")
