"""C03 C04 C05: libimap command and response text"""
import json
from imapgen import G, Lit, make_cmd, make_resp, EXTS, hx
from util import chunks

def read(ctx, kind, ext, parts):
    e, j, x = ctx.driver("drv_imap").call(kind, ext, *parts)
    e = e.decode()
    return "" if e == "OK" else e, json.loads(j), x.decode()

def exts_for(rng, needs, on=False):
    """a random extension state under which these texts must be accepted, and the state afterwards"""
    s = {e: "2" if on else rng.choice("012") for e in EXTS}
    trig = set()
    for n in needs:
        m, _, e = n.rpartition(":")
        if m in ("t", "a"):
            if s[e] == "0":
                s[e] = rng.choice("12")
            if m == "t":
                trig.add(e)
        elif m == "":
            s[e] = "2"
    out = dict(s)
    for e in trig:
        out[e] = "2"
    return "".join(s[e] for e in EXTS), "".join(out[e] for e in EXTS)

def norm(d):
    return json.loads(json.dumps(d))

def show(wire, parts, ext):
    return "exts=%s wire=%r chunks=%r" % (ext, wire[:1500], [len(p) for p in parts][:60])

def make(rng, kind, n):
    gs, wire, exp = [], b"", []
    needs = set()
    for _ in range(n):
        g, w, e = make_cmd(rng) if kind == "cmds" else make_resp(rng)
        gs.append(g); wire += w; exp += e
        needs |= g.need
    return gs, wire, norm(exp), needs

def parse_case(ctx, rng, i):
    kind = rng.choice(["cmds", "resps"])
    gs, wire, exp, needs = make(rng, kind, rng.choice([1, 1, 1, 2, 5]))
    ext, after = exts_for(rng, needs)
    for parts in ([wire], chunks(rng, wire, 12, False), chunks(rng, wire, 40, False)):
        e, got, x = read(ctx, kind, ext, parts)
        names = "+".join(g.kind for g in gs)
        if not ctx.check(e == "", "parse-error:" + kind, lambda: "%s %s: %s" % (names, e, show(wire, parts, ext))):
            return
        g = [d for _, d in got]
        if not ctx.check(g == exp, "parse-meaning:" + kind, lambda: "%s\n got %r\n exp %r\n %s" % (names, [a for a in g if a not in exp][:3], [a for a in exp if a not in g][:3], show(wire, parts, ext))):
            return
        ctx.check(x == after, "parse-exts", lambda: "extensions after: %s expected %s; %s" % (x, after, show(wire, parts, ext)))
        ctx.count("parsed_chunks", len(parts))
    for g in gs:
        ctx.count("kind_" + g.kind)
    ctx.count(kind + "_parsed", len(exp))
    ctx.distinct(json.dumps(exp))
    ctx.sample(repr(wire[:300]))

def delit(b):
    """the client's non-synchronizing literals as synchronizing ones (the server side parses only those)"""
    out, i = b"", 0
    q = False
    while i < len(b):
        c = b[i:i + 1]
        if q:
            if c == b"\\":
                out += b[i:i + 2]; i += 2; continue
            if c == b'"':
                q = False
        elif c == b'"':
            q = True
        elif c == b"{":
            j = b.index(b"}", i)
            n = b[i + 1:j].rstrip(b"+")
            if n.isdigit() and b[j + 1:j + 3] == b"\r\n":
                n2 = int(n)
                out += b"{" + n + b"}\r\n" + b[j + 3:j + 3 + n2]
                i = j + 3 + n2
                continue
        out += c
        i += 1
    return out

NEEDS_ON = {"w", "wa", "any", "t", "a", ""}
def write_case(ctx, rng, i):
    kind = rng.choice(["cmds", "resps"])
    while True:
        gs, wire, exp, needs = make(rng, kind, 1)
        if gs[0].writable:
            break
    allon = "2" * 7
    e, got, x = read(ctx, kind, allon, [wire])
    g = [d for _, d in got]
    if not ctx.check(e == "" and g == exp, "write-setup", lambda: "%r %r %r" % (wire, e, g)):
        return
    n = len(g)
    # extensions that are not needed may be in any state
    used = {m.rpartition(":")[2] for m in needs}
    ext = "".join("2" if k in used else rng.choice("012") for k in EXTS)
    d = ctx.driver("drv_imap")
    outs = None
    sizes = [["100000"], [str(rng.randint(2, 80))], [str(rng.randint(2, 30)) for _ in range(5)], ["2"]]
    for sz in sizes:
        r = d.call("write", ext, *sz)
        if not ctx.check(len(r) == 5 * n, "write-count"):
            return
        cur = []
        for k in range(n):
            err, b, perr, pb, flag = r[5 * k:5 * k + 5]
            typ = g[k][1] if kind == "cmds" else g[k][0]
            if typ == "PLUS_REQ":
                cur.append(b""); continue
            if not ctx.check(err == b"OK", "write-error:" + typ, lambda: "writing %r (from %r) with exts %s: %s" % (g[k], wire[:800], ext, err)):
                return
            ctx.check(perr == b"OK" and pb == b, "write-print:" + typ, lambda: "printed %r (%s) but wrote %r" % (pb, perr, b))
            ctx.check(flag == b"0", "write-progress:" + typ, lambda: "flag %s writing %r with sizes %r" % (flag, b, sz))
            cur.append(b)
            ctx.count("written")
        if outs is None:
            outs = cur
        elif not ctx.check(outs == cur, "write-split", lambda: "with buffers %r: %r, with one buffer: %r" % (sz, cur, outs)):
            return
    text = b"".join(outs)
    ctx.sample(repr(text[:300]))
    # a wanted extension which is off must be refused
    on = sorted({m.rpartition(":")[2] for m in needs if m.rpartition(":")[0] in ("", "t", "w")})
    if on:
        victim = rng.choice(on)
        bad = "".join(rng.choice("01") if k == victim else "2" for k in EXTS)
        r = d.call("write", bad, "100000")
        errs = [r[5 * k] for k in range(n)]
        ctx.check(any(e_ != b"OK" for e_ in errs), "write-ext-off", lambda: "wrote %r although %s is off" % (text, victim))
        ctx.count("refused")
    if kind == "cmds":
        text = delit(text)
    for parts in ([text], chunks(rng, text, 12, False)):
        e, got2, x = read(ctx, kind, allon, parts)
        g2 = [d_ for _, d_ in got2 if d_[1] != "PLUS_REQ"]
        g1 = [d_ for d_ in g if d_[1] != "PLUS_REQ"]
        if not ctx.check(e == "" and g2 == g1, "write-reparse:" + gs[0].kind, lambda: "%r was written as %r, which reads as %r %s" % (g1, text, g2, e)):
            return
    ctx.count("w_" + gs[0].kind)
    ctx.distinct(text)

SENTINELS = [(b"s%d NOOP\r\n", "NOOP"), (b"s%d capability\n", "CAPABILITY"), (b"s%d CHECK\r\n", "CHECK"), (b"s%d Logout\r\n", "LOGOUT")]
def sentinels(rng):
    w, exp = b"", []
    for k in range(rng.randint(1, 3)):
        s, t = rng.choice(SENTINELS)
        w += s % k
        exp.append([(b"s%d" % k).hex(), t])
    return w, exp

def bad_line(rng):
    """(text with its line ends, PLUS_REQs, needs): a command line that no reading of the grammar accepts"""
    g = G(rng, True)
    tag = g.atomval(tag=True, special=b"]")
    plus = 0
    k = rng.randrange(16)
    junk = rng.choice([b"%", b"(", b"\\", b"\x01", b"\x00", b"\x7f", b"*", b"]"])
    if k == 0:
        body = rng.choice([b"XYZZY", b"NOOPS", b"123", b"FETC 1 UID", b"LOGINX a b", b"UID NOOP", b"UID", b"DONE", b"OK x", b"AUTHENTICATE NTLM", b"AUTHENTICATE PLAIN abc"])
    elif k == 1:
        body = rng.choice([b"LOGIN", b"LOGIN a", b"SELECT", b"RENAME a", b"STATUS a", b"STATUS a ()", b"FETCH 1", b"FETCH 1 ()", b"STORE 1 FLAGS", b"COPY 1", b"SEARCH", b"ENABLE",
                           b"LIST a", b"APPEND a", b"APPEND a (\\Seen)", b"XKEYADD", b"UID EXPUNGE", b"SEARCH NOT", b"SEARCH OR ALL", b"SEARCH CHARSET x", b"SEARCH HEADER a", b"SEARCH (ALL"])
    elif k == 2:
        body = rng.choice([b"NOOP", b"LOGOUT", b"CHECK", b"CAPABILITY", b"SELECT a", b"LOGIN a b", b"COPY 1 b", b"FETCH 1 UID", b"SEARCH ALL", b"IDLE", b"CLOSE", b"STARTTLS"]) + rng.choice([b" ", b" x", b"(", b"\\", b"\x01"])
    elif k == 3:
        n = rng.choice([b"0", b"4294967296", b"99999999999999999999999999", b"18446744073709551616", b"-1", b"1:", b":1", b"1,,2", b"1,", b"", b"x", b"1:0", b"1:2:3", b"1 :2"])
        body = rng.choice([b"FETCH %s UID", b"UID FETCH %s UID", b"STORE %s FLAGS \\Seen", b"COPY %s x", b"SEARCH UID %s", b"UID EXPUNGE %s"]) % n
    elif k == 4:
        body = rng.choice([b'LOGIN "abc', b'LOGIN "a\\x" b', b'LOGIN a "b\x00c"', b'SELECT "', b'LOGIN "a"b" c', b'LOGIN a "\\'])
    elif k == 5:
        body = b"LOGIN a" + junk + b"b c" if junk != b"]" else b"LOGIN (a) b"
    elif k == 6:
        body = rng.choice([b"SEARCH BEFORE 1-Foo-2020", b"SEARCH ON 1-Jan-20", b"SEARCH SINCE 111-Jan-2020", b"SEARCH LARGER 4294967296", b"SEARCH LARGER x",
                           b'APPEND a "1-Jan-2020 00:00:00 +0000" {1}', b'APPEND a "01-Jan-2020 00:00:00" {1}', b'APPEND a "01-Jan-2020 00:00:00 0000" {1}'])
    elif k == 7:
        n = rng.choice([b"4294967296", b"99999999999999999999", b"-1", b"", b"x", b"1+", b"1 ", b"+1"])
        body = b"LOGIN {" + n + b"}"
    elif k == 8:
        v = g.strval()
        body = b"LOGIN {%d}\r\n" % len(v) + v + rng.choice([b"", b" ", b"x", b'"', b" {2}x", b" a b"])
        plus = 1
    elif k == 9:
        tag = rng.choice([b"a+b", b"+", b"*", b"", b"(", b"a b", b"a\\", b'"a"', b"\x00", b"\xff\x01"])
        body = rng.choice([b"XYZZY", b"("])
        return tag + b" " + body + b"\r\n", 0, None if tag != b"a b" else b"a"
    elif k == 10:
        body = rng.choice([b"UID FETCH 1 UID (VANISHED)", b"FETCH 1 UID (CHANGEDSINCE 1 VANISHED)", b"FETCH 1 UID (CHANGEDSINCE 0)", b"FETCH 1 UID (FOO 1)",
                           b"FETCH 1 BODY[HEADER.FIELDS]", b"FETCH 1 BODY[HEADER.FIELDS ()]", b"FETCH 1 RFC822.FOO", b"FETCH 1 (ALL)"])
    elif k == 11:
        body = rng.choice([b"SELECT a (QRESYNC (1 1))", b"EXAMINE a (CONDSTORE)", b"STATUS a (HIGHESTMODSEQ)", b"FETCH 1 UID (CHANGEDSINCE 4)", b"STORE 1 (UNCHANGEDSINCE 5) FLAGS x",
                           b"SEARCH MODSEQ 5", b"IDLE", b"XKEYADD a", b"XKEYSYNC a"])
        return tag + b" " + body + b"\r\n", 0, tag, "0000000"
    elif k == 12:
        import base64
        bad = rng.choice([b"!!!!", b"abc", base64.b64encode(b"nonul"), base64.b64encode(b"a\0b"), base64.b64encode(b"a\0b\0c\0d"), base64.b64encode(b"x\0y\0z"), b"", b"YQB i", b"AGEAYg==x"])
        body = b"AUTHENTICATE PLAIN\r\n" + bad
        plus = 1
    elif k == 13:
        body = b"LOGIN a b" + b"(" * rng.randint(1, 3000)
    elif k == 14:
        body = bytes(rng.choice(b"\x01\x02()%*\"\\ ]ab0") for _ in range(rng.randint(1, 60)))
        body = b"SELECT )" + body
    else:
        body = rng.choice([b" NOOP", b"NOOP\0", b"\0", b"\xff\xfe", b"\r", b"NOOP\rx", b"LOGIN a\rb c"])
    return tag + b" " + body + rng.choice([b"\r\n", b"\n"]), plus, tag

def bad_case(ctx, rng, i):
    allon = "2" * 7
    m = rng.random()
    ext = allon
    if m < .45:
        wire, exp = b"", []
        for _ in range(rng.randint(1, 3)):
            b = bad_line(rng)
            if len(b) == 4:
                if wire:
                    continue
                ext = b[3]
            elif ext != allon:
                continue
            wire += b[0]
            exp += [[None, "PLUS_REQ", None]] * 0
            exp.append(("bad", b[2], b[1]))
            s, se = sentinels(rng)
            wire += s
            exp += se
    elif m < .6:
        # a bad line ends IDLE or XKEYSYNC
        g = G(rng, True)
        tag = g.atomval(tag=True, special=b"]")
        x = rng.random() < .5
        wire = tag + (b" XKEYSYNC\r\n" if x else b" IDLE\r\n") + rng.choice([b"done x", b"x", b"a NOOP", b"DONE ", b" DONE", b"", b"DON", b"(", b"\0", b"\\"]) + b"\r\n"
        exp = [[hx(tag), "XKEYSYNC", []]] if x else [[hx(tag), "IDLE"]]
        exp.append(("idle", tag, x))
        s, se = sentinels(rng)
        wire += s
        exp += se
    else:
        return mutated(ctx, rng)
    for parts in ([wire], chunks(rng, wire, 12, False), chunks(rng, wire, 40, False)):
        e, got, x = read(ctx, "cmds", ext, parts)
        info = lambda: "%r\n -> %s %r" % (wire[:1500], e, got)
        if not ctx.check(e == "", "bad-error", info):
            return
        g = [d for _, d in got]
        for ex in exp:
            if isinstance(ex, tuple) and ex[0] == "bad":
                for _ in range(ex[2]):
                    if g and g[0][1] == "PLUS_REQ":
                        g.pop(0)
                d = g.pop(0) if g else [None, "nothing"]
                if not ctx.check(d[1] == "ERROR", "bad-accepted", lambda: "expected an error for %r: %s" % (ex, info())):
                    return
                want = None if ex[1] is None else hx(ex[1])
                if ex[1] is not None:
                    ctx.check(d[0] == want, "bad-tag", lambda: "error has tag %r, command had %r: %s" % (d[0], want, info()))
                errtext(ctx, d[2], info)
                ctx.count("errors_isolated")
            elif isinstance(ex, tuple):
                d = g.pop(0) if g else [None, "nothing"]
                if not ctx.check(d[1] == ("ERROR" if ex[2] else "IDLE_DONE") and d[2] is not None, "bad-idle", lambda: "IDLE/XKEYSYNC must end with an error: %s" % info()):
                    return
                errtext(ctx, d[2], info)
                ctx.count("idle_errors")
            else:
                d = g.pop(0) if g else [None, "nothing"]
                if not ctx.check(d == ex, "bad-next", lambda: "expected %r after the bad line, got %r: %s" % (ex, d, info())):
                    return
                ctx.count("commands_after_errors")
        ctx.check(not g, "bad-extra", lambda: "additional commands %r: %s" % (g, info()))
    ctx.distinct(wire)
    ctx.sample(repr(wire[:300]))

def errtext(ctx, h, info):
    if not ctx.check(h is not None, "bad-notext", info):
        return
    t = bytes.fromhex(h)
    ctx.check(0 < len(t) <= 100 and all(32 <= c < 127 for c in t), "bad-text", lambda: "error text %r: %s" % (t, info()))

def mutated(ctx, rng):
    from util import mutate
    kind = rng.choice(["cmds", "resps"])
    while True:
        gs, wire, exp, needs = make(rng, kind, 1)
        if b"{" not in wire and gs[0].kind not in ("AUTHP", "AUTHL", "IDLE", "XKEYSYNC"):
            break
    line = wire.rstrip(b"\r\n")
    m = mutate(rng, line, rng.randint(1, 6))
    if rng.random() < .3:
        a = rng.randint(0, len(m))
        m = m[:a] + rng.choice([b" ", b"(", b")", b'"', b"[", b"]", b"0", b".", b"NIL", b"UID ", b"BODY[", b"rfc822", b"read-", b"\\"]) + m[a:]
    m = m.replace(b"\r", b"").replace(b"\n", b"").replace(b"{", b"")
    ext = "".join(rng.choice("012") for _ in EXTS)
    if kind == "resps":
        res = []
        for parts in ([m + b"\r\n"], chunks(rng, m + b"\r\n", 12, False), chunks(rng, m + b"\r\n", 40, False)):
            e, got, x = read(ctx, "resps", ext, parts)
            res.append((e != "", e != "" or [d for _, d in got], x))
        ctx.check(res[0] == res[1] == res[2], "mut-resp-chunks", lambda: "%r %r -> %r" % (ext, m, res))
        ctx.count("mut_resp_error" if res[0][0] else "mut_resp_ok")
        return
    if b" IDLE" in m.upper() or b"AUTHENTICATE" in m.upper() or b"XKEYSYNC" in m.upper():
        return
    s, se = sentinels(rng)
    wire = m + b"\r\n" + s
    res = []
    for parts in ([wire], chunks(rng, wire, 12, False), chunks(rng, wire, 40, False)):
        e, got, x = read(ctx, "cmds", ext, parts)
        g = [d for _, d in got]
        # the text quoted in an error depends on what has been received so far
        res.append((e, [d[:2] if d[1] == "ERROR" else d for d in g], x))
    ctx.check(res[0] == res[1] == res[2], "mut-chunks", lambda: "%r %r -> %r" % (ext, wire, res))
    e, g, x = res[0]
    ctx.check(e == "" and len(g) == 1 + len(se) and g[1:] == se, "mut-isolated", lambda: "%r %r -> %r" % (ext, wire, res[0]))
    ctx.count("mut_error" if g and g[0][1] == "ERROR" else "mut_ok")
    ctx.distinct(wire)
