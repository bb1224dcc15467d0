"""C06, C07: reading and searching a mailbox against a reference which knows
each mail by construction"""
import os, random, re
from citmworld import *
import citmchk
from citmchk import new_world, rflags
from imapsrv import tokens, quote, uidset, Q
from mimegen import *

MON = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"]

# --------------------------------------------------------------- structures
def nstr(t):
    """token of an nstring: bytes or None"""
    if isinstance(t, Q):
        return bytes(t)
    if isinstance(t, bytes) and t.upper() == b"NIL":
        return None
    raise ValueError("not an nstring: %r" % (t,))

def addrs(t):
    """(list of address tuples, well-formed?)"""
    if not isinstance(t, list):
        if nstr(t) is None:
            return None, True
        raise ValueError("address list %r" % (t,))
    if t and all(isinstance(x, list) for x in t):
        return [tuple(nstr(y) for y in x) for x in t], True
    flat = [nstr(y) for y in t]
    return [tuple(flat[i:i + 4]) for i in range(0, len(flat), 4)], False

class Cmp:
    def __init__(self, w):
        self.w, self.bad = w, []
        self.flat = 0
    def eq(self, what, got, want):
        if got != want:
            self.bad.append("%s is %r, should be %r" % (what, got, want))
    def envelope(self, t, want, where=""):
        names = ("date", "subject", "from", "sender", "reply-to", "to", "cc", "bcc", "in-reply-to", "message-id")
        if not isinstance(t, list) or len(t) != 10:
            self.bad.append(where + "ENVELOPE with %r fields" % (len(t) if isinstance(t, list) else t))
            return
        for i, n in enumerate(names):
            try:
                if 2 <= i <= 7:
                    got, ok = addrs(t[i])
                    if not ok:
                        self.flat += 1
                    self.eq(where + n, got, want[i] or None)
                else:
                    got = nstr(t[i])
                    # an empty field may be NIL or ""
                    self.eq(where + n, got or None, want[i] or None)
            except ValueError as e:
                self.bad.append(where + n + ": " + str(e))
    def params(self, t, want, what):
        if not want:
            if isinstance(t, list) or nstr(t) is not None:
                self.bad.append("%s parameters %r, should be NIL" % (what, t))
            return
        if not isinstance(t, list):
            self.bad.append("%s parameters %r, should be %r" % (what, t, want))
            return
        self.eq(what + " parameters", [(bytes(a).lower(), bytes(b)) for a, b in zip(t[::2], t[1::2])], [(a.lower(), b) for a, b in want])
    def ext(self, t, p, what):
        """disposition, language, location"""
        if len(t) > 0:
            if p.disp is None:
                self.eq(what + " disposition", t[0] if isinstance(t[0], list) else nstr(t[0]), None)
            elif not isinstance(t[0], list) or len(t[0]) != 2:
                self.bad.append("%s disposition %r" % (what, t[0]))
            else:
                self.eq(what + " disposition", bytes(t[0][0]).lower(), p.disp[0])
                self.params(t[0][1], p.disp[1], what + " disposition")
        if len(t) > 1:
            g = [bytes(x) for x in t[1]] if isinstance(t[1], list) else nstr(t[1])
            self.eq(what + " language", g if isinstance(g, list) or g is None else [g], p.lang)
        if len(t) > 2:
            self.eq(what + " location", nstr(t[2]), p.loc)
    def body(self, t, p, ext, what="body"):
        if not isinstance(t, list) or not t:
            self.bad.append("%s is %r" % (what, t))
            return
        if p.kind == "multipart":
            n = 0
            while n < len(t) and isinstance(t[n], list):
                n += 1
            self.eq(what + " parts", n, len(p.parts))
            if n != len(p.parts) or len(t) <= n:
                return
            for i in range(n):
                self.body(t[i], p.parts[i], ext, "%s.%d" % (what, i + 1))
            self.eq(what + " subtype", bytes(t[n]).lower(), p.sub)
            rest = t[n + 1:]
            if not ext:
                self.eq(what + " extensions", rest, [])
                return
            if rest:
                self.params(rest[0], p.params, what)
                self.ext(rest[1:], p, what)
            self.eq(what + " extension fields", len(rest), 4)
            return
        if len(t) < 7 or isinstance(t[0], list):
            self.bad.append("%s is %r" % (what, t))
            return
        self.eq(what + " type", bytes(t[0]).lower() + b"/" + bytes(t[1]).lower(), p.type + b"/" + p.sub)
        pr = p.params
        if not pr and p.kind == "text" and isinstance(t[2], list):
            pr = [(b"charset", b"us-ascii")]
        self.params(t[2], pr, what)
        self.eq(what + " id", nstr(t[3]), p.cid)
        self.eq(what + " description", nstr(t[4]) or None, p.desc or None)
        self.eq(what + " encoding", bytes(t[5]).lower(), (p.enc or b"7bit").lower())
        self.eq(what + " octets", int(t[6]), len(p.body))
        i = 7
        if p.kind == "message":
            if len(t) < 10:
                self.bad.append("%s message fields missing %r" % (what, t))
                return
            self.envelope(t[7], p.msg.env, what + " ")
            self.body(t[8], p.msg.ent, ext, what + ".m")
            i = 9
        if p.kind in ("message", "text"):
            if len(t) <= i:
                self.bad.append("%s without lines" % what)
                return
            n = nlines(p.body)
            if int(t[i]) not in (n, n + (0 if not p.body or p.body[-1:] in b"\r\n" else 1)):
                self.eq(what + " lines", int(t[i]), n)
            i += 1
        if not ext:
            self.eq(what + " extensions", t[i:], [])
            return
        if len(t) > i:
            self.eq(what + " md5", nstr(t[i]), p.md5)
            self.ext(t[i + 1:], p, what)
        self.eq(what + " extension fields", len(t) - i, 4)

# -------------------------------------------------------------------- cases
def kinds(root):
    out = set()
    def go(e, d):
        out.add(e.kind + str(d))
        for k in e.parts or ():
            go(k, d + 1)
        if e.msg:
            go(e.msg.ent, d + 1)
    go(root.ent, 0)
    return out

def mailbox(ctx, rng, n, weird=0.0):
    """citm with one client which has n generated mails selected"""
    w = new_world(ctx, rng, ["C06", "C07"], kw2=0, maxchunk=rng.choice([0, 0, 0, 4000, 40, 7]))
    w.allow_no = True
    srv = w.srv
    srv.create(b"box")
    box = srv.boxes[b"box"]
    mails = []
    for k in range(n):
        eol = b"\r\n" if rng.random() < 0.85 else b"\n"
        g = Gen(rng, eol)
        if rng.random() < weird:
            m = Part()
            m.bytes = hostile(rng, g)
            m.weird = True
        else:
            m = g.message(rng.choice([0, 1, 1, 2, 3]))
            m.weird = False
        fl = rflags(rng, 0.3)
        if rng.random() < 0.1:
            fl.append(b"\\Draft")
        d, M, y = rng.randint(1, 28), rng.randint(1, 12), rng.choice([1990, 2005, 2023, 2024])
        date = b"%2d-%s-%04d %02d:%02d:%02d %s" % (d, MON[M - 1], y, rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([b"+0000", b"-0800", b"+0530"]))
        x = w.deliver(box, "enc", fl, text=m.bytes, date=date)
        m.flags = set(fl)
        m.idate = (y, M, d)
        m.idatestr = date
        m.vid = x.vid
        mails.append(m)
    assert w.start()
    c = w.client(srv)
    citmchk.login_alone(w, c)
    w.settle()
    ro = rng.random() < 0.4
    c.send(b"EXAMINE" if ro else b"SELECT", (b"EXAMINE" if ro else b"SELECT") + b" box", box=b"box", judge=None)
    w.settle()
    if c.state != "sel" or len(c.cells) != n:
        w.viol("C06", "mailbox-not-complete", "selected %r with %d of %d messages" % (c.state, len(c.cells), n))
        return None
    c.send(b"FETCH", b"FETCH 1:* (UID FLAGS BODY.PEEK[])", judge=None)
    w.settle()
    byvid = {m.vid: m for m in mails}
    order = []
    for cell in c.cells:
        m = byvid.pop(cell.vid, None)
        if m is None:
            w.viol("C06", "whole-message-differs", "a fetched message is none of those delivered")
            return None
        m.cell = cell
        order.append(m)
    w.mails, w.c, w.ro = order, c, ro
    return w

def hostile(rng, g):
    """mails nobody should send"""
    m = g.message(rng.choice([0, 1, 2]))
    b = bytearray(m.bytes)
    k = rng.randrange(10)
    if k >= 8:
        # a well formed tree of parts, one of which has broken headers
        bad = rng.choice([b"no colon here", b": nothing", b" folded first", b"a b: c", b"X\x01Y: z", b"--", b"\x00: x", b"caf\xc3\xa9: x"])
        for _ in range(20):
            ls = bytes(b).split(g.eol)
            at = [n for n, l in enumerate(ls) if l.startswith(b"--") and n > 3]
            if at:
                ls.insert(rng.choice(at) + 1, bad)
                return g.eol.join(ls)
            b = bytearray(g.message(2).bytes)
    if k == 0:
        return bytes(b[:rng.randint(0, len(b))])
    if k == 1:
        for _ in range(rng.choice([1, 5, 50])):
            if b:
                b[rng.randrange(len(b))] = rng.choice(b"\r\n :;=\"\\()<>,@-\x00\xff\x80a")
        return bytes(b)
    if k == 2:
        return bytes(b).replace(b"\r\n", rng.choice([b"\n", b"\r", b"\n\r", b"\r\r\n"]))
    if k == 3:
        d = rng.choice([30, 300, 3000])
        return b"From: " + b"(" * d + b"x" + b")" * d + b" <a@b.c>\r\nSubject: deep\r\n\r\nx\r\n"
    if k == 4:
        # multiparts within multiparts
        d = rng.choice([5, 50, 400, 8000])
        h = b"MIME-Version: 1.0\r\n"
        for i in range(d):
            h += b"Content-Type: multipart/mixed; boundary=b%d\r\n\r\n--b%d\r\n" % (i, i)
        return h + b"\r\nx\r\n" + b"".join(b"--b%d--\r\n" % i for i in reversed(range(d)))
    if k == 5:
        return b"Content-Type: multipart/mixed" + rng.choice([b"", b"; boundary=", b"; boundary=\"\"", b"; boundary=x"]) + b"\r\n\r\n" + rng.choice([b"", b"--\r\n\r\n--\r\n----", b"--x--\r\n", b"--x\r\n", b"--x\r\n\r\n--x--", b"--x\r\n--x\r\n--x--"])
    if k == 6:
        return rng.choice([b"", b"\r\n", b"no header at all", b": empty name\r\n\r\nx", b"a b c\r\n\r\nbody", b"Subject: x", b"Subject: x\r\n", b"\r\nSubject: x\r\n\r\n", b" folded first\r\n\r\n"])
    p = rng.randrange(len(b) + 1)
    return bytes(b[:p]) + bytes(rng.randrange(256) for _ in range(rng.choice([1, 20]))) + bytes(b[p:])

def hdrnames(rng, m):
    ns = [h.name for h in m.hdrs] if not m.weird else [b"Subject"]
    pool = ns + [b"Nothing", b"subject", b"FROM", b"Received", b"x-tag", b"Content-Type"]
    out = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        x = rng.choice(pool)
        out.append(cased(rng, x))
    return out

def items(rng, m):
    """[(request, response key, kind, arg)]"""
    k = rng.random()
    if k < 0.12:
        return [(b"ENVELOPE", b"ENVELOPE", "env", None)]
    if k < 0.22:
        return [(b"BODYSTRUCTURE", b"BODYSTRUCTURE", "struct", True)]
    if k < 0.28:
        return [(b"BODY", b"BODY", "struct", False)]
    if k < 0.31:
        return [(b"RFC822.SIZE", b"RFC822.SIZE", "size", None)]
    if k < 0.34:
        return [(b"INTERNALDATE", b"INTERNALDATE", "idate", None)]
    if k < 0.38:
        return [(b"RFC822.HEADER", b"RFC822.HEADER", "sec", ([], "HEADER", (), None))]
    if k < 0.40:
        return [(b"RFC822.TEXT", b"RFC822.TEXT", "sec", ([], "TEXT", (), None))]
    if k < 0.42:
        return [(b"RFC822", b"RFC822", "sec", ([], None, (), None))]
    path = []
    what, names = None, ()
    r = rng.random()
    ps = paths(m) if not m.weird else [[1], [1, 1], [2]]
    if r < 0.55:
        path = list(rng.choice(ps))
        x = rng.random()
        if x < 0.12:
            path.append(rng.choice([1, 1, 2, 3]))
        elif x < 0.2:
            path[rng.randrange(len(path))] = rng.choice([1, 2, 3, 7, 4294967295])
    what = rng.choice([None, None, "HEADER", "TEXT", "HEADER.FIELDS", "HEADER.FIELDS.NOT"] + (["MIME", "MIME"] if path else []))
    if what in ("HEADER.FIELDS", "HEADER.FIELDS.NOT"):
        tgt = m
        names = hdrnames(rng, tgt)
    s = b".".join(b"%d" % n for n in path)
    if what:
        s += (b"." if path else b"") + what.encode()
        if names:
            s += b" (" + b" ".join(n if rng.random() < 0.7 else quote(n) for n in names) + b")"
    part = None
    p = b""
    if rng.random() < 0.35:
        o = rng.choice([0, 0, 1, 5, 40, 200, 3000, 4294967295])
        l = rng.choice([1, 5, 30, 1000, 70000, 4294967295])
        part = (o, l)
        p = b"<%d.%d>" % part
    return [(b"BODY" + (b".PEEK" if rng.random() < 0.6 else b"") + b"[" + s + b"]" + p, (path, what, [n.lower() for n in names], part), "sec", (path, what, names, part))]

def seckey(k):
    """BODY[...]<o> of a response -> comparable key"""
    m = re.match(rb"BODY\[([0-9.]*?)\.?([A-Z.]+)?(?: \((.*)\))?\](?:<(\d+)>)?\Z", k, re.I | re.S)
    if not m:
        return None
    path = [int(x) for x in m.group(1).split(b".") if x]
    names = [bytes(t) for t in tokens(m.group(3) + b"\r\n")] if m.group(3) is not None else []
    return (path, m.group(2).decode().upper() if m.group(2) else None, [n.lower() for n in names], int(m.group(4)) if m.group(4) else None)

def read_case(ctx, rng, i):
    w = mailbox(ctx, rng, rng.choice([1, 2, 4, 8]), 0.15)
    if w is None:
        return
    c = w.c
    for _ in range(rng.choice([20, 40])):
        if c.eof or c.state != "sel":
            break
        sel = rng.sample(w.mails, rng.choice([1, 1, 1, 2, len(w.mails)]) if len(w.mails) > 1 else 1) if len(w.mails) > 1 else w.mails
        sel = sel[:]
        its = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            its += items(rng, rng.choice(sel))
        # one of each kind: the response does not tell two apart
        seen, uniq = [], []
        for x in its:
            kk = x[1] if isinstance(x[1], bytes) else (x[1][0], x[1][1], x[1][2], x[1][3] and x[1][3][0])
            if kk not in seen:
                seen.append(kk)
                uniq.append(x)
        its = uniq
        u = rng.random() < 0.5
        nums = [m.cell.uid if u else c.cells.index(m.cell) + 1 for m in sel]
        raw = (b"UID " if u else b"") + b"FETCH " + uidset(nums) + b" (" + b" ".join(x[0] for x in its) + b")"
        cmd = c.send(b"UID FETCH" if u else b"FETCH", raw, judge=None)
        w.settle()
        ctx.count("fetches")
        if c.eof or getattr(cmd, "status", None) is None:
            w.viol("C06", "connection-lost", "no answer to %r of mails %r" % (raw, [m.bytes[:300] for m in sel]))
            return
        got = {}
        for x in cmd.untagged:
            if x[0] == b"FETCH":
                for k, v in zip(x[2][::2], x[2][1::2]):
                    got.setdefault(x[1], []).append((k, v))
        nmiss = 0
        for m in sel:
            n = c.cells.index(m.cell) + 1
            judge_mail(ctx, w, m, its, got.get(n, []), raw)
            nmiss += 0 if m.weird else sum(1 for x in its if x[2] == "sec" and section(m, x[3][0], x[3][1], x[3][2]) is MISSING)
        if cmd.status == b"BAD" or (cmd.status == b"NO" and not nmiss and not any(m.weird for m in sel)):
            w.viol("C06", "fetch-refused", "%r answered %r %r" % (raw, cmd.status, cmd.text))
        if not w.ro and any(m.cell.flags is not None for m in sel):
            seen_flag(ctx, w, sel, its, cmd)
    for m in w.mails:
        ctx.count("mails_read")
        if not m.weird:
            for k in kinds(m):
                ctx.count("shape_" + k)
    c.send(b"NOOP", b"NOOP", judge=None)
    w.settle()
    if c.last is None or c.last.verb != b"NOOP" or c.last.status != b"OK":
        w.viol("C06", "connection-lost", "NOOP not answered")
    w.stop()
    ctx.distinct("\n".join(w.trace))

def seen_flag(ctx, w, sel, its, cmd):
    """BODY[] sets \\Seen, BODY.PEEK[] does not"""
    setting = any(x[2] == "sec" and not x[0].startswith((b"BODY.PEEK", b"RFC822.HEADER")) for x in its)
    if cmd.status == b"OK":
        for m in sel:
            if setting and b"\\Seen" not in m.flags:
                m.flags.add(b"\\Seen")
                ctx.count("seen_set")
                if b"\\Seen" not in (m.cell.flags or ()):
                    w.viol("C06", "seen-not-set", "after %r message has flags %r" % (cmd.raw, m.cell.flags))
            if set(m.cell.flags or ()) - {b"\\Recent"} != m.flags:
                w.viol("C06", "flags-changed", "after %r message has flags %r, should be %r" % (cmd.raw, m.cell.flags, m.flags))
            ctx.count("flags_judged")
    elif setting:
        # some may have been set
        for m in sel:
            m.flags |= set(m.cell.flags or ())

def judge_mail(ctx, w, m, its, got, raw):
    for req, key, kind, arg in its:
        if kind == "sec":
            path, what, names, part = arg
            if isinstance(key, bytes):
                vals = [v for k, v in got if k.upper() == key]
            else:
                want = (path, what, [n.lower() for n in names], part[0] if part else None)
                vals = [v for k, v in got if seckey(k) == want]
            if m.weird:
                if what is None and not path:
                    exp = m.bytes
                else:
                    ctx.count("weird_sections")
                    continue
            else:
                exp = section(m, path, what, names)
            if exp is ANY:
                continue
            if exp is MISSING:
                ctx.count("missing_parts")
                if any(nstr(v) for v in vals):
                    w.viol("C06", "content-for-missing-part", "%r of a mail without such a part gave %r; mail: %r" % (req, vals, m.bytes[:1500]))
                continue
            if part:
                exp = exp[part[0]:part[0] + part[1]]
                ctx.count("partial_fetches")
            ctx.count("sections_compared")
            if path:
                ctx.count("subparts_compared")
            if not vals:
                w.viol("C06", "section-not-sent", "%r got no answer (%r); mail: %r" % (req, [k for k, v in got], m.bytes[:1500]))
            elif (nstr(vals[0]) or b"") != exp:
                w.viol("C06", "section-differs", "%r is %r, should be %r; mail: %r" % (req, vals[0][:300], exp[:300], m.bytes[:1500]))
            continue
        vals = [v for k, v in got if k.upper() == key]
        if not vals:
            if not m.weird:
                w.viol("C06", "item-not-sent", "%r got no answer (%r); mail: %r" % (req, [k for k, v in got], m.bytes[:1500]))
            continue
        v = vals[0]
        if kind == "size":
            ctx.count("sizes_compared")
            if int(v) != len(m.bytes):
                w.viol("C06", "size-differs", "RFC822.SIZE %r of a mail of %d bytes" % (v, len(m.bytes)))
        elif kind == "idate":
            if citmchk_date(v) != citmchk_date(m.idatestr):
                w.viol("C06", "internaldate-differs", "%r, should be %r" % (v, m.idatestr))
        elif m.weird:
            ctx.count("weird_items")
        else:
            cm = Cmp(w)
            try:
                if kind == "env":
                    ctx.count("envelopes_compared")
                    cm.envelope(v, m.env)
                else:
                    ctx.count("structures_compared")
                    cm.body(v, m.ent, arg)
            except (ValueError, TypeError, IndexError) as e:
                cm.bad.append("unreadable: %s in %r" % (e, v))
            if cm.flat:
                w.viol("C06", "envelope-addresses-flattened", "ENVELOPE address list without parentheses around each address")
            if cm.bad:
                w.viol("C06", ("envelope" if kind == "env" else "structure") + "-differs", "%s; mail: %r; got %r" % ("; ".join(cm.bad), m.bytes[:1500], v))

def citmchk_date(s):
    return bytes(s).strip().upper()

# -------------------------------------------------------------------- SEARCH
def sdate(rng, m=None):
    if m is not None and rng.random() < 0.5:
        y, M, d = m
        d = min(28, max(1, d + rng.choice([-1, 0, 0, 1])))
    else:
        y, M, d = rng.choice([1990, 2005, 2023, 2024]), rng.randint(1, 12), rng.randint(1, 28)
    s = b"%d-%s-%04d" % (d, MON[M - 1], y)
    return (y, M, d), s if rng.random() < 0.6 else b'"' + s + b'"'

def has(hs, name, needle):
    n = needle.lower()
    return any(h.name.lower() == name.lower() and n in h.rawval.lower() for h in hs)

def sstr(rng, s):
    if s and all(c in ATOMCH for c in s) and rng.random() < 0.6:
        return s
    if rng.random() < 0.15:
        return b"{%d}\r\n" % len(s) + s
    return quote(s)

def key(rng, w, depth):
    """(text, predicate(mail, seq, n))"""
    ms = w.mails
    m = rng.choice(ms)
    n = len(ms)
    umax = ms[-1].cell.uid
    if depth > 0 and rng.random() < 0.45:
        k = rng.randrange(3)
        if k == 0:
            a, f = key(rng, w, depth - 1)
            return cased(rng, b"NOT ") + a, lambda x, s: not f(x, s)
        if k == 1:
            a, f = key(rng, w, depth - 1)
            b, g = key(rng, w, depth - 1)
            return cased(rng, b"OR ") + a + b" " + b, lambda x, s: f(x, s) or g(x, s)
        l = [key(rng, w, depth - 1) for _ in range(rng.choice([1, 2, 3]))]
        return b"(" + b" ".join(a for a, _ in l) + b")", lambda x, s: all(f(x, s) for _, f in l)
    k = rng.randrange(20)
    if k == 0:
        return cased(rng, b"ALL"), lambda x, s: True
    if k < 5:
        name, fl = rng.choice([(b"ANSWERED", b"\\Answered"), (b"DELETED", b"\\Deleted"), (b"FLAGGED", b"\\Flagged"), (b"SEEN", b"\\Seen"), (b"DRAFT", b"\\Draft")])
        if rng.random() < 0.5:
            return cased(rng, name), lambda x, s: fl in x.flags
        return cased(rng, b"UN" + name), lambda x, s: fl not in x.flags
    if k == 5:
        return rng.choice([(b"OLD", lambda x, s: True), (b"RECENT", lambda x, s: False), (b"NEW", lambda x, s: False), (b"KEYWORD kw", lambda x, s: False), (b"UNKEYWORD kw", lambda x, s: True)])
    if k < 8:
        # sequence sets
        l, txtl = [], []
        mx = umax if k == 7 else n
        for _ in range(rng.choice([1, 1, 2, 3])):
            def num():
                r = rng.random()
                return (b"*", mx) if r < 0.2 else (lambda v: (b"%d" % v, v))(rng.choice([rng.randint(1, mx), rng.randint(1, mx), mx] + ([mx + 1, mx + 5, 4294967295] if k == 7 else [])))
            a = num()
            if rng.random() < 0.5:
                b = num()
                txtl.append(a[0] + b":" + b[0])
                l.append((min(a[1], b[1]), max(a[1], b[1])))
            else:
                txtl.append(a[0])
                l.append((a[1], a[1]))
        t = b",".join(txtl)
        if k == 7:
            return b"UID " + t, lambda x, s: any(a <= x.cell.uid <= b for a, b in l)
        return t, lambda x, s: any(a <= s <= b for a, b in l)
    if k < 11:
        sent = rng.random() < 0.5
        op = rng.choice([b"BEFORE", b"ON", b"SINCE"])
        d, t = sdate(rng, (m.date if sent else m.idate))
        def f(x, s):
            y = x.date if sent else x.idate
            if y is None:
                return False
            return y < d if op == b"BEFORE" else y == d if op == b"ON" else y >= d
        return cased(rng, (b"SENT" if sent else b"") + op) + b" " + t, f
    if k < 13:
        v = max(0, len(m.bytes) + rng.choice([-1, 0, 1, 100, -100]))
        if rng.random() < 0.5:
            return b"LARGER %d" % v, lambda x, s: len(x.bytes) > v
        return b"SMALLER %d" % v, lambda x, s: len(x.bytes) < v
    # strings
    src = rng.choice([m.bytes, m.head, m.body, b"".join(h.rawval for h in m.hdrs)])
    words = re.findall(rb"[A-Za-z0-9@.<>_+-]+(?: [A-Za-z0-9]+)?", src) or [b"x"]
    s = rng.choice(words)
    if rng.random() < 0.5:
        a = rng.randrange(len(s))
        s = s[a:a + rng.randint(1, len(s) - a)]
    if rng.random() < 0.1:
        s = rng.choice([b"needle", b"zzznothing", b"", b"n", b"\\", b'"', m.bytes[:200].split(b"\r\n\r\n")[0][-9:].replace(b"\r", b"").replace(b"\n", b"") or b"q"])
    s = cased(rng, s)
    if any(c > 0x7e or c < 0x20 for c in s):
        s = b"plain"
    k = rng.randrange(4)
    if k == 0:
        return cased(rng, b"BODY") + b" " + sstr(rng, s), lambda x, _: s.lower() in x.body.lower()
    if k == 1:
        return cased(rng, b"TEXT") + b" " + sstr(rng, s), lambda x, _: s.lower() in x.bytes.lower()
    if k == 2:
        name = rng.choice([b"SUBJECT", b"FROM", b"TO", b"CC", b"BCC"])
        return cased(rng, name) + b" " + sstr(rng, s), lambda x, _: has(x.hdrs, name, s)
    h = rng.choice(m.hdrs) if m.hdrs else None
    name = rng.choice([h.name if h else b"X", b"Subject", b"X-Tag", b"Received", b"Message-ID", b"Nothing"])
    if rng.random() < 0.15:
        s = b""
    return b"HEADER " + sstr(rng, name) + b" " + sstr(rng, s), lambda x, _: has(x.hdrs, name, s)

def search_case(ctx, rng, i):
    w = mailbox(ctx, rng, rng.choice([1, 2, 5, 12, 25]), 0)
    if w is None:
        return
    c = w.c
    for k in range(60):
        if c.eof or c.state != "sel":
            break
        u = rng.random() < 0.5
        ks = [key(rng, w, rng.choice([0, 1, 2, 4])) for _ in range(rng.choice([1, 1, 2, 3]))]
        cs = b"CHARSET " + rng.choice([b"UTF-8", b"US-ASCII", b"utf-8"]) + b" " if rng.random() < 0.1 else b""
        raw = (b"UID " if u else b"") + b"SEARCH " + cs + b" ".join(a for a, _ in ks)
        cmd = c.send(b"UID SEARCH" if u else b"SEARCH", raw, judge=None)
        w.settle()
        ctx.count("searches")
        if c.eof or getattr(cmd, "status", None) is None:
            w.viol("C07", "connection-lost", "no answer to %r" % raw)
            return
        if cmd.status != b"OK":
            w.viol("C07", "search-refused", "%r answered %r %r" % (raw, cmd.status, cmd.text))
            continue
        res = [x for x in cmd.untagged if x[0] == b"SEARCH"]
        if len(res) != 1:
            w.viol("C07", "no-search-response", "%d SEARCH responses to %r" % (len(res), raw))
            continue
        got = [int(x) for x in res[0][1]]
        want = [m.cell.uid if u else s + 1 for s, m in enumerate(w.mails) if all(f(m, s + 1) for _, f in ks)]
        ctx.count("results_compared")
        ctx.count("hits", len(want))
        if want and len(want) < len(w.mails):
            ctx.count("selective_results")
        for word_ in set(re.findall(rb"[A-Z]{2,}", raw)) & {b"NOT", b"OR", b"BODY", b"TEXT", b"HEADER", b"UID", b"LARGER", b"SMALLER", b"SENTON", b"SENTSINCE", b"SENTBEFORE", b"BEFORE", b"SINCE", b"ON", b"SUBJECT", b"FROM", b"TO", b"CC", b"BCC"}:
            ctx.count("key_" + word_.decode())
        if sorted(got) != want or len(set(got)) != len(got):
            d = set(got) ^ set(want)
            ms = [m for s, m in enumerate(w.mails) if (m.cell.uid if u else s + 1) in d]
            w.viol("C07", "search-differs", "%r gave %r, should be %r; a mail it differs on: %r flags %r received %r" % (raw, got, want, ms and ms[0].bytes[:1500], ms and ms[0].flags, ms and ms[0].idatestr))
    w.stop()
    ctx.distinct("\n".join(w.trace))
