"""generated mails whose structure is known by construction"""
import string

ATOMCH = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

def word(rng, lo=1, hi=8, chars=ATOMCH):
    return bytes(rng.choice(chars) for _ in range(rng.randint(lo, hi)))

class Hdr:
    """name, raw bytes including the line end, value as a reader unfolds it"""
    __slots__ = ("name", "raw", "val", "rawval")
    def __init__(self, name, rawval, eol, val=None):
        self.name = name
        self.raw = name + b":" + rawval + eol
        self.rawval = rawval
        self.val = val if val is not None else rawval.strip()

class Addr:
    pass

class Gen:
    def __init__(self, rng, eol=b"\r\n"):
        self.rng, self.eol = rng, eol
        self.words = [word(rng, 2, 7) for _ in range(6)] + [b"needle", b"NeeDle"]

    # --------------------------------------------------------- small pieces
    def ws(self):
        r = self.rng
        x = r.random()
        return b" " if x < 0.8 else r.choice([b"  ", b"\t", self.eol + b" ", self.eol + b"\t", b" " + self.eol + b"  "])

    def cws(self, p=0.1):
        """comments and folds"""
        r = self.rng
        if r.random() > p:
            return b""
        return r.choice([self.ws(), b" (c)", b" (a (nested) \\) one)" + b" ", b"(x)"])

    def text(self):
        """(raw, unfolded)"""
        r = self.rng
        n = r.choice([0, 1, 2, 4, 10])
        raw, val = b"", b""
        for i in range(n):
            w = r.choice(self.words) if r.random() < 0.7 else r.choice([b"=?utf-8?q?caf=C3=A9?=", b"a:b", b"(par", b'"q', b"\xc3\xa9", b"\\", b"x;y", b"<z>", b"{5}", b"%s*", b"r\xe9s"])
            if i:
                if r.random() < 0.15:
                    # the fold and the white space after it become one space
                    raw += self.eol + r.choice([b" ", b"\t", b"  "])
                    val += b" "
                else:
                    raw += b" "
                    val += b" "
            raw += w
            val += w
        return raw, val

    def phrase(self):
        r = self.rng
        if r.random() < 0.3:
            s = r.choice([b"A, B", b"quo\"te", b"back\\slash", b"x  y", b"semi; colon:", b"<angle>", b""])
            return b'"' + s.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"', s
        ws = [word(r) for _ in range(r.choice([1, 1, 2, 3]))]
        return b" ".join(ws), b" ".join(ws)

    def spec(self):
        r = self.rng
        lp = r.choice([word(r), word(r) + b"." + word(r), word(r) + b"+tag", b"o'x"])
        dom = r.choice([word(r) + b"." + word(r, 2, 3), word(r), b"[127.0.0.1]"])
        return lp + b"@" + dom, lp, dom

    def mailbox(self):
        r = self.rng
        raw, lp, dom = self.spec()
        k = r.random()
        if k < 0.4:
            return raw + self.cws(), (None, None, lp, dom)
        if k < 0.5:
            return b"<" + raw + b">", (None, None, lp, dom)
        p, v = self.phrase()
        return p + self.ws() + b"<" + raw + b">" + self.cws(), (v, None, lp, dom)

    def mailboxes(self, n, groups=False):
        r = self.rng
        raw, out = [], []
        for _ in range(n):
            if groups and r.random() < 0.15:
                p = word(r)
                k = r.randint(0, 2)
                ms = [self.mailbox() for _ in range(k)]
                raw.append(p + b":" + b", ".join(m[0] for m in ms) + b";")
                out += [(None, None, p, None)] + [m[1] for m in ms] + [(None, None, None, None)]
            else:
                a, b = self.mailbox()
                raw.append(a)
                out.append(b)
        return (b"," + self.ws()).join(raw), out

    # -------------------------------------------------------------- headers
    def envelope_headers(self):
        """(list of Hdr, expected envelope)"""
        r, eol = self.rng, self.eol
        hs = []
        env = [None] * 10
        date = None
        if r.random() < 0.85:
            d, M, y = r.randint(1, 28), r.randint(1, 12), r.choice([1990, 2005, 2023, 2024])
            mon = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"][M - 1]
            s = (b"Mon, " if r.random() < 0.5 else b"") + b"%d %s %d %02d:%02d" % (d, mon, y, r.randrange(24), r.randrange(60)) + (b":%02d" % r.randrange(60) if r.random() < 0.8 else b"") + b" " + r.choice([b"+0000", b"-0800", b"+0530", b"GMT"])
            s += r.choice([b"", b"", b" (comment)"])
            date = (y, M, d)
            hs.append(Hdr(b"Date", b" " + s, eol))
            env[0] = s
        if r.random() < 0.85:
            raw, val = self.text()
            hs.append(Hdr(b"Subject", b" " + raw, eol, val))
            if (b" " + raw):
                env[1] = val
        def addrs(name, idx, raw, val):
            hs.append(Hdr(name, b" " + raw, eol))
            env[idx] = val
        if r.random() < 0.9:
            addrs(b"From", 2, *self.mailboxes(r.choice([1, 1, 1, 2])))
        env[3] = env[4] = env[2]
        if r.random() < 0.3:
            raw, v = self.mailbox()
            addrs(b"Sender", 3, raw, [v])
        if r.random() < 0.3:
            addrs(b"Reply-To", 4, *self.mailboxes(r.choice([1, 2]), True))
        for i, n in ((5, b"To"), (6, b"Cc"), (7, b"Bcc")):
            if r.random() < (0.8 if i == 5 else 0.3):
                addrs(n, i, *self.mailboxes(r.choice([1, 1, 2, 4]), True))
        if r.random() < 0.4:
            ids = [b"<" + word(r) + b"@" + word(r) + b".x>" for _ in range(r.choice([1, 1, 2]))]
            hs.append(Hdr(b"In-Reply-To", b" " + self.ws().join(ids), eol))
            env[8] = b" ".join(ids)
        if r.random() < 0.7:
            i = b"<" + word(r) + b"." + word(r) + b"@" + word(r) + b">"
            hs.append(Hdr(b"Message-Id", b" " + i, eol))
            env[9] = i
        for _ in range(r.choice([0, 0, 1, 3])):
            raw, val = self.text()
            hs.append(Hdr(r.choice([b"Received", b"X-Tag", b"x-tag", b"X-Long-Header-Name", b"X"]), r.choice([b" ", b"", b"\t"]) + raw, eol, val))
        if r.random() < 0.05:
            # a header block much larger than one read of a file
            for k in range(r.choice([20, 200])):
                hs.append(Hdr(b"X-Pad%d" % k, b" " + word(r, 30, 60), eol))
        r.shuffle(hs)
        hs = [Hdr(cased(r, h.name), h.rawval, eol, h.val) for h in hs]
        return hs, env, date

    def params(self, more=()):
        r = self.rng
        out = list(more)
        if r.random() < 0.3:
            out.append((r.choice([b"name", b"format", b"x-p"]), word(r)))
        if r.random() < 0.15:
            out.append((b"title", r.choice([b"two words", b'quo"te', b"semi;colon", b""])))
        raw = b""
        r.shuffle(out)
        for k, v in out:
            q = not v or any(c not in ATOMCH for c in v) or r.random() < 0.3
            vv = b'"' + v.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"' if q else v
            raw += b";" + r.choice([b" ", b"", self.eol + b" ", self.eol + b"\t"]) + k + b"=" + vv
        return raw, out

    def mime_headers(self, p, ctype, sub, more=()):
        """content headers of part p; sets what BODYSTRUCTURE must say"""
        r, eol = self.rng, self.eol
        hs = []
        p.params = []
        if ctype is not None:
            raw, p.params = self.params(more)
            hs.append(Hdr(b"Content-Type", b" " + cased(r, ctype) + b"/" + cased(r, sub) + raw, eol))
        if r.random() < 0.3:
            p.cid = b"<" + word(r) + b"@" + word(r) + b">"
            hs.append(Hdr(b"Content-Id", b" " + p.cid, eol))
        if r.random() < 0.3:
            raw, p.desc = self.text()
            hs.append(Hdr(b"Content-Description", b" " + raw, eol, p.desc))
        if r.random() < 0.4 and p.kind in ("text", "other"):
            p.enc = r.choice([b"7bit", b"8bit", b"quoted-printable", b"base64", b"BINARY"])
            hs.append(Hdr(b"Content-Transfer-Encoding", b" " + p.enc, eol))
        if r.random() < 0.2 and p.kind in ("text", "other"):
            p.md5 = word(r, 22, 22) + b"=="
            hs.append(Hdr(b"Content-MD5", b" " + p.md5, eol))
        if r.random() < 0.3:
            raw, ps = self.params()
            p.disp = (r.choice([b"inline", b"attachment"]), ps)
            hs.append(Hdr(b"Content-Disposition", b" " + p.disp[0] + raw, eol))
        if r.random() < 0.2:
            p.lang = r.choice([[b"en"], [b"en", b"de"], [b"en-US"]])
            hs.append(Hdr(b"Content-Language", b" " + b", ".join(p.lang), eol))
        if r.random() < 0.2:
            p.loc = b"http://x.y/" + word(r)
            hs.append(Hdr(b"Content-Location", b" " + p.loc, eol))
        r.shuffle(hs)
        return hs

    # ---------------------------------------------------------------- parts
    def lines(self):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 5, 30])
        out = []
        for _ in range(n):
            out.append(b" ".join(r.choice(self.words) for _ in range(r.randint(0, 6))))
        b = self.eol.join(out)
        if n and r.random() < 0.8:
            b += self.eol
        return b

    def entity(self, depth, digest=False, toplevel=False):
        """content headers + body of one part"""
        r, eol = self.rng, self.eol
        p = Part()
        p.digest_default = digest
        kinds = ["text"] * 4 + ["other"] * 2 + (["multipart"] * 4 + ["message"] * 2 if depth > 0 else [])
        if toplevel:
            kinds = ["text"] * 3 + ["other"] + ["multipart"] * 5 + ["message"] * 2
        p.kind = r.choice(kinds)
        if digest:
            p.kind = "message" if depth > 0 and r.random() < 0.7 else "text"
        if p.kind == "text":
            p.type, p.sub = b"text", r.choice([b"plain", b"html"])
            if p.sub == b"plain" and not digest and r.random() < 0.5:
                p.hdrs = self.mime_headers(p, None, None)
            else:
                p.hdrs = self.mime_headers(p, p.type, p.sub, [(b"charset", b"utf-8")] if r.random() < 0.5 else [])
            p.body = self.lines()
        elif p.kind == "other":
            p.type, p.sub = r.choice([(b"application", b"pdf"), (b"image", b"png"), (b"message", b"delivery-status"), (b"x-a", b"b.c-d")])
            p.hdrs = self.mime_headers(p, p.type, p.sub)
            p.body = self.lines() + bytes(r.randrange(1, 256) for _ in range(r.choice([0, 3, 50]))).replace(b"\r", b"").replace(b"\n", b"").replace(b"-", b"")
        elif p.kind == "message":
            p.type, p.sub = b"message", b"rfc822"
            if digest and r.random() < 0.6:
                p.hdrs = self.mime_headers(p, None, None)
            else:
                p.hdrs = self.mime_headers(p, p.type, p.sub)
            p.msg = self.message(depth - 1)
            p.body = p.msg.bytes
        else:
            p.type = b"multipart"
            p.sub = r.choice([b"mixed", b"mixed", b"alternative", b"digest"])
            p.boundary = r.choice([word(r, 8, 20), b"=_" + word(r, 8, 12), b"a b" + word(r, 8, 9), word(r, 8, 10) + b"--x", b"--" + word(r, 9, 9)])
            p.hdrs = self.mime_headers(p, p.type, p.sub, [(b"boundary", p.boundary)])
            n = r.choice([1, 1, 2, 2, 3, 5])
            p.parts = [self.entity(depth - 1, p.sub == b"digest") for _ in range(n)]
            b = r.choice([b"", b"", b"This is a preamble" + eol, b"--" + eol + b"-- notboundary" + eol])
            for k in p.parts:
                b += b"--" + p.boundary + r.choice([b"", b"", b"", b" ", b"\t "]) + eol + k.bytes + eol
            b += b"--" + p.boundary + b"--" + r.choice([b"", eol, eol + b"epilogue" + eol, eol + eol])
            p.body = b
        p.head = b"".join(h.raw for h in p.hdrs)
        p.sep = eol
        if not toplevel:
            p.bytes = p.head + p.sep + p.body
        return p

    def message(self, depth, extra=()):
        """headers + entity"""
        r = self.rng
        m = Part()
        m.kind = "root"
        m.ent = self.entity(depth, toplevel=True) if depth > 0 else self.entity(0)
        hs, m.env, m.date = self.envelope_headers()
        hs += m.ent.hdrs + list(extra)
        if m.ent.kind == "multipart" or r.random() < 0.4:
            hs.append(Hdr(b"MIME-Version", r.choice([b" 1.0", b" 1.0 (x)"]), self.eol))
        r.shuffle(hs)
        m.hdrs = hs
        m.sep = self.eol
        m.body = m.ent.body
        m.head = b"".join(h.raw for h in hs)
        m.bytes = m.head + m.sep + m.body
        return m

def cased(rng, s):
    return s if rng.random() < 0.8 else bytes(c ^ 0x20 if 0x41 <= (c & ~0x20) <= 0x5a and rng.random() < 0.5 else c for c in s)

class Part:
    cid = desc = enc = md5 = disp = lang = loc = None
    parts = msg = None

# ---------------------------------------------------------------- reference
def fields(hs, sep, names, neg):
    names = [n.lower() for n in names]
    return b"".join(h.raw for h in hs if (h.name.lower() in names) != neg) + sep

def txt(m, what, names=()):
    """a section text of message m"""
    if what == "HEADER":
        return m.head + m.sep
    if what == "TEXT":
        return m.body
    if what == "HEADER.FIELDS":
        return fields(m.hdrs, m.sep, names, False)
    if what == "HEADER.FIELDS.NOT":
        return fields(m.hdrs, m.sep, names, True)
    raise ValueError(what)

MISSING = ("missing",)
ANY = ("any",)

def section(root, path, what, names=()):
    """expected content: bytes, MISSING (no such part) or ANY (the standard does
    not say)"""
    if not path:
        return root.bytes if what is None else MISSING if what == "MIME" else txt(root, what, names)
    msg, ent, first = root, root.ent, True
    isroot = True
    # ent: the entity whose parts the next number selects; msg is its message
    cur = None
    for n in path:
        if cur is not None:
            if cur.kind == "multipart":
                parts, isroot = cur.parts, False
            elif cur.kind == "message":
                e = cur.msg.ent
                if e.kind == "multipart":
                    parts = e.parts
                    isroot = False
                else:
                    if n != 1:
                        return MISSING
                    # the sole body of an embedded message
                    cur = Sole(cur.msg, e)
                    isroot = False
                    continue
            else:
                return MISSING
        else:
            e = root.ent
            if e.kind == "multipart":
                parts = e.parts
                isroot = False
            else:
                if n != 1:
                    return MISSING
                cur = Sole(root, e)
                continue
        if not 1 <= n <= len(parts):
            return MISSING
        cur = parts[n - 1]
    if isinstance(cur, Sole):
        if what is None:
            return cur.ent.body
        if what == "MIME":
            return ANY
        if cur.ent.kind == "message":
            return txt(cur.ent.msg, what, names)
        return MISSING
    if what is None:
        return cur.body
    if what == "MIME":
        return cur.head + cur.sep
    if cur.kind == "message":
        return txt(cur.msg, what, names)
    return MISSING

class Sole:
    """part 1 of a message which is not a multipart"""
    def __init__(self, msg, ent):
        self.msg, self.ent = msg, ent
        self.kind = ent.kind
        self.parts = ent.parts
        if ent.kind == "message":
            self.__dict__["msg"] = ent.msg
            self.outer = msg

def nlines(b):
    return b.count(b"\n") or b.count(b"\r")

def paths(root):
    """all part numbers of a mail"""
    out = []
    def ent(e, pre, top):
        if e.kind == "multipart":
            for i, k in enumerate(e.parts):
                out.append(pre + [i + 1])
                ent(k, pre + [i + 1], False)
        elif top:
            out.append(pre + [1])
            if e.kind == "message":
                ent(e.msg.ent, pre + [1], True)
        elif e.kind == "message":
            ent(e.msg.ent, pre, True)
    ent(root.ent, [], True)
    return out
