"""The real citm between model clients and a model server, with monitors of what the clients see."""
import os, re, shutil
from imapsrv import *
from vrun import DriverDied

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEYS = {}
def pem(name):
    if name not in KEYS:
        with open(os.path.join(ROOT, "data/keys", name + ".pem"), "rb") as f:
            KEYS[name] = f.read()
    return KEYS[name]

SYSF = {b"\\Answered", b"\\Flagged", b"\\Deleted", b"\\Seen", b"\\Draft"}

def is_local(v):
    return isinstance(v, tuple)

def sysf(fl):
    return frozenset(fl) & SYSF

def mangle(msg):
    """what a message which came unencrypted must look like"""
    if msg.startswith(b"Subject:"):
        return b"Subject: NOT ENCRYPTED:" + msg[8:]
    m = re.search(rb"\nSubject:|\r\n\r\n|\n\n", msg)
    if not m:
        return msg
    if m.group(0) == b"\nSubject:":
        return msg[:m.end()] + b" NOT ENCRYPTED:" + msg[m.end():]
    nl = m.group(0)[:len(m.group(0)) // 2]
    return msg[:m.start()] + nl + b"Subject: NOT ENCRYPTED: (no subject)" + msg[m.start():]

DATE_RE = re.compile(rb"^[ 0-3][0-9]-(Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec)-[0-9]{4} [0-9]{2}:[0-9]{2}:[0-9]{2} [+-][0-9]{4}$")

class Cell:
    """a message as one client sees it"""
    __slots__ = ("uid", "flags", "vid", "marked")
    def __init__(self):
        self.uid = self.flags = self.vid = None
        self.marked = 0

class Cmd:
    def __init__(self, tag, verb, raw, clock, **kw):
        self.tag, self.verb, self.raw, self.clock = tag, verb, raw, clock
        self.untagged = []
        self.__dict__.update(kw)

NOEXPUNGE = {b"FETCH", b"STORE", b"SEARCH"}

class Client:
    def __init__(self, w, cid, srv):
        self.w, self.id, self.srv = w, cid, srv
        self.buf = b""
        self.state = "greet"      # greet, pre, auth, sel, out, dead
        self.ntag = 0
        self.out = []             # commands without a tagged reply
        self.box = None           # name of the selected mailbox
        self.boxid = None         # server mailbox object when selected
        self.ro = False
        self.cells = []
        self.uidvld = None
        self.idle = None
        self.script = []
        self.done = False
        self.selinfo = None
        self.last = None
        self.byetext = None
        self.eof = False
        self.user, self.pw = srv.user, srv.pw
        self.literal = None
        self.logins = []

    # ------------------------------------------------------------- sending
    def send(self, verb, raw, **kw):
        self.ntag += 1
        tag = b"%s%d" % (self.w.rng.choice([b"A", b"a.", b"T"]), self.ntag)
        c = Cmd(tag, verb, raw, self.w.srv.tick(), **kw)
        c.fut_select = verb in (b"SELECT", b"EXAMINE")
        self.out.append(c)
        self.w.license(self, c)
        self.w.feed(self.id, tag + b" " + raw + b"\r\n")
        return c

    def busy(self):
        return bool(self.out)

    # ------------------------------------------------------------ receiving
    def recv(self, data):
        self.buf += data
        while True:
            n = need_more(self.buf)
            if n is None:
                return
            line, self.buf = self.buf[:n], self.buf[n:]
            self.line(line)

    def viol(self, prop, key, msg):
        self.w.viol(prop, key, "client %d: %s" % (self.id, msg))

    def line(self, l):
        w = self.w
        w.log("<%d %s" % (self.id, l[:300].decode("latin1").rstrip()))
        if l.startswith(b"+ ") or l == b"+\r\n":
            if self.idle == "asked":
                self.idle = "on"
            elif self.literal is not None:
                w.feed(self.id, self.literal.pop(0))
                if not self.literal:
                    self.literal = None
            else:
                self.viol("C10", "unexpected-plus", repr(l))
            return
        m = re.match(rb"(\S+) (OK|NO|BAD|BYE|PREAUTH)(?: (\[[^\]]*\]))? ?(.*)\r\n\Z", l, re.S | re.I)
        if l.startswith(b"* "):
            if m:
                self.status(m.group(2).upper(), m.group(3), l)
                return
            try:
                t = tokens(l)
            except Exception as e:
                self.viol("C10", "unreadable-response", "%r %s" % (l[:200], e))
                return
            self.untagged(t, l)
            return
        if not m:
            self.viol("C10", "unreadable-response", repr(l[:200]))
            return
        tag, st = m.group(1), m.group(2).upper()
        if not self.out or self.out[0].tag != tag:
            self.viol("C10", "tag-out-of-order", "%r while waiting for %r" % (l[:100], [c.tag for c in self.out][:3]))
            return
        c = self.out.pop(0)
        c.status, c.code, c.text = st, m.group(3), m.group(4)
        self.last = c
        w.ctx.count("replies_" + st.decode().lower())
        w.log("   (%s %s)" % (c.verb.decode(), st.decode()))
        self.tagged(c)

    def status(self, st, code, l):
        if st == b"BYE":
            self.byetext = l
            if not (self.out and self.out[0].verb == b"LOGOUT"):
                self.state = "bye"
            return
        if self.state == "greet":
            if st == b"OK":
                self.state = "pre"
            return
        if code:
            cur = self.out[0] if self.out else None
            if cur is not None and cur.fut_select:
                k = code[1:-1].split(b" ", 1)
                cur.untagged.append(("code", k[0].upper(), k[1] if len(k) > 1 else b""))
                return

    def cur(self):
        return self.out[0] if self.out else None

    def untagged(self, t, l):
        cur = self.cur()
        if len(t) >= 3 and t[1].isdigit():
            n, what = int(t[1]), t[2].upper()
            if cur is not None and cur.fut_select:
                # belongs to the mailbox being opened
                cur.untagged.append((what, n, t[3:]))
                if what != b"EXISTS" and what != b"RECENT":
                    self.viol("C10", "update-during-select", repr(l[:100]))
                return
            if self.state != "sel":
                if what in (b"EXISTS", b"RECENT", b"EXPUNGE", b"FETCH"):
                    self.viol("C10", "mailbox-data-unselected", repr(l[:100]))
                return
            if what == b"EXISTS":
                if n < len(self.cells):
                    self.viol("C10", "exists-shrinks", "EXISTS %d with %d messages known" % (n, len(self.cells)))
                    return
                if n > len(self.cells):
                    self.w.ctx.count("new_messages_seen", n - len(self.cells))
                while len(self.cells) < n:
                    self.cells.append(Cell())
            elif what == b"EXPUNGE":
                if cur is None:
                    self.viol("C10", "expunge-without-command", repr(l))
                elif cur.verb in NOEXPUNGE:
                    self.viol("C10", "expunge-during-" + cur.verb.decode(), repr(l) + repr(cur.raw[:80]))
                if not 1 <= n <= len(self.cells):
                    self.viol("C10", "expunge-range", "EXPUNGE %d of %d" % (n, len(self.cells)))
                    return
                c = self.cells.pop(n - 1)
                self.w.ctx.count("expunges_seen")
                if c.uid is not None:
                    self.w.gone(self, c.uid)
                self.changed = True
            elif what == b"FETCH":
                if not 1 <= n <= len(self.cells):
                    self.viol("C10", "fetch-range", "FETCH %d of %d" % (n, len(self.cells)))
                    return
                self.fetched(n, t[3], l)
                if cur is not None:
                    cur.untagged.append((what, n, t[3]))
            elif what == b"RECENT":
                pass
            else:
                self.viol("C10", "unknown-response", repr(l[:100]))
            return
        what = t[1].upper()
        if cur is not None:
            cur.untagged.append((what, t[2:], l))
        elif what not in (b"CAPABILITY",):
            self.viol("C10", "data-without-command", repr(l[:100]))

    def fetched(self, n, items, l):
        c = self.cells[n - 1]
        d = {}
        i = 0
        while i < len(items) - 1:
            k = items[i].upper()
            d[k] = items[i + 1]
            i += 2
        if b"UID" in d:
            u = int(d[b"UID"])
            if c.uid is not None and c.uid != u:
                self.viol("C10", "uid-of-sequence-number-changed", "message %d was UID %d, now %d" % (n, c.uid, u))
            if c.uid is None:
                lo = [x.uid for x in self.cells[:n - 1] if x.uid is not None]
                hi = [x.uid for x in self.cells[n:] if x.uid is not None]
                if (lo and lo[-1] >= u) or (hi and hi[0] <= u):
                    self.viol("C11", "uids-not-ascending", "message %d has UID %d among %r .. %r" % (n, u, lo[-2:], hi[:2]))
                c.uid = u
                self.w.saw_uid(self, u)
        if b"FLAGS" in d:
            c.flags = canon_flags(d[b"FLAGS"])
        if b"RFC822.SIZE" in d:
            # (every FETCH which asks for the one asks for the other)
            self.w.ctx.count("dates_judged")
            if b"INTERNALDATE" not in d:
                self.viol("C09", "internaldate-missing", "message %d with UID %r: %r" % (n, c.uid, sorted(d)))
        for k, v in d.items():
            if k.startswith(b"BODY[") and k in (b"BODY[]",) or k == b"RFC822":
                self.w.saw_body(self, c, v)
            if k == b"RFC822.SIZE":
                self.w.saw_size(self, c, int(v))
            if k == b"INTERNALDATE":
                self.w.saw_date(self, c, v)

    def tagged(self, c):
        w = self.w
        if c.verb == b"LOGIN":
            if c.status == b"OK":
                self.state = "auth"
        elif c.fut_select:
            self.cells = []
            if c.status == b"OK":
                self.state = "sel"
                self.box = c.box
                self.ro = c.verb == b"EXAMINE"
                codes = {x[1]: x[2] for x in c.untagged if x[0] == "code"}
                ex = [x[1] for x in c.untagged if x[0] == b"EXISTS"]
                if not ex or b"UIDVALIDITY" not in codes or b"UIDNEXT" not in codes or not any(x[0] == b"FLAGS" for x in c.untagged) or not any(x[0] == b"RECENT" for x in c.untagged):
                    self.viol("C10", "select-response-incomplete", repr(c.untagged)[:300])
                want = b"[READ-ONLY]" if self.ro else b"[READ-WRITE]"
                if (c.code or b"").upper() != want:
                    self.viol("C10", "select-access-code", "%r after %r" % (c.code, c.verb))
                n = ex[-1] if ex else 0
                self.cells = [Cell() for _ in range(n)]
                self.uidvld = int(codes.get(b"UIDVALIDITY", b"0"))
                self.uidnext = int(codes.get(b"UIDNEXT", b"0"))
                self.unseen = int(codes[b"UNSEEN"]) if b"UNSEEN" in codes else None
                w.selected(self)
            elif self.state != "pre":
                self.state = "auth"
                self.box = None
        elif c.verb == b"CLOSE" and c.status == b"OK":
            w.closed(self, c)
            self.state, self.box, self.cells = "auth", None, []
        elif c.verb == b"LOGOUT":
            self.state = "out"
        elif c.verb == b"IDLE":
            self.idle = None
        w.replied(self, c)

class World:
    def __init__(self, ctx, rng, props, driver="drv_citm", nkeys=1, maxchunk=None, leak=False):
        self.ctx, self.rng, self.props = ctx, rng, props
        self.drv = ctx.driver(driver, args=ctx.state.get("drvargs", ()), env=ctx.state.get("drvenv"))
        self.root = os.path.join(ctx.wdir, "root")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.mykey = "r1024_0"
        self.srvs = {}
        self.srv = self.add_user(b"joe@x.com", b"pw", self.mykey)
        self.licenses = []         # what clients have asked for and have no answer to yet
        self.exactly_once = True
        self.conns = {}            # stream id -> ("up", Session) / ("dn", Client)
        self.connects = []
        self.keyinfo = {}
        self.vowner = {}
        self.vid = 0
        self.plain = {}            # vid -> bytes a client must see (None hidden)
        self.byplain = {}
        self.uidmap = {}           # (box name, uidvld_dn) -> {uid_dn: vid}
        self.vidmap = {}
        self.uidvlds = {}
        self.expunged_uids = {}    # (box name, uidvld_dn) -> set
        self.maxuid = {}
        self.running = False
        self.trace = []
        self.closed_streams = {}
        self.maxchunk = rng.choice([0, 1, 7, 40, 4000]) if maxchunk is None else maxchunk
        self.expected_local = {}   # box -> number of injected messages expected (None unknown)
        self.local_subjects = (b"New Device Detected",)
        self.allow_fail = False
        self.allow_no = False
        self.appends = []
        self.crashed = False
        self.failed_ok = False

    # --------------------------------------------------------------- helpers
    nstarts = 0
    reborn = None
    name_ok = staticmethod(lambda n: True)
    tracecut = int(__import__("os").environ.get("TRCUT", "600"))

    def log(self, s):
        self.trace.append(s)

    alias = {}
    def viol(self, prop, key, msg):
        prop = self.alias.get(prop, prop)
        if prop in self.props:
            self.ctx.violation(key, msg + "\n  trace tail:\n   " + "\n   ".join(self.trace[-60:])[-5000:])
        else:
            self.ctx.count("judged_elsewhere")

    def call(self, *f):
        return self.drv.call(*f)

    def add_user(self, user, pw, mykey):
        s = Server(self.rng, user, pw, root=self.srvs and self.srv or None)
        s.mykey = mykey
        s.on_append = lambda body: self.on_append(s, body)
        s.on_xkeyadd = lambda p: self.on_xkeyadd(s, p)
        s.on_change = self.on_change
        self.srvs[user] = s
        return s

    def feed(self, sid, data):
        self.log(">%d %s" % (sid, data[:300].decode("latin1").rstrip()))
        self.call("feed", sid, data)

    def info(self, name):
        """public PEM and hex fingerprint of a key"""
        c = self.ctx.state.setdefault("keyinfo", {})
        if name not in c:
            r = self.call("keyinfo", pem(name))
            assert r[0] == b"OK", r
            c[name] = (r[1], r[2].hex().encode())
        return c[name]

    def seed_key(self, srv=None):
        srv = srv or self.srv
        d = os.path.join(self.root, srv.user.decode(), "keys")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "mykey.pem"), "wb") as f:
            f.write(pem(srv.mykey))

    def on_xkeyadd(self, srv, p):
        for n in ("r1024_0", "r1024_1", "r1024_2", "r2048_0", "r2048_1"):
            if os.path.exists(os.path.join(ROOT, "data/keys", n + ".pem")) and self.info(n)[0].strip() == p.strip():
                srv.add_key(self.info(n)[1], p)
                return n
        srv.add_key(b"00" * 32, p)

    # -------------------------------------------------------------- messages
    def make(self, kind, text=None, to=None):
        """a new mail: (vid, wire body, what the user must see)"""
        self.vid += 1
        v = self.vid
        rng = self.rng
        if text is None:
            hdr = [b"From: a@b.c", b"To: joe@x.com", b"X-Vid: %d" % v]
            if rng.random() < 0.8:
                hdr.insert(rng.randint(0, 3), b"Subject: s%d" % v)
            if rng.random() < 0.5:
                hdr.insert(rng.randint(0, len(hdr)), b"Date: Mon, 7 Feb 1994 21:52:25 -0800")
            text = b"\r\n".join(hdr) + b"\r\n\r\n" + b"body %d\r\n" % v * rng.choice([0, 1, 3, 200])
        to = to or [self.mykey]
        if kind == "plain":
            body, plain = text, mangle(text)
        else:
            body = self.encrypt(text, to)
            plain = text
            if kind == "not4me":
                plain = None
            elif kind == "corrupt":
                # damage the ciphertext after the header line
                b = bytearray(body)
                p = len(b) // 2
                while b[p] in b"\r\n=":
                    p += 1
                b[p] = ord("A") if b[p] != ord("A") else ord("B")
                body = bytes(b)
                plain = ("corrupt", body)
        self.plain[v] = plain
        if isinstance(plain, bytes):
            self.byplain[plain] = v
        return v, body, plain

    def encrypt(self, text, names):
        r = self.call("encrypt", text, *[self.info(n)[0] for n in names])
        assert r[0] == b"OK", r
        return r[1]

    def deliver(self, box, kind="enc", flags=(), text=None, date=None, to=None):
        if to is None and kind != "not4me":
            to = [box.srv.mykey]
        v, body, plain = self.make(kind, text, to)
        date = date or b"%2d-%s-%04d %02d:%02d:%02d %s" % (self.rng.randint(1, 28), self.rng.choice([b"Jan", b"Feb", b"Dec"]), self.rng.choice([1990, 2005, 2024]), self.rng.randrange(24), self.rng.randrange(60), self.rng.randrange(60), self.rng.choice([b"+0000", b"-0800", b"+0530"]))
        m = box.add(v, flags, date, body, plain, kind)
        self.vowner[v] = box.srv
        self.log("   srv: deliver %s uid %d vid %d %s %r" % (box.name.decode("latin1"), m.uid, v, kind, sorted(flags)))
        return m

    def on_append(self, srv, body):
        """the upstream got an APPEND: it must be encrypted, to every key"""
        vid = None
        self.vid += 1
        vid = self.vid
        if not body.startswith(b"-----BEGIN SPLINTERMAIL MESSAGE-----"):
            self.viol("C12", "append-not-encrypted", "APPEND reached the server unencrypted: %r" % body[:200])
            self.plain[vid] = None
            return vid, None, "raw"
        r = self.call("decrypt", pem(srv.mykey), body)
        if r[0] != b"OK":
            self.viol("C12", "append-undecryptable", "own key can't read an APPENDed message: %r" % r[0])
            self.plain[vid] = None
            return vid, None, "raw"
        plain = r[1]
        recips = set(x.hex().encode() for x in r[2:])
        self.last_recips = recips
        self.recips_of = getattr(self, 'recips_of', {})
        self.appends.append((plain, recips, set(srv.keys)))
        v = self.byplain.get(plain)
        if v is not None:
            vid = v
        self.plain[vid] = plain
        self.byplain[plain] = vid
        self.recips_of[vid] = recips
        self.vowner.setdefault(vid, srv)
        return vid, plain, "append"

    # ---------------------------------------------------------------- running
    def start(self):
        if self.drv.p is None:
            self.drv.start()
        self.nstarts += 1
        r = self.call("start", self.root, self.rng.getrandbits(32), self.maxchunk, 1600000000 + 100000 * self.nstarts)
        self.running = r[0] == b"OK"
        self.conns, self.connects, self.closed_streams = {}, [], {}
        self.allsess = {}
        self.owner = {}            # connect number -> client it was made for
        for s in self.srvs.values():
            s.sessions[:] = []
        return self.running

    def stop(self):
        evs = self.call("stop")
        self.running = False
        self.events(evs)
        for e in evs:
            if e.startswith((b"OPEN", b"LEFT")):
                self.viol("C28", "not-closed-at-shutdown", repr(e))
        self.conns = {}
        for s in self.srvs.values():
            s.sessions[:] = []

    def client(self, srv=None):
        r = self.call("accept")
        c = Client(self, int(r[0]), srv or self.rng.choice(list(self.srvs.values())))
        self.conns[c.id] = ("dn", c)
        self.owner[int(r[1])] = c
        return c

    def clients(self):
        return [c for k, c in self.conns.values() if k == "dn"]

    def sessions(self):
        return [s for k, s in self.conns.values() if k == "up"]

    def events(self, evs):
        for e in evs:
            t, i, data = e.split(b" ", 2)
            i = int(i)
            if t == b"W":
                kind, o = self.conns[i]
                if kind == "dn":
                    o.recv(data)
                else:
                    self.log("^%d %s" % (i, data[:200].decode("latin1").rstrip()))
                    o.buf += data
            elif t == b"C":
                self.connects.append(i)
            elif t == b"X":
                if i in self.connects:
                    self.connects.remove(i)
            elif t in (b"S", b"A", b"F"):
                self.closed_streams.setdefault(i, []).append((t, data))
                self.log("   %s %d %s" % (t.decode(), i, data.decode()))
                kind, o = self.conns.get(i, (None, None))
                if kind == "dn" and t in (b"A", b"F"):
                    if o.state != "out":
                        o.state = "dead"
                    o.eof = True
                elif kind == "up" and t in (b"A", b"F"):
                    o.closed = True
                    o.state = "closed"
                    if o in o.srv.sessions:
                        o.srv.sessions.remove(o)

    def run(self, limit=-1):
        self.events(self.call("run", limit))

    def connect(self, ok=True, i=0):
        n = self.connects.pop(i)
        r = self.call("connect", n, "ok" if ok else "fail")
        if r[0].isdigit():
            sid = int(r[0])
            s = Session(self.srv, sid)
            s.client = self.owner.get(n)
            self.allsess[sid] = s
            self.conns[sid] = ("up", s)
            self.flush_up(s)
            self.events(r[1:])
            return s
        self.events(r[1:])

    def flush_up(self, s):
        o = s.take()
        if o and not s.closed:
            self.log("v%d %s" % (s.sid, o[:self.tracecut].decode("latin1").rstrip()))
            self.call("feed", s.sid, o)
        for b in s.bad:
            self.viol("C10" if False else "C12", "upstream-protocol", "citm sent the server a command it must not: %s" % b)
        s.bad = []

    def actions(self):
        a = []
        for n in self.connects:
            a.append(("connect", None))
        for s in self.sessions():
            if s.closed:
                continue
            if s.ready():
                a.append(("serve", s))
            if s.want_push():
                a.append(("push", s))
        return a

    def do(self, a):
        k, o = a
        if k == "connect":
            self.connect()
        elif k == "serve":
            o.serve()
            self.flush_up(o)
        elif k == "push":
            o.push()
            self.flush_up(o)

    def settle(self, limit=4000, nopush=False):
        """run everything until nothing is left to do"""
        for _ in range(limit):
            self.run(-1)
            a = self.actions()
            if nopush:
                a = [x for x in a if x[0] != "push"]
            if not a:
                return True
            self.do(self.rng.choice(a))
        self.viol("C09", "never-quiet", "citm and server still exchange commands after %d steps" % limit)
        return False

    # ------------------------------------------------------------- monitors
    def key(self, c):
        return (c.user, c.box, c.uidvld)

    def selected(self, c):
        b = c.srv.boxes.get(c.srv.key(c.box))
        c.boxid = b
        k = self.key(c)
        if c.uidnext <= self.maxuid.get(k, 0):
            self.viol("C11", "uidnext-not-above-uids", "UIDNEXT %d but UID %d was seen in %r" % (c.uidnext, self.maxuid[k], c.box))
        c.uidnext_at_select = c.uidnext
        old = self.uidvlds.setdefault(b, c.uidvld) if b is not None and b.uidvalidity_stable else c.uidvld
        if old != c.uidvld and not self.allow_no:
            self.viol("C11", "uidvalidity-changed", "%r had UIDVALIDITY %d, now %d" % (c.box, old, c.uidvld))
        if self.reborn is not None and b is not None and self.reborn.setdefault((c.user, c.box, c.uidvld), b) is not b:
            self.viol("C11", "uidvalidity-reused", "%r still has UIDVALIDITY %d though the server has a new mailbox of that name" % (c.box, c.uidvld))
        self.ctx.count("selects")

    def saw_uid(self, c, uid):
        k = self.key(c)
        self.maxuid[k] = max(self.maxuid.get(k, 0), uid)
        if uid in self.expunged_uids.get(k, ()):
            # another client may not have processed the expunge yet: only a
            # message which appears anew is wrong
            pass

    def gone(self, c, uid):
        self.expunged_uids.setdefault(self.key(c), set()).add(uid)

    def closed(self, c, cmd):
        pass

    def identify(self, body):
        """vid of the message a client read"""
        v = self.byplain.get(body)
        if v is not None:
            return v
        return None

    def saw_body(self, c, cell, body):
        self.ctx.count("bodies_read")
        v = self.identify(body)
        if v is None:
            m = re.search(rb"Subject: CITM failed to decrypt message\r\n\r\nThe following message appears to be corrupted and cannot be decrypted:\r\n\r\n", body)
            if m:
                rest = body[m.end():]
                for vid, p in self.plain.items():
                    if isinstance(p, tuple) and p[1] == rest:
                        v = vid
            elif any(b"Subject: " + s in body[:600] for s in self.local_subjects) and body.startswith(b"From: CITM <citm@localhost>\r\n"):
                v = ("local", body)
        if v is None:
            self.viol("C09", "unknown-content", "client %d reads a message that nobody sent: %r" % (c.id, body[:400]))
            return
        cell.vid = v
        if not is_local(v) and v in self.vowner and self.vowner[v] is not c.srv:
            self.viol("C28", "another-users-mail", "client %d logged in as %r reads a message of %r" % (c.id, c.user, self.vowner[v].user))
        if cell.uid is not None:
            mp = self.uidmap.setdefault(self.key(c), {})
            old = mp.get(cell.uid)
            if old is None:
                mp[cell.uid] = v
                self.stable(c, cell.uid, v)
            elif old != v:
                self.viol("C11", "uid-names-another-message", "%r UID %d was message %r, now %r" % (c.box, cell.uid, old, v))

    def stable(self, c, uid, v):
        """the same message keeps its UID"""
        if is_local(v) or c.boxid is None or len([m for m in c.boxid.all if m.vid == v]) != 1:
            return
        mp = self.vidmap.setdefault(self.key(c), {})
        self.ctx.count("uids_recorded")
        if mp.setdefault(v, uid) != uid:
            self.viol("C11", "message-changed-uid", "%r message %r was UID %d, now %d" % (c.box, v, mp[v], uid))

    def vid_of(self, c, cell):
        if cell.vid is not None:
            return cell.vid
        if cell.uid is not None:
            return self.uidmap.get(self.key(c), {}).get(cell.uid)

    def on_change(self, kind, box, m, detail):
        """citm changes something upstream: some client must have asked"""
        self.ctx.count("upstream_changes_judged")
        vid = m if kind == "append" else m.vid
        best = None
        for c in self.licenses:
            if kind not in c.lic:
                continue
            if kind == "append":
                if c.vid == vid and c.dstobj is box:
                    best = c
                    break
                continue
            if c.lbox is not box or c.ro:
                continue
            if kind == "expunge":
                best = c
                break
            if kind == "copy" and c.dstobj is not detail:
                continue
            if kind == "store" and (c.op, c.flags) != ({b"+": 1, b"-": -1}.get(detail[0], 0), detail[1]):
                continue
            tok = vid if vid in c.lvids else None
            if tok in c.lvids:
                # the oldest command first
                if best is None or (btok is None and tok is not None):
                    best, btok = c, tok
        if best is None:
            what = {"store": lambda: "%s%r" % (detail[0].decode("latin1"), sorted(detail[1]))}.get(kind, lambda: "")()
            self.viol("C12", "unrequested-" + kind, "citm did %s %s on message %r of %r which no client asked for" % (kind, what, vid, box.name))
        elif self.exactly_once and kind == "copy":
            # a command with messages whose content no client has read yet
            # can't be accounted for
            if not any(None in c.lvids for c in self.licenses if "copy" in c.lic):
                best.lvids.remove(btok)
                self.ctx.count("copies_accounted")
        elif self.exactly_once and kind == "append":
            self.licenses.remove(best)

    def license(self, c, cmd):
        v = cmd.verb
        if v in (b"STORE", b"UID STORE") and hasattr(cmd, "op"):
            cmd.lic = ("store",)
        elif v in (b"FETCH", b"UID FETCH") and any(re.match(rb"BODY\[|RFC822$|RFC822\.TEXT$", a) for a in getattr(cmd, "attrs", ())):
            cmd.lic, cmd.op, cmd.flags = ("store",), 1, frozenset([b"\\Seen"])
            cmd.vids = [self.vid_of(c, x) for x in (cmd.cells or c.cells)]
        elif v in (b"EXPUNGE", b"CLOSE"):
            cmd.lic = ("expunge",)
        elif v in (b"COPY", b"UID COPY") and hasattr(cmd, "dstobj"):
            cmd.lic = ("copy",)
        elif v == b"APPEND":
            cmd.lic = ("append",)
        else:
            return
        cmd.ro = c.ro and v != b"APPEND" and cmd.lic != ("copy",)
        cmd.lbox = c.boxid
        cmd.lvids = list(getattr(cmd, "vids", ()))
        self.licenses.append(cmd)

    def body_of(self, vid):
        if isinstance(vid, tuple):
            return vid[1]
        return self.plain.get(vid)

    def saw_size(self, c, cell, n):
        v = self.vid_of(c, cell)
        if v is None:
            return
        p = self.body_of(v)
        if isinstance(p, bytes) and n != len(p):
            self.viol("C09", "rfc822-size", "size %d of a message of %d bytes" % (n, len(p)))

    def saw_date(self, c, cell, d):
        if not DATE_RE.match(d):
            self.viol("C09", "internaldate-form", repr(d))
            return
        v = self.vid_of(c, cell)
        if v is None or isinstance(v, tuple):
            return
        dates = [m.date for b in c.srv.boxes.values() for m in b.msgs if m.vid == v]
        if dates and d.strip() not in [x.strip() for x in dates]:
            self.viol("C09", "internaldate", "INTERNALDATE %r, the server has %r" % (d, dates))

    def replied(self, c, cmd):
        if cmd in self.licenses:
            self.licenses.remove(cmd)
        f = getattr(cmd, "judge", None)
        if f:
            f(c, cmd)
