"""A model IMAP server (RFC 3501, CONDSTORE, QRESYNC, UIDPLUS, IDLE, ENABLE, UNSELECT, XKEY).
It is the upstream of the real citm, and its mailboxes are the reference state."""
import re

class Q(bytes):
    """a string which came quoted or as a literal"""

SPEC = b" ()\r\n"

def need_more(buf):
    """length of the first complete line (with its literals) or None"""
    p = 0
    while True:
        e = buf.find(b"\r\n", p)
        if e < 0:
            return None
        m = re.search(rb"\{(\d+)\+?\}$", buf[p:e])
        if not m:
            return e + 2
        p = e + 2 + int(m.group(1))
        if p > len(buf):
            return None

def tokens(b, p=0):
    """one full line -> nested list"""
    stack = [[]]
    n = len(b)
    while p < n:
        c = b[p:p + 1]
        if c == b" ":
            p += 1
        elif b.startswith(b"\r\n", p):
            break
        elif c == b"(":
            stack.append([]); p += 1
        elif c == b")":
            l = stack.pop(); stack[-1].append(l); p += 1
        elif c == b'"':
            out = bytearray(); p += 1
            while b[p] != 0x22:
                if b[p] == 0x5c:
                    p += 1
                out.append(b[p]); p += 1
            p += 1
            stack[-1].append(Q(bytes(out)))
        elif c == b"{":
            e = b.index(b"}\r\n", p)
            k = int(b[p + 1:e].rstrip(b"+"))
            p = e + 3
            stack[-1].append(Q(b[p:p + k])); p += k
        else:
            q = p
            while q < n and b[q] not in SPEC:
                if b[q] == 0x5b and b[p:q].upper() in (b"BODY", b"BODY.PEEK"):
                    while b[q] != 0x5d:
                        if b[q] == 0x22:
                            q += 1
                            while b[q] != 0x22:
                                q += 2 if b[q] == 0x5c else 1
                        q += 1
                q += 1
            stack[-1].append(bytes(b[p:q])); p = q
    if len(stack) != 1:
        raise ValueError("unbalanced parentheses in %r" % b[:300])
    return stack[0]

def quote(s):
    if any(c < 0x20 or c > 0x7e for c in s) or len(s) > 200:
        return b"{%d}\r\n" % len(s) + s
    return b'"' + s.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'

def uidset(l):
    """compact uid set"""
    l = sorted(l)
    out, i = [], 0
    while i < len(l):
        j = i
        while j + 1 < len(l) and l[j + 1] == l[j] + 1:
            j += 1
        out.append(b"%d" % l[i] if i == j else b"%d:%d" % (l[i], l[j]))
        i = j + 1
    return b",".join(out)

def parse_set(s, mx):
    out = []
    for part in s.split(b","):
        a, _, b = part.partition(b":")
        f = lambda x: mx if x == b"*" else int(x)
        lo = f(a); hi = f(b) if b else lo
        out.append((min(lo, hi), max(lo, hi)))
    return out

def in_set(st, u):
    return any(a <= u <= b for a, b in st)

SYS = {b"\\answered": b"\\Answered", b"\\flagged": b"\\Flagged", b"\\deleted": b"\\Deleted", b"\\seen": b"\\Seen", b"\\draft": b"\\Draft"}

def canon_flags(l):
    return frozenset(SYS.get(f.lower(), f) for f in l) - {b"\\Recent"}

class Msg:
    def __init__(self, uid, vid, flags, date, body, plain, kind):
        self.uid, self.vid, self.flags, self.date, self.body = uid, vid, flags, date, body
        self.plain = plain    # what a user of citm must see; None: hidden
        self.kind = kind
        self.modseq = 0
        self.hist = []        # (clock, flags)

class Mbox:
    def __init__(self, srv, name):
        self.srv, self.name = srv, name
        srv.uidvld += 1 + srv.rng.randint(0, 3)
        self.uidvld = srv.uidvld
        self.uidnext = srv.rng.choice([1, 1, 7, 4000000])
        self.hi = srv.rng.choice([1, 1, 5, 2 ** 40])
        self.msgs = []
        self.gone = []        # (uid, modseq)
        self.oldvids = set()

    def bump(self):
        self.hi += 1 + (self.srv.rng.random() < 0.2) * self.srv.rng.randint(1, 5)
        return self.hi

    def find(self, uid):
        for m in self.msgs:
            if m.uid == uid:
                return m

    def add(self, vid, flags, date, body, plain, kind):
        m = Msg(self.uidnext, vid, frozenset(flags), date, body, plain, kind)
        self.uidnext += 1 + (self.srv.rng.random() < 0.2) * self.srv.rng.randint(1, 3)
        m.modseq = self.bump()
        m.hist = [(self.srv.tick(), m.flags)]
        self.msgs.append(m)
        return m

    def setflags(self, m, flags):
        flags = frozenset(flags)
        if flags != m.flags:
            m.flags = flags
            m.modseq = self.bump()
            m.hist.append((self.srv.tick(), flags))
            return True
        return False

    def expunge(self, m):
        self.msgs.remove(m)
        self.gone.append((m.uid, self.bump()))
        m.hist.append((self.srv.tick(), None))

class Server:
    def __init__(self, rng, user=b"joe@x.com", pw=b"pw", root=None):
        self.rng, self.user, self.pw = rng, user, pw
        self.root = root or self
        self.clock = 0
        self.users = root.users if root else {}
        self.users[user] = self
        self.mykey = None
        self.uidvld = rng.choice([1, 1000, 2000000])
        self.boxes = {}
        self.subs = set()
        self.sessions = []
        self.keys = {}         # hex fpr -> pem
        self.keylog = []
        self.cmdlog = []       # (clock, session, verb, raw)
        self.sent_body = {}    # (box uidvld, uid) -> times body was sent
        self.bad_select = False
        self.hardno = []       # refusals which citm can only answer by dropping a connection
        self.no_rate = 0.0     # chance that a mutating command is refused
        self.himod_codes = rng.random() < 0.5
        self.logins = []
        self.on_append = None
        self.on_change = None  # (kind, box, msg, detail)
        self.create(b"INBOX")

    def tick(self):
        self.root.clock += 1
        return self.root.clock

    def create(self, name):
        self.boxes[name] = Mbox(self, name)
        return self.boxes[name]

    def key(self, name):
        return b"INBOX" if name.upper() == b"INBOX" else name

    def add_key(self, fpr, pem):
        if fpr not in self.keys:
            self.keys[fpr] = pem
            for s in self.sessions:
                if s.xk is not None:
                    s.xkdirty = True

    def del_key(self, fpr):
        if self.keys.pop(fpr, None) is not None:
            for s in self.sessions:
                if s.xk is not None:
                    s.xkdirty = True

class Session:
    """one upstream connection"""
    def __init__(self, srv, sid):
        self.srv, self.sid = srv, sid
        self.buf = b""
        self.out = []
        self.state = "pre"
        self.box = None
        self.ro = False
        self.view = []         # uids the client was told about, in order
        self.ngone = 0
        self.vflags = {}       # uid -> modseq last reported
        self.idle = None
        self.modseqs = False
        self.faulted = False
        self.xk = None         # fingerprints the client knows
        self.xktag = None
        self.xkdirty = False
        self.enabled = False
        self.bad = []          # protocol misuse by the citm
        self.saw = []
        self.closed = False
        self.dead = False
        self.client = None
        self.login_reply = None
        srv.sessions.append(self)
        self.put(b"* OK hi\r\n")

    def put(self, b):
        self.out.append(b)

    def take(self):
        o = b"".join(self.out)
        self.out = []
        return o

    def ready(self):
        return not self.dead and need_more(self.buf) is not None

    # --------------------------------------------------------- notifications
    def pending(self):
        if not self.box or self.state != "sel":
            return False
        uids = [m.uid for m in self.box.msgs]
        return uids != self.view or self.ngone < len(self.box.gone) or any(self.vflags.get(m.uid, 0) < m.modseq for m in self.box.msgs)

    def flush(self, vanish=True):
        """report all changes of the selected mailbox"""
        if self.state != "sel":
            return
        have = {m.uid: m for m in self.box.msgs}
        # a message may come and go before this session ever hears of it; the
        # citm may know it from COPYUID, so tell it that it is gone
        lost = [u for u in self.view if u not in have]
        lost += [u for u, _ in self.box.gone[self.ngone:] if u not in self.view]
        self.ngone = len(self.box.gone)
        if lost and vanish:
            self.put(b"* VANISHED " + uidset(lost) + b"\r\n")
            self.view = [u for u in self.view if u in have]
        new = [m for m in self.box.msgs if m.uid not in self.vflags]
        if new:
            for m in new:
                self.view.append(m.uid)
                self.vflags[m.uid] = m.modseq
            self.put(b"* %d EXISTS\r\n" % len(self.view))
            if self.srv.rng.random() < 0.5:
                self.put(b"* 0 RECENT\r\n")
        for m in self.box.msgs:
            if m.uid in self.vflags and self.vflags[m.uid] < m.modseq:
                self.vflags[m.uid] = m.modseq
                self.put_fetch(m, b"FLAGS")

    def put_fetch(self, m, *attrs):
        i = self.view.index(m.uid) + 1
        parts = [b"UID %d" % m.uid]
        for a in attrs:
            if a == b"FLAGS":
                parts.append(b"FLAGS (" + b" ".join(sorted(m.flags)) + b")")
            elif a == b"INTERNALDATE":
                parts.append(b'INTERNALDATE "' + m.date + b'"')
            elif a == b"BODY.PEEK[]":
                parts.append(b"BODY[] " + b"{%d}\r\n" % len(m.body) + m.body)
                k = (self.box.uidvld, m.uid)
                self.srv.sent_body[k] = self.srv.sent_body.get(k, 0) + 1
        parts.append(b"MODSEQ (%d)" % m.modseq)
        if self.srv.rng.random() < 0.3:
            self.srv.rng.shuffle(parts)
        self.modseqs = True
        self.put(b"* %d FETCH (" % i + b" ".join(parts) + b")\r\n")

    def push(self):
        """unsolicited updates while a command waits"""
        if self.idle:
            self.flush()
        if self.xk is not None:
            self.xkflush()

    def xkflush(self):
        cur = self.srv.keys
        for f in sorted(self.xk - set(cur)):
            self.put(b"* XKEYSYNC DELETED " + f + b"\r\n")
        for f in sorted(set(cur) - self.xk):
            pem = cur[f]
            self.put(b"* XKEYSYNC CREATED {%d}\r\n" % len(pem) + pem + b"\r\n")
        self.xk = set(cur)
        self.xkdirty = False

    def want_push(self):
        return not self.dead and ((self.idle and self.pending()) or (self.xk is not None and self.xkdirty))

    # --------------------------------------------------------------- commands
    def serve(self):
        """handle one command"""
        n = need_more(self.buf)
        line, self.buf = self.buf[:n], self.buf[n:]
        srv = self.srv
        try:
            t = tokens(line)
        except Exception as e:
            self.bad.append("unreadable command %r (%s)" % (line[:200], e))
            return
        if self.idle or self.xk is not None:
            if len(t) == 1 and t[0].upper() == b"DONE":
                if self.idle:
                    if srv.rng.random() < 0.5:
                        self.flush()
                    self.put(self.idle + b" OK idled\r\n"); self.idle = None
                else:
                    self.xkflush()
                    self.put(self.xktag + b" OK synced\r\n"); self.xk = None
                return
            self.bad.append("command %r instead of DONE" % line[:80])
            return
        tag, verb = t[0], t[1].upper()
        args = t[2:]
        uid = False
        if verb == b"UID":
            uid = True
            verb = t[2].upper()
            args = t[3:]
        self.saw.append((verb, args))
        srv.cmdlog.append((srv.tick(), self, (b"UID " if uid else b"") + verb, args))
        f = getattr(self, "c_" + verb.decode().lower(), None)
        if f is None:
            self.bad.append("unexpected command %r" % line[:80])
            self.put(tag + b" BAD what\r\n")
            return
        need = {"pre": (b"LOGIN", b"CAPABILITY", b"NOOP", b"LOGOUT")}.get(self.state)
        if need and verb not in need:
            # pipelined behind LOGIN: only wrong if that fails
            self.put(tag + b" BAD not logged in\r\n")
            return
        if verb in (b"FETCH", b"STORE", b"COPY", b"EXPUNGE", b"UNSELECT", b"CLOSE", b"SEARCH") and self.state != "sel":
            self.bad.append("%r without a mailbox" % line[:80])
            self.put(tag + b" BAD no mailbox\r\n")
            return
        if uid:
            f(tag, args, True)
        else:
            f(tag, args)

    def ok(self, tag, text=b"done", flush=True):
        # a MODSEQ must not run ahead of what the client was told to exist
        # (servers report from a synchronized view), so after one, report all
        if self.state == "sel" and (self.modseqs or flush and self.srv.rng.random() < 0.6):
            self.flush()
        self.modseqs = False
        self.put(tag + b" OK " + text + b"\r\n")

    def himod(self):
        """a HIGHESTMODSEQ code, if everything up to it was reported"""
        if self.srv.himod_codes and self.state == "sel" and not self.pending() and not any(True for u in self.view if not self.box.find(u)):
            return b"[HIGHESTMODSEQ %d] " % self.box.hi
        return b""

    def refuse(self, tag):
        if self.srv.rng.random() < self.srv.no_rate:
            self.put(tag + b" NO refused\r\n")
            return True
        return False

    def c_login(self, tag, a):
        s = self.srv.users.get(bytes(a[0])) if len(a) == 2 else None
        good = s is not None and a[1] == s.pw
        if s is not None and s is not self.srv:
            self.srv.sessions.remove(self)
            self.srv = s
            s.sessions.append(self)
        self.srv.logins.append((self.sid, bytes(a[0]), bytes(a[1]), good))
        r = self.login_reply
        if r is not None:
            self.put(r.replace(b"TAG", tag))
            if b" OK " in r:
                self.state = "auth"
            return
        if good:
            self.state = "auth"
            self.put(tag + b" OK [CAPABILITY IMAP4rev1 ENABLE UNSELECT IDLE UIDPLUS QRESYNC CONDSTORE XKEY] hello\r\n")
        else:
            self.put(tag + b" NO bad login\r\n")

    def c_capability(self, tag, a):
        self.put(b"* CAPABILITY IMAP4rev1 ENABLE UNSELECT IDLE UIDPLUS QRESYNC CONDSTORE XKEY\r\n")
        self.ok(tag)

    def c_enable(self, tag, a):
        self.enabled = True
        self.put(b"* ENABLED " + b" ".join(x.upper() for x in a) + b"\r\n")
        self.ok(tag)

    def c_noop(self, tag, a):
        self.flush()
        self.ok(tag)

    def c_idle(self, tag, a):
        self.put(b"+ idling\r\n")
        self.idle = tag

    def c_logout(self, tag, a):
        self.put(b"* BYE bye\r\n")
        self.ok(tag, flush=False)

    def c_xkeysync(self, tag, a):
        self.xk = set(bytes(x) for x in a)
        self.xktag = tag
        self.srv.keylog.append(("sync", self.sid, frozenset(self.xk)))
        self.put(b"+ syncing\r\n") if self.srv.rng.random() < 0.3 else None
        self.xkflush()
        self.put(b"* XKEYSYNC OK\r\n")
        # nothing more until the next change

    def c_xkeyadd(self, tag, a):
        self.srv.keylog.append(("add", self.sid, bytes(a[0])))
        if self.srv.on_xkeyadd:
            self.srv.on_xkeyadd(bytes(a[0]))
        self.ok(tag)

    def c_select(self, tag, a, ro=False):
        srv = self.srv
        name = srv.key(bytes(a[0]))
        if self.state == "sel" and self.enabled:
            self.put(b"* OK [CLOSED] closed\r\n")
        self.state, self.box, self.view, self.vflags = "auth", None, [], {}
        b = srv.boxes.get(name)
        if srv.bad_select:
            self.put(tag + b" BAD not understood\r\n")
            return
        if b is None:
            self.put(tag + b" NO no such mailbox\r\n")
            return
        if self.srv.rng.random() < self.srv.no_rate * 0.3:
            self.put(tag + b" NO not now\r\n")
            srv.hardno.append((name, "SELECT"))
            return
        self.state, self.box, self.ro = "sel", b, ro
        self.view = [m.uid for m in b.msgs]
        self.ngone = len(b.gone)
        self.vflags = {m.uid: m.modseq for m in b.msgs}
        pre = [b"* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft kw1)\r\n",
               b"* %d EXISTS\r\n" % len(self.view), b"* 0 RECENT\r\n",
               b"* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft \\*)] ok\r\n",
               b"* OK [UIDVALIDITY %d] ok\r\n" % b.uidvld,
               b"* OK [UIDNEXT %d] ok\r\n" % b.uidnext,
               b"* OK [HIGHESTMODSEQ %d] ok\r\n" % b.hi]
        if srv.rng.random() < 0.3:
            srv.rng.shuffle(pre)
        for p in pre:
            self.put(p)
        for p in a[1:]:
            if isinstance(p, list) and p and p[0].upper() == b"QRESYNC":
                uv, ms = int(p[1][0]), int(p[1][1])
                if not self.enabled:
                    self.bad.append("QRESYNC before ENABLE")
                if uv == b.uidvld:
                    lost = [u for u, m in b.gone if m > ms]
                    if lost:
                        self.put(b"* VANISHED (EARLIER) " + uidset(lost) + b"\r\n")
                    for m in b.msgs:
                        if m.modseq > ms:
                            self.put_fetch(m, b"FLAGS")
        self.put(tag + (b" OK [READ-ONLY] done\r\n" if ro else b" OK [READ-WRITE] done\r\n"))

    def c_examine(self, tag, a):
        self.c_select(tag, a, True)

    def c_unselect(self, tag, a):
        self.state, self.box, self.view, self.vflags = "auth", None, [], {}
        self.ok(tag)

    def c_close(self, tag, a):
        if not self.ro:
            for m in [m for m in self.box.msgs if b"\\Deleted" in m.flags]:
                self.box.expunge(m)
        self.c_unselect(tag, a)

    def c_fetch(self, tag, a, uid=False):
        if not uid:
            self.bad.append("FETCH by sequence number")
        st = parse_set(a[0], max(self.view or [0]))
        attrs = a[1] if isinstance(a[1], list) else [a[1]]
        attrs = [x.upper() for x in attrs]
        since, van = None, False
        for p in a[2:]:
            p = [x.upper() if isinstance(x, bytes) else x for x in p]
            if b"CHANGEDSINCE" in p:
                since = int(p[p.index(b"CHANGEDSINCE") + 1])
            van = b"VANISHED" in p
        if van and since is not None:
            # servers take the "*" of a set of expunged UIDs as "no limit"; the
            # largest UID in use would hide expunged messages above it
            st2 = parse_set(a[0], 2 ** 32)
            lost = [u for u, m in self.box.gone if m > since and in_set(st2, u)]
            if lost:
                self.put(b"* VANISHED (EARLIER) " + uidset(lost) + b"\r\n")
        for u in list(self.view):
            m = self.box.find(u)
            if m is None or not in_set(st, u):
                continue
            if since is not None and m.modseq <= since:
                continue
            if b"FLAGS" in attrs:
                self.vflags[u] = m.modseq
            self.put_fetch(m, *[x for x in attrs if x in (b"FLAGS", b"INTERNALDATE", b"BODY.PEEK[]")])
        self.ok(tag)

    def c_store(self, tag, a, uid=False):
        if not uid:
            self.bad.append("STORE by sequence number")
        if self.ro:
            self.bad.append("STORE in a read-only mailbox")
            self.put(tag + b" NO read-only\r\n")
            return
        if self.refuse(tag):
            return
        st = parse_set(a[0], max(self.view or [0]))
        i = 1
        if isinstance(a[1], list) and a[1] and isinstance(a[1][0], bytes) and a[1][0].upper() == b"UNCHANGEDSINCE":
            i = 2
        verb = a[i].upper()
        fl = canon_flags(a[i + 1] if isinstance(a[i + 1], list) else a[i + 1:])
        silent = verb.endswith(b".SILENT")
        for u in list(self.view):
            m = self.box.find(u)
            if m is None or not in_set(st, u):
                continue
            if verb.startswith(b"+"):
                n = m.flags | fl
            elif verb.startswith(b"-"):
                n = m.flags - fl
            else:
                n = fl
            if n != m.flags and self.srv.on_change:
                self.srv.on_change('store', self.box, m, (verb[:1], fl))
            ch = self.box.setflags(m, n)
            if silent:
                if ch:
                    # the client infers the flags; report anything else
                    self.vflags[u] = m.modseq
                    self.put_fetch(m)
            else:
                self.vflags[u] = m.modseq
                self.put_fetch(m, b"FLAGS")
        self.ok(tag)

    def c_expunge(self, tag, a, uid=False):
        if not uid:
            self.bad.append("EXPUNGE without UIDs")
        if self.ro:
            self.bad.append("EXPUNGE in a read-only mailbox")
            self.put(tag + b" NO read-only\r\n")
            return
        if self.refuse(tag):
            self.srv.hardno.append((self.box.name, "EXPUNGE"))
            return
        st = parse_set(a[0], max(self.view or [0])) if uid else [(1, 2 ** 32)]
        for m in [m for m in self.box.msgs if b"\\Deleted" in m.flags and in_set(st, m.uid)]:
            if self.srv.on_change:
                self.srv.on_change('expunge', self.box, m, None)
            self.box.expunge(m)
        self.flush()
        self.ok(tag, self.himod() + b"expunged", flush=False)

    def c_copy(self, tag, a, uid=False):
        if not uid:
            self.bad.append("COPY by sequence number")
        if self.refuse(tag):
            return
        dst = self.srv.boxes.get(self.srv.key(bytes(a[1])))
        if dst is None:
            self.put(tag + b" NO [TRYCREATE] no such mailbox\r\n")
            return
        st = parse_set(a[0], max(self.view or [0]))
        su, du = [], []
        for m in list(self.box.msgs):
            if m.uid in self.view and in_set(st, m.uid):
                if self.srv.on_change:
                    self.srv.on_change('copy', self.box, m, dst)
                n = dst.add(m.vid, m.flags, m.date, m.body, m.plain, m.kind)
                su.append(m.uid); du.append(n.uid)
        if not su:
            self.ok(tag)
            return
        self.ok(tag, b"[COPYUID %d " % dst.uidvld + b",".join(b"%d" % u for u in su) + b" " + b",".join(b"%d" % u for u in du) + b"] copied")

    def c_append(self, tag, a):
        if self.refuse(tag):
            return
        name = self.srv.key(bytes(a[0]))
        b = self.srv.boxes.get(name)
        if b is None:
            self.put(tag + b" NO [TRYCREATE] no such mailbox\r\n")
            return
        flags = canon_flags(a[1]) if isinstance(a[1], list) else frozenset()
        rest = [x for x in a[1:] if not isinstance(x, list)]
        date = rest[0] if len(rest) == 2 else b"01-Jan-2000 00:00:00 +0000"
        body = bytes(rest[-1])
        vid, plain, kind = self.srv.on_append(body) if self.srv.on_append else (None, body, "raw")
        if self.srv.on_change:
            self.srv.on_change('append', b, vid, None)
        m = b.add(vid, flags, bytes(date), body, plain, kind)
        m.appended = len(rest) == 2
        if self.srv.rng.random() < 0.3 and self.state == "sel" and self.box is b:
            self.flush()
        self.ok(tag, b"[APPENDUID %d %d] appended" % (b.uidvld, m.uid))

    def c_status(self, tag, a):
        name = bytes(a[0]); b = self.srv.boxes.get(self.srv.key(name))
        if b is None:
            self.put(tag + b" NO no such mailbox\r\n")
            return
        out = []
        for x in a[1]:
            x = x.upper()
            v = {b"MESSAGES": len(b.msgs), b"RECENT": 0, b"UIDNEXT": b.uidnext, b"UIDVALIDITY": b.uidvld,
                 b"UNSEEN": sum(b"\\Seen" not in m.flags for m in b.msgs), b"HIGHESTMODSEQ": b.hi}[x]
            out.append(x + b" %d" % v)
        if getattr(self.srv, "hostile", False) and self.srv.rng.random() < 0.7:
            bad = self.srv.rng.choice([b"../x", b"../../x", b"../keys", b"a/../../fingerprints", b"/abs", b"cur", b"..", b"x//y", b""])
            self.put(b"* STATUS " + quote(bad) + b" (" + b" ".join(out) + b")\r\n")
            self.put(b'* LIST () "/" ' + quote(bad) + b"\r\n" if self.srv.rng.random() < 0.1 else b"")
        self.put(b"* STATUS " + quote(name) + b" (" + b" ".join(out) + b")\r\n")
        self.ok(tag)

    def _list(self, tag, a, verb):
        ref, pat = bytes(a[0]), bytes(a[1])
        if pat == b"":
            self.put(b"* " + verb + b' (\\Noselect) "/" ""\r\n')
            return self.ok(tag)
        rx = re.compile(b"".join(b".*" if c == b"*" else b"[^/]*" if c == b"%" else re.escape(c) for c in [(ref + pat)[i:i + 1] for i in range(len(ref + pat))]) + rb"\Z", re.S)
        names = set(self.srv.boxes) if verb == b"LIST" else set(self.srv.subs)
        res = {}
        for nm in names:
            if rx.match(nm):
                res[nm] = b""
        if pat.endswith(b"%") and verb == b"LIST":
            for nm in names:
                parts = nm.split(b"/")
                for k in range(1, len(parts)):
                    p = b"/".join(parts[:k])
                    if p not in names and rx.match(p):
                        res.setdefault(p, b"\\Noselect")
        for nm in sorted(res):
            self.put(b"* " + verb + b" (" + res[nm] + b') "/" ' + quote(nm) + b"\r\n")
        self.ok(tag)

    def c_list(self, tag, a):
        self._list(tag, a, b"LIST")

    def c_lsub(self, tag, a):
        self._list(tag, a, b"LSUB")

    def c_create(self, tag, a):
        n = bytes(a[0])
        if n.endswith(b"/"):
            n = n[:-1]
        if self.srv.key(n) in self.srv.boxes or not n:
            self.put(tag + b" NO exists\r\n")
            return
        self.srv.create(n)
        self.ok(tag)

    def c_delete(self, tag, a):
        n = self.srv.key(bytes(a[0]))
        if n == b"INBOX" or n not in self.srv.boxes or any(s.box is self.srv.boxes[n] for s in self.srv.sessions if s.state == "sel"):
            self.put(tag + b" NO can't\r\n")
            return
        del self.srv.boxes[n]
        self.ok(tag)

    def c_rename(self, tag, a):
        o, n = self.srv.key(bytes(a[0])), self.srv.key(bytes(a[1]))
        if o == b"INBOX" or o not in self.srv.boxes or n in self.srv.boxes or n.startswith(o + b"/") or any(s.state == "sel" and (s.box.name == o or s.box.name.startswith(o + b"/")) for s in self.srv.sessions):
            self.put(tag + b" NO can't\r\n")
            return
        for k in list(self.srv.boxes):
            if k == o or k.startswith(o + b"/"):
                b = self.srv.boxes.pop(k)
                b.name = n + k[len(o):]
                self.srv.boxes[b.name] = b
        self.ok(tag)

    def c_subscribe(self, tag, a):
        self.srv.subs.add(self.srv.key(bytes(a[0])))
        self.ok(tag)

    def c_unsubscribe(self, tag, a):
        self.srv.subs.discard(self.srv.key(bytes(a[0])))
        self.ok(tag)
