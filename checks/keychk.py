"""C29/C30: which keys a device knows, encrypts to, and announces"""
from citmchk import *

PEERS = ["r1024_1", "r1024_2", "r2048_0", "r2048_1", "r3072_0", "r4096_0"]
PEERS = [p for p in PEERS if os.path.exists(os.path.join(ROOT, "data/keys", p + ".pem"))]
FPR = re.compile(rb"fingerprint:\r\n\r\n +([0-9a-fA-F]+)\r\n")

class Device:
    """what this device must know, from what it was told"""
    def __init__(self, w):
        self.w = w
        self.seen = set()        # fingerprints the device has met
        self.first = False       # the first key sync has completed
        self.synced = set()      # mailboxes which have been opened
        self.got = set()         # messages (server objects) which have been downloaded
        self.must = set()        # fingerprints which must have been announced
        self.may = set()         # fingerprints which may have been announced

    def key(self, fpr):
        """told of a key by XKEYSYNC"""
        if fpr in self.seen:
            return
        self.seen.add(fpr)
        if self.first:
            self.must.add(fpr)
            self.w.ctx.count("keys_announced_by_sync")
        else:
            self.w.ctx.count("keys_of_first_sync")

    def mail(self, box):
        for m in box.msgs:
            if m in self.got:
                continue
            self.got.add(m)
            for f in m.recips if m.recips is not None else sorted(getattr(self.w, 'recips_of', {}).get(m.vid, ())):
                if f in self.seen:
                    continue
                self.seen.add(f)
                if f == self.w.me:
                    self.may.add(f)
                elif box.name in self.synced:
                    self.must.add(f)
                    self.w.ctx.count("keys_announced_by_mail")
                else:
                    self.w.ctx.count("keys_of_first_mail")

def fpr(w, n):
    return w.info(n)[1]

def path(w, *p):
    return os.path.join(w.root, w.srv.user.decode(), *p)

def ondisk(w):
    d = path(w, "keys")
    return {n[:-4].encode() for n in os.listdir(d) if n.endswith(".pem") and n != "mykey.pem"} if os.path.isdir(d) else set()

def login(w, c, rng):
    finish_cmds(w, rng)
    if c.state == "pre":
        act(w, c, rng)
        finish_cmds(w, rng)

def user(w):
    """is anybody logged in, so that the account's keys are followed"""
    return any(c.state in ("auth", "sel") and not c.eof for c in w.clients())

def in_sync(w, d, where):
    """nothing is under way: what must the device know now"""
    if not user(w):
        return
    d.first = True
    cur = set(w.srv.keys)
    if w.me not in cur:
        w.viol("C29", "own-key-not-registered", "%s: logged in, but the device's own key is not on the account" % where)
    have = ondisk(w)
    w.ctx.count("key_sets_compared")
    w.ctx.high("keys_on_account", len(cur))
    if have - {w.me} != cur - {w.me}:
        w.viol("C29", "keys-on-disk", "%s: the account has the keys %r, the device stores %r" % (where, sorted(x[:8] for x in cur), sorted(x[:8] for x in have)))
    for f in have:
        try:
            p = open(path(w, "keys", f.decode() + ".pem"), "rb").read()
        except OSError:
            continue
        if p.strip() != w.pems.get(f, p).strip():
            w.viol("C29", "key-file-content", "%s: %r holds another key" % (where, f))
    if open(path(w, "keys", "mykey.pem"), "rb").read() != pem(w.mykey):
        w.viol("C29", "own-key-changed", "%s: mykey.pem was replaced" % where)

def opened(w, d):
    """every selected mailbox is up to date"""
    for c in w.clients():
        if c.state == "sel" and not c.eof and c.boxid is not None:
            d.mail(c.boxid)
            d.synced.add(c.boxid.name)

def add_key(w, d, n):
    p, f = w.info(n)
    w.pems[f] = p
    w.srv.add_key(f, p)
    w.ctx.count("keys_added")
    return f

def settle(w, d, rng, where, late=()):
    """everything quiet; then what has been told is known"""
    finish_cmds(w, rng)
    if user(w):
        for f in sorted(w.srv.keys):
            if f != w.me:
                d.key(f)
    opened(w, d)
    in_sync(w, d, where)

def step(w, d, rng):
    r = rng.random()
    srv = w.srv
    cs = [c for c in w.clients() if not c.eof and c.state in ("auth", "sel") and not c.busy()]
    absent = [n for n in PEERS if fpr(w, n) not in srv.keys]
    present = [n for n in PEERS if fpr(w, n) in srv.keys]
    if r < 0.2 and absent:
        for n in rng.sample(absent, min(len(absent), rng.choice([1, 1, 2]))):
            add_key(w, d, n)
        settle(w, d, rng, "after keys were added")
        return "add"
    if r < 0.3 and present:
        for n in rng.sample(present, min(len(present), rng.choice([1, 1, 2]))):
            srv.del_key(fpr(w, n))
            w.ctx.count("keys_deleted")
        settle(w, d, rng, "after keys were deleted")
        return "delete"
    if r < 0.36 and absent and present:
        # both at once
        srv.del_key(fpr(w, rng.choice(present)))
        add_key(w, d, rng.choice(absent))
        settle(w, d, rng, "after a key was replaced")
        return "replace"
    if r < 0.55:
        # mail, also to devices nobody has heard of
        box = rng.choice(list(srv.boxes.values()))
        for _ in range(rng.choice([1, 1, 3])):
            kind = rng.choice(["enc"] * 5 + ["plain", "not4me"])
            to = None
            if kind == "enc":
                to = [w.mykey] + rng.sample(PEERS, rng.choice([0, 1, 1, 2]))
                rng.shuffle(to)
            m = w.deliver(box, kind, to=to)
            m.recips = [fpr(w, n) for n in to or []]
            w.ctx.count("mails_delivered")
        settle(w, d, rng, "after mail")
        return "mail"
    if r < 0.7 and cs:
        c = rng.choice(cs)
        a_append(w, c, rng, rng.choice(list(srv.boxes)))
        before = len(w.appends)
        settle(w, d, rng, "after an APPEND")
        for plain, recips, keys in w.appends[before:]:
            w.ctx.count("appends_judged")
            w.ctx.high("append_recipients", len(recips))
            if recips != keys:
                w.viol("C29", "append-recipients", "the account has the keys %r, the message is encrypted to %r" % (sorted(x[:8] for x in keys), sorted(x[:8] for x in recips)))
        return "append"
    if r < 0.8 and cs:
        c = rng.choice(cs)
        a_select(w, c, rng, rng.choice(list(srv.boxes)), rng.choice([b"SELECT", b"EXAMINE"]))
        settle(w, d, rng, "after a SELECT")
        return "select"
    if r < 0.86 and cs:
        c = rng.choice(cs)
        a_logout(w, c, rng)
        settle(w, d, rng, "after a logout")
        return "logout"
    if r < 0.94:
        if len(cs) < 3:
            login(w, w.client(), rng)
            settle(w, d, rng, "after a login")
        return "login"
    if r < 0.97:
        w.stop()
        while rng.random() < 0.5 and absent:
            add_key(w, d, absent.pop())
        while rng.random() < 0.3 and present:
            srv.del_key(fpr(w, present.pop()))
        if not w.start():
            w.viol("C29", "restart-failed", "citm did not start again")
            return "broken"
        login(w, w.client(), rng)
        settle(w, d, rng, "after a restart")
        w.ctx.count("restarts")
        return "restart"
    # the device itself is removed from the account
    srv.del_key(w.me)
    was = user(w)
    for c in w.clients():
        c.expect_close = True
    finish_cmds(w, rng)
    if was:
        for c in w.clients():
            if not c.eof and c.state in ("auth", "sel"):
                w.viol("C29", "own-key-deleted-unnoticed", "the device's key was deleted from the account but client %d is still served" % c.id)
    w.ctx.count("own_key_deleted")
    login(w, w.client(), rng)
    settle(w, d, rng, "after the own key was deleted")
    return "self"

def announced(w, rng):
    """fingerprints in the messages the device put in the INBOX"""
    c = w.client()
    login(w, c, rng)
    if c.state != "auth":
        w.viol("C30", "login-failed", "login to read the announcements fails: %r" % c.state)
        return None
    a_select(w, c, rng, b"INBOX", b"EXAMINE")
    finish_cmds(w, rng)
    out = Counter()
    if c.state == "sel" and c.cells:
        c.send(b"FETCH", b"FETCH 1:* (UID FLAGS BODY.PEEK[])", judge=j_okonly, attrs=[])
        finish_cmds(w, rng)
        for x in c.cells:
            if isinstance(x.vid, tuple):
                m = FPR.search(x.vid[1])
                if not m or not x.vid[1].split(b"\r\n\r\n")[0].count(b"Subject: New Device Detected"):
                    w.viol("C30", "announcement-form", repr(x.vid[1][:900]))
                    continue
                out[m.group(1).lower()] += 1
    c.expect_close = True
    return c, out

def judge(w, d, rng):
    r = announced(w, rng)
    if r is None:
        return
    c, got = r
    settle(w, d, rng, "at the end")
    if len(d.must) and set(got) < d.must:
        # what was announced by the SELECT itself
        c.send(b"NOOP", b"NOOP", judge=j_okonly)
        finish_cmds(w, rng)
        a_select(w, c, rng, b"INBOX", b"EXAMINE")
        finish_cmds(w, rng)
        r = announced(w, rng)
        if r is None:
            return
        got = r[1]
    w.ctx.count("announcements_judged", sum(got.values()))
    name = {fpr(w, n): n for n in PEERS + [w.mykey]}
    for f in d.must - set(got):
        w.viol("C30", "device-not-announced", "%s appeared on the account or in mail but no message in the INBOX says so" % name.get(f, f))
    for f in set(got) - d.must - d.may:
        w.viol("C30", "device-announced-wrongly", "%s was announced though it was part of the first sync or never seen" % name.get(f, f))
    for f, n in got.items():
        if n > 1 and f not in d.twice:
            w.viol("C30", "device-announced-twice", "%s was announced %d times" % (name.get(f, f), n))
    for b in w.srv.boxes.values():
        for m in b.all:
            if isinstance(m.plain, bytes) and m.plain.startswith(b"From: CITM"):
                w.viol("C30", "announcement-uploaded", "%r" % m.plain[:200])

def keys_case(ctx, rng, i):
    w = new_world(ctx, rng, ctx.args["props"], kw2=0)
    srv = w.srv
    w.me = fpr(w, w.mykey)
    w.pems = {w.me: w.info(w.mykey)[0]}
    w.stable_keys = False
    d = Device(w)
    if rng.random() < 0.3:
        srv.del_key(w.me)         # a new device
    for n in rng.sample(PEERS, rng.choice([0, 0, 1, 2])):
        add_key(w, d, n)
    for n in rng.sample([b"box", b"a b", b"back\\slash", b"new\\nline", b"Archive/2020"], rng.randint(0, 2)):
        srv.create(n)
    for b in list(srv.boxes.values()):
        for _ in range(rng.choice([0, 0, 1, 3])):
            to = [w.mykey] + rng.sample(PEERS, rng.choice([0, 0, 1, 2]))
            m = w.deliver(b, "enc", to=to)
            m.recips = [fpr(w, n) for n in to]
    if not w.start():
        w.viol("C29", "start-failed", "citm did not start")
        return
    login(w, w.client(), rng)
    settle(w, d, rng, "after the first login")
    for _ in range(rng.choice([6, 12, 25])):
        k = step(w, d, rng)
        w.log("   == %s: announced so far %d" % (k, len(d.must)))
        if k == "broken":
            return
    if not user(w):
        login(w, w.client(), rng)
        settle(w, d, rng, "at the end")
    judge(w, d, rng)
    w.stop()
    ctx.distinct("\n".join(w.trace))

Mbox_add = Mbox.add
def add(self, *a, **k):
    m = Mbox_add(self, *a, **k)
    m.recips = None
    return m
Mbox.add = add

def keys_crash_case(ctx, rng, i):
    """the process dies, the file system fails or the server goes away while
    devices come and go: nothing of it may be forgotten"""
    w = new_world(ctx, rng, ctx.args["props"], kw2=0)
    srv = w.srv
    w.me = fpr(w, w.mykey)
    w.pems = {w.me: w.info(w.mykey)[0]}
    w.stable_keys = False
    w.allow_no = True
    d = Device(w)
    for n in rng.sample(PEERS, rng.choice([0, 1, 2])):
        add_key(w, d, n)
    for n in rng.sample([b"box", b"a b"], rng.randint(0, 2)):
        srv.create(n)
    if not w.start():
        w.viol("C29", "start-failed", "citm did not start")
        return
    login(w, w.client(), rng)
    settle(w, d, rng, "after the first login")
    for n in list(srv.boxes):
        c = w.client()
        login(w, c, rng)
        if rng.random() < 0.7:
            a_select(w, c, rng, n, b"SELECT")
    settle(w, d, rng, "after the first sync")
    rounds = rng.choice([1, 1, 2])
    twice = set()
    for rnd in range(rounds):
        for c in w.clients():
            c.expect_close = True
        mode = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4])
        at = rng.choice([rng.randint(1, 12), rng.randint(1, 12), rng.randint(1, 40)])
        hit = True
        try:
            w.call("fs", at if mode else 0, mode, 0)
            before = set(srv.keys)
            for _ in range(rng.choice([2, 5, 9])):
                r = rng.random()
                absent = [n for n in PEERS if fpr(w, n) not in srv.keys]
                present = [n for n in PEERS if fpr(w, n) in srv.keys]
                if r < 0.45 and absent:
                    add_key(w, d, rng.choice(absent))
                elif r < 0.6 and present:
                    f = fpr(w, rng.choice(present))
                    srv.del_key(f)
                    if f not in d.seen:
                        # it may have been noticed or not
                        d.may.add(f)
                elif r < 0.9:
                    to = [w.mykey] + rng.sample(PEERS, rng.choice([0, 1, 1, 2]))
                    m = w.deliver(rng.choice(list(srv.boxes.values())), "enc", to=to)
                    m.recips = [fpr(w, n) for n in to]
                elif w.sessions():
                    s = rng.choice(w.sessions())
                    w.call("eof", s.sid)
                for _ in range(rng.choice([0, 1, 3])):
                    w.run(rng.choice([-1, -1, 1, 5]))
                    a = w.actions()
                    if a:
                        w.do(rng.choice(a))
                if rng.random() < 0.3:
                    c = w.client()
                    c.expect_close = True
                    if rng.random() < 0.8:
                        w.settle()
                        if c.state == "pre":
                            act(w, c, rng)
            if rng.random() < 0.7:
                w.settle()
            if mode and int(w.call("fsops")[0]) >= at:
                ctx.count("fs_failures")
            else:
                hit = False
            w.call("fs", 0, 0, 0)
            w.stop()
        except Exception as e:
            if not (type(e).__name__ == "DriverDied" and e.rc == 77):
                raise
            m = re.search("VH_CRASH (?:at|in) op \\d+ (\\w*)(.*)", e.err)
            w.log("   !! crashed: %s" % (m and m.group(0)))
            ctx.count("crashes")
        if not hit:
            ctx.count("nothing_hit")
        w.conns = {}
        srv.sessions[:] = []
        twice |= {f for f in [w.me] + [fpr(w, n) for n in PEERS] if f not in d.seen}
        d.may |= twice           # what was downloaded first is not known
        if not w.start():
            w.viol("C29", "restart-failed", "citm does not start any more")
            return
        c = w.client()
        login(w, c, rng)
        if c.state != "auth":
            w.viol("C29", "restart-login", "login fails after a restart: %r" % c.state)
            return
        settle(w, d, rng, "after the restart")
        for n in list(srv.boxes):
            a_select(w, c, rng, n, b"SELECT")
            settle(w, d, rng, "after the restart")
            if c.state != "sel":
                w.viol("C29", "restart-select", "%r cannot be selected after a restart" % n)
                return
        before = len(w.appends)
        a_append(w, c, rng, b"INBOX")
        settle(w, d, rng, "after the restart")
        for plain, recips, keys in w.appends[before:]:
            ctx.count("appends_judged")
            if recips != keys:
                w.viol("C29", "append-recipients", "the account has the keys %r, the message is encrypted to %r" % (sorted(x[:8] for x in keys), sorted(x[:8] for x in recips)))
    d.twice = twice
    judge(w, d, rng)
    w.stop()
    ctx.distinct("\n".join(w.trace))
Device.twice = frozenset()
