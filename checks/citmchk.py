"""C08-C12, C28-C30: random sessions through the real citm"""
import os, random
from collections import Counter
from citmworld import *

FL = [b"\\Answered", b"\\Flagged", b"\\Deleted", b"\\Seen"]

def rflags(rng, p=0.4):
    return [f for f in FL if rng.random() < p]

def cased(rng, s):
    return s if rng.random() < 0.8 else bytes(c ^ 0x20 if 0x41 <= (c & ~0x20) <= 0x5a and rng.random() < 0.5 else c for c in s)

def mbname(rng, n):
    if not n:
        return b'""'
    if n == b"INBOX" and rng.random() < 0.3:
        n = rng.choice([b"inbox", b"Inbox", b"iNbOX"])
    return n if rng.random() < 0.5 and not re.search(rb'[ "\\/{}()%*]', n) else quote(n)

# ------------------------------------------------------------- client moves
def pick_cells(rng, c, mode_uid):
    cand = [x for x in c.cells if not mode_uid or x.uid is not None]
    if not cand:
        return []
    k = rng.choice([1, 1, 2, 3, len(cand)])
    return rng.sample(cand, min(k, len(cand)))

def set_of(rng, c, cells, mode_uid):
    if mode_uid:
        nums = [x.uid for x in cells]
    else:
        nums = [c.cells.index(x) + 1 for x in cells]
    if rng.random() < 0.5:
        s = uidset(nums)
    else:
        rng.shuffle(nums)
        s = b",".join(b"%d" % n for n in nums)
    if mode_uid and rng.random() < 0.1:
        s += b",4294967290"
    return s

def ever(w, c, vid):
    """all messages with this content the mailbox ever had"""
    return [m for m in c.boxid.all if m.vid == vid] if c.boxid is not None else []

def states_since(m, clock):
    out = []
    for t, f in m.hist:
        if t <= clock:
            out = [f]
        else:
            out.append(f)
    return out

def j_store(c, cmd):
    w = c.w
    if cmd.status != b"OK":
        if cmd.status == b"NO" and not c.w.allow_no and not cmd.ro:
            w.viol("C12", "store-refused", "STORE answered NO though the server never refuses: %r" % cmd.text)
        return
    if cmd.ro:
        w.viol("C12", "store-ok-in-readonly", repr(cmd.raw))
        return
    w.ctx.count("stores_acked")
    if cmd.silent:
        # what the client has to assume, unless it was told otherwise
        for x, f in cmd.scells:
            if f is not None and x.flags is f:
                x.flags = {1: f | cmd.flags, -1: f - cmd.flags, 0: cmd.flags}[cmd.op]
    for vid in cmd.vids:
        if vid is None or is_local(vid):
            continue
        ms = ever(w, c, vid)
        if len(ms) != 1:
            continue
        ok = False
        for f in states_since(ms[0], cmd.clock):
            if f is None or (cmd.op == 1 and cmd.flags <= f) or (cmd.op == -1 and not (cmd.flags & f)) or (cmd.op == 0 and sysf(f) == cmd.flags):
                ok = True
        w.ctx.count("store_effects_judged")
        if not ok:
            w.viol("C12", "store-ok-before-server", "STORE %r was answered OK but message %r has had flags %r on the server since" % (cmd.raw, vid, states_since(ms[0], cmd.clock)))

def a_store(w, c, rng):
    u = rng.random() < 0.6
    cells = pick_cells(rng, c, u)
    if not cells:
        return
    op = rng.choice([1, 1, -1, 0])
    fl = rflags(rng) or [rng.choice(FL)]
    if op == 0 and rng.random() < 0.2:
        fl = []
    silent = rng.random() < 0.3
    item = {1: b"+FLAGS", -1: b"-FLAGS", 0: b"FLAGS"}[op] + (b".SILENT" if silent else b"")
    raw = (b"UID " if u else b"") + cased(rng, b"STORE") + b" " + set_of(rng, c, list(cells), u) + b" " + item + b" (" + b" ".join(fl) + b")"
    c.send(b"UID STORE" if u else b"STORE", raw, vids=[w.vid_of(c, x) for x in cells], op=op, flags=frozenset(fl), ro=c.ro, silent=silent, scells=[(x, x.flags) for x in cells], judge=j_store)

def j_expunge(c, cmd):
    w = c.w
    if cmd.status != b"OK":
        if cmd.verb == b"CLOSE" or (not cmd.ro and not w.allow_no):
            w.viol("C12", "expunge-refused", "%r answered %r %r" % (cmd.raw, cmd.status, cmd.text))
        return
    if cmd.ro and cmd.verb != b"CLOSE":
        w.viol("C12", "expunge-ok-in-readonly", repr(cmd.raw))
        return
    w.ctx.count("expunges_acked")
    for vid in cmd.vids:
        if vid is None or is_local(vid):
            continue
        ms = [m for m in cmd.boxid.all if m.vid == vid]
        if len(ms) != 1:
            continue
        st = states_since(ms[0], cmd.clock)
        w.ctx.count("expunge_effects_judged")
        if cmd.ro:
            continue
        if None not in st and all(b"\\Deleted" in f for f in st):
            if cmd.verb == b"CLOSE" and w.allow_no:
                continue
            w.viol("C12", "expunge-ok-before-server", "%r was answered OK but message %r is still on the server with \\Deleted" % (cmd.raw, vid))

def a_expunge(w, c, rng, verb=b"EXPUNGE"):
    vids = [w.vid_of(c, x) for x in c.cells if x.flags and b"\\Deleted" in x.flags]
    c.send(verb, cased(rng, verb), vids=vids, ro=c.ro, boxid=c.boxid, judge=j_expunge)

def j_copy(c, cmd):
    w = c.w
    dst = c.srv.boxes.get(c.srv.key(cmd.dst))
    if cmd.status != b"OK":
        if dst is not None and not w.allow_no and cmd.dstobj is dst and all(v is not None and not is_local(v) for v in cmd.vids) and not any(m.vid in cmd.vids and m.hist[-1][1] is None for m in cmd.boxid.all):
            w.viol("C12", "copy-refused", "COPY answered %r %r" % (cmd.status, cmd.text))
        return
    w.ctx.count("copies_acked")
    for vid in cmd.vids:
        if vid is None or is_local(vid):
            continue
        src = [m for m in cmd.boxid.all if m.vid == vid]
        if len(src) != 1 or None in states_since(src[0], cmd.clock):
            continue
        w.ctx.count("copy_effects_judged")
        if dst is None or not any(m.vid == vid and m.hist[0][0] > cmd.clock for m in dst.all):
            w.viol("C12", "copy-ok-before-server", "%r was answered OK but the server never copied message %r" % (cmd.raw, vid))

def a_copy(w, c, rng):
    u = rng.random() < 0.6
    cells = pick_cells(rng, c, u)
    if not cells:
        return
    names = [n for n in c.srv.boxes if c.srv.boxes[n] is not c.boxid or rng.random() < 0.1] + [b"nosuch"] * (rng.random() < 0.1)
    if not names:
        return
    dst = rng.choice(names)
    raw = (b"UID " if u else b"") + b"COPY " + set_of(rng, c, list(cells), u) + b" " + mbname(rng, dst)
    c.send(b"UID COPY" if u else b"COPY", raw, vids=[w.vid_of(c, x) for x in cells], dst=dst, dstobj=c.srv.boxes.get(dst), boxid=c.boxid, judge=j_copy)

def j_append(c, cmd):
    w = c.w
    dst = c.srv.boxes.get(c.srv.key(cmd.dst))
    new = [m for m in (dst.all if dst else []) if m.vid == cmd.vid and m.hist[0][0] > cmd.clock]
    if cmd.status == b"OK":
        w.ctx.count("appends_acked")
        if not new:
            w.viol("C12", "append-ok-before-server", "APPEND %d to %r was answered OK but the server has no such message" % (cmd.vid, cmd.dst))
        for m in new:
            if sysf(m.hist[0][1]) != cmd.flags:
                w.viol("C12", "append-flags", "APPEND with %r made %r" % (cmd.flags, m.hist[0][1]))
            if cmd.date and m.date.strip() != cmd.date.strip():
                w.viol("C12", "append-date", "APPEND with %r made %r" % (cmd.date, m.date))
            got = w.recips_of.get(m.vid, set())
            missing = w.srv_keys_known(c) - got if len(new) == 1 and w.stable_keys else set()
            w.ctx.count("append_recipients_judged")
            if missing:
                w.viol("C29", "append-not-to-every-key", "APPEND was encrypted to %r, not to %r" % (got, missing))
            if w.stable_keys and got - set(c.srv.keys):
                w.viol("C29", "append-to-stranger", "APPEND was encrypted to %r" % (got - set(c.srv.keys)))
    elif new:
        w.viol("C12", "append-refused-but-done", "APPEND answered %r though the server took it" % cmd.status)
    elif cmd.dstobj is not None and not w.allow_no and dst is cmd.dstobj and w.name_ok(cmd.dst):
        w.viol("C12", "append-refused", "APPEND answered %r %r" % (cmd.status, cmd.text))

def a_append(w, c, rng, dst=None, text=None):
    name = text
    dst = dst if dst is not None else rng.choice(list(c.srv.boxes) + [b"nosuch"] * (rng.random() < 0.1))
    w.vid += 1
    v = w.vid
    text = b"X-Vid: %d\r\nSubject: appended\r\n\r\nbody %s" % (v, rng.choice([b"", b"x\r\n", b"-----BEGIN SPLINTERMAIL MESSAGE-----\r\n", b"z" * 3000]))
    if rng.random() < 0.05:
        text = b"-----BEGIN SPLINTERMAIL MESSAGE-----\r\n%d" % v
    w.plain[v] = text
    w.byplain[text] = v
    fl = rflags(rng, 0.3)
    date = rng.choice([None, b" 3-Feb-1999 04:05:06 -0700", b"13-Dec-2031 23:59:59 +1345"])
    raw = b"APPEND " + (name or mbname(rng, dst)) + (b" (" + b" ".join(fl) + b")" if fl or rng.random() < 0.3 else b"") + (b' "' + date + b'"' if date else b"")
    # LITERAL+ is not announced: wait for "+"
    c.literal = [text + b"\r\n"]
    c.ntag += 1
    tag = b"A%d" % c.ntag
    cmd = Cmd(tag, b"APPEND", raw, c.srv.tick(), dst=dst, vid=v, flags=frozenset(fl), date=date, dstobj=c.srv.boxes.get(dst), judge=j_append)
    cmd.fut_select = False
    c.out.append(cmd)
    w.license(c, cmd)
    w.feed(c.id, tag + b" " + raw + b" {%d}\r\n" % len(text))

def j_okonly(c, cmd):
    if cmd.status != b"OK":
        c.viol("C10", "refused", "%r answered %r %r" % (cmd.raw, cmd.status, cmd.text))

def a_fetch(w, c, rng, full=False):
    if not c.cells:
        return
    u = rng.random() < 0.5
    cells = pick_cells(rng, c, u)
    if full or not cells:
        st, u = b"1:*", rng.random() < 0.5
    else:
        st = set_of(rng, c, list(cells), u)
    attrs = [b"UID", b"FLAGS"]
    if rng.random() < 0.5 or full:
        attrs += [rng.choice([b"BODY.PEEK[]"] * 3 + [b"BODY[]", b"RFC822"]) if not full else b"BODY.PEEK[]"]
        attrs += [b"RFC822.SIZE", b"INTERNALDATE"]
    rng.shuffle(attrs)
    if b"UID" in attrs and u and rng.random() < 0.3:
        attrs.remove(b"UID")
    c.send(b"UID FETCH" if u else b"FETCH", (b"UID " if u else b"") + b"FETCH " + st + b" (" + b" ".join(attrs) + b")",
           judge=j_fetch, cells=[] if full or st == b"1:*" else cells, attrs=attrs)

def j_fetch(c, cmd):
    # a message may vanish under a FETCH; the reply is then NO or lacks it
    if cmd.status == b"BAD":
        c.viol("C10", "refused", "%r answered %r %r" % (cmd.raw, cmd.status, cmd.text))

def a_search(w, c, rng):
    u = rng.random() < 0.5
    c.send(b"UID SEARCH" if u else b"SEARCH", (b"UID " if u else b"") + b"SEARCH " + rng.choice([b"ALL", b"DELETED", b"UNSEEN", b"1:*"]), judge=j_okonly)

def a_select(w, c, rng, name=None, verb=None):
    n = name or rng.choice(list(c.srv.boxes) * 3 + [b"nosuch"])
    verb = verb or rng.choice([b"SELECT"] * 4 + [b"EXAMINE"])
    c.box = None
    c.send(verb, cased(rng, verb) + b" " + mbname(rng, n), box=n, judge=j_select)

def j_select(c, cmd):
    w = c.w
    if cmd.status != b"OK" and cmd.box in c.srv.boxes and not w.allow_no and not w.renames:
        c.viol("C10", "select-refused", "%r answered %r %r" % (cmd.raw, cmd.status, cmd.text))
    if cmd.status == b"OK" and cmd.box == b"nosuch":
        c.viol("C10", "select-of-nothing", "%r" % cmd.text)

def a_status(w, c, rng):
    n = rng.choice(list(c.srv.boxes))
    c.send(b"STATUS", b"STATUS " + mbname(rng, n) + b" (MESSAGES RECENT UIDNEXT UIDVALIDITY UNSEEN)", box=n, judge=j_status)

def j_status(c, cmd):
    w = c.w
    if cmd.status != b"OK":
        if cmd.box in c.srv.boxes and not w.renames:
            c.viol("C10", "status-refused", "%r %r" % (cmd.raw, cmd.text))
        return
    st = [x for x in cmd.untagged if x[0] == b"STATUS"]
    if len(st) != 1:
        c.viol("C10", "status-missing", repr(cmd.untagged)[:200])
        return
    d = st[0][1][1]
    v = {d[i].upper(): int(d[i + 1]) for i in range(0, len(d), 2)}
    w.ctx.count("status_seen")
    if set(v) != {b"MESSAGES", b"RECENT", b"UIDNEXT", b"UIDVALIDITY", b"UNSEEN"}:
        c.viol("C10", "status-attributes", repr(v))
    cmd.vals = v

def a_list(w, c, rng):
    verb = rng.choice([b"LIST", b"LSUB"])
    c.send(verb, verb + b' "" ' + rng.choice([b"*", b"%", b'""']), judge=j_list)

def j_list(c, cmd):
    w = c.w
    if cmd.status != b"OK":
        c.viol("C10", "list-refused", "%r %r" % (cmd.raw, cmd.text))

def a_sub(w, c, rng):
    verb = rng.choice([b"SUBSCRIBE", b"UNSUBSCRIBE"])
    n = rng.choice(list(c.srv.boxes))
    c.send(verb, verb + b" " + mbname(rng, n), judge=j_okonly)

def a_simple(w, c, rng):
    v = rng.choice([b"NOOP", b"NOOP", b"CHECK", b"CAPABILITY"])
    if c.state != "sel" and v == b"CHECK":
        v = b"NOOP"
    c.send(v, cased(rng, v), judge=j_okonly)

def a_idle(w, c, rng):
    c.idle, c.done_sent = "asked", False
    c.send(b"IDLE", b"IDLE", judge=j_idle)
    c.idle_bad = rng.random() < 0.1
    w.ctx.count("idles_selected" if c.state == "sel" else "idles_unselected")

def j_idle(c, cmd):
    if c.idle_bad and c.done_sent:
        if cmd.status != b"BAD":
            c.viol("C10", "idle-nonsense-accepted", "IDLE ended by nonsense answered %r" % cmd.status)
    else:
        j_okonly(c, cmd)

def done(w, c):
    c.idle = "done"
    c.done_sent = True
    w.feed(c.id, b"NOT DONE\r\n" if c.idle_bad else b"DONE\r\n")

def a_bad(w, c, rng):
    """commands which must be refused without any effect"""
    raw = rng.choice([b"FETCH 1:* (NOPE)", b"XYZZY", b"LOGIN a b", b"STARTTLS", b"ENABLE CONDSTORE", b"UNSELECT",
                      b"STORE 1 +FLAGS", b"DELETE INBOX INBOX", b"UID EXPUNGE 1:*", b"XKEYADD x", b"SELECT INBOX (CONDSTORE)"])
    c.send(b"BADCMD", raw, judge=j_bad)

def j_bad(c, cmd):
    if cmd.status == b"OK":
        c.viol("C10", "nonsense-accepted", "%r answered OK %r" % (cmd.raw, cmd.text))

def a_badset(w, c, rng):
    """message sets outside the mailbox"""
    n = len(c.cells)
    verb = rng.choice([b"FETCH %d FLAGS" % (n + rng.choice([1, 2, 1000])), b"STORE %d +FLAGS (\\Seen)" % (n + 1), b"COPY %d INBOX" % (n + 1)])
    c.send(verb.split()[0], verb, judge=j_bad if n == 0 else j_none)

def j_none(c, cmd):
    pass

def act(w, c, rng):
    """one move of an idle client"""
    if c.state in ("greet", "out", "dead", "bye") or c.eof:
        return False
    if c.idle == "on":
        done(w, c)
        return True
    if c.busy():
        return False
    if c.state == "pre":
        c.logins.append((c.user, c.pw))
        c.send(b"LOGIN", b"LOGIN " + quote(c.user) + b" " + quote(c.pw), user=c.user, pw=c.pw, judge=j_login)
        return True
    if c.state == "auth":
        f = rng.choice([a_select] * 8 + [a_status, a_list, a_append, a_simple, a_sub, a_bad, a_idle])
    else:
        f = rng.choice([a_store] * 6 + [a_fetch] * 5 + [a_simple] * 3 + [a_copy] * 2 + [a_append] * 2 + [a_idle] * 3 +
                       [a_expunge] * 3 + [a_select, a_status, a_list, a_search, a_bad, a_close, a_badset])
    f(w, c, rng)
    return True

def a_close(w, c, rng):
    a_expunge(w, c, rng, b"CLOSE")

# ---------------------------------------------------------- external changes
def external(w, rng):
    b = rng.choice([b for s in w.srvs.values() for b in s.boxes.values()])
    r = rng.random()
    if r < 0.4 or not b.msgs:
        for _ in range(rng.choice([1, 1, 2, 13])):
            w.deliver(b, rng.choice(w.kinds), rflags(rng, 0.2))
    elif r < 0.75:
        m = rng.choice(b.msgs)
        b.setflags(m, set(rflags(rng)) | ({b"kw1"} if rng.random() < 0.1 else set()))
        w.log("   srv: flags of %s uid %d = %r" % (b.name.decode("latin1"), m.uid, sorted(m.flags)))
    else:
        for m in rng.sample(b.msgs, min(len(b.msgs), rng.choice([1, 1, 2, len(b.msgs)]))):
            b.expunge(m)
            w.log("   srv: expunge %s uid %d" % (b.name.decode("latin1"), m.uid))

# ---------------------------------------------------------------- convergence
def expected(box):
    """(vid, flags) of everything a user must see"""
    out = Counter()
    for m in box.msgs:
        if m.plain is not None:
            out[(m.vid, sysf(m.flags))] += 1
    return out

def finish_cmds(w, rng):
    """let all outstanding commands end"""
    for _ in range(50):
        w.settle()
        busy = False
        for c in w.clients():
            if c.eof or c.state in ("dead", "out", "bye"):
                continue
            if c.idle == "on":
                done(w, c)
                busy = True
            elif c.out and c.idle is None:
                busy = True
        if not busy:
            return True
        before = len(w.trace)
        w.settle()
        if len(w.trace) == before:
            break
    for c in w.clients():
        if not c.eof and c.out:
            w.viol("C09", "command-never-answered", "client %d: %r has no reply though the server is idle" % (c.id, c.out[0].raw[:200]))
            return False
    return True

def compare(w, c, where):
    """a selected client's final view against the server"""
    got = Counter()
    nloc = 0
    for x in c.cells:
        v = w.vid_of(c, x)
        if x.uid is None or x.flags is None or v is None:
            w.viol("C09", "fetch-incomplete", "%s: FETCH 1:* did not describe every message: uid %r flags %r vid %r" % (where, x.uid, x.flags, v))
            return
        if is_local(v):
            nloc += 1
            continue
        got[(v, sysf(x.flags))] += 1
    exp = expected(c.boxid)
    w.ctx.count("views_compared")
    w.ctx.high("view_messages", len(c.cells))
    if got != exp:
        gv = Counter(); ev = Counter()
        for (v, f), n in got.items(): gv[v] += n
        for (v, f), n in exp.items(): ev[v] += n
        kind = "flags" if gv == ev else "messages-missing" if not (gv - ev) else "messages-extra" if not (ev - gv) else "messages-differ"
        w.viol("C09", "view-differs-" + kind, "%s: client %d in %r sees %r; the server has %r" % (where, c.id, c.box, sorted((got - exp).items(), key=repr)[:6], sorted((exp - got).items(), key=repr)[:6]))
    return nloc

def converge(w, rng, where):
    """no more changes: every selected client must end up with the server's state"""
    if not finish_cmds(w, rng):
        return
    for rnd in range(3):
        for c in w.clients():
            if c.state == "sel" and not c.eof:
                c.send(b"NOOP", b"NOOP", judge=j_okonly)
        finish_cmds(w, rng)
    for c in w.clients():
        if c.state == "sel" and not c.eof and c.cells:
            u = rng.random() < 0.5
            c.send(b"UID FETCH" if u else b"FETCH", (b"UID " if u else b"") + b"FETCH 1:* (UID FLAGS RFC822.SIZE INTERNALDATE BODY.PEEK[])", judge=j_okonly)
    finish_cmds(w, rng)
    for c in w.clients():
        if c.state == "sel" and not c.eof and c.boxid is not None and c.boxid in c.srv.boxes.values():
            compare(w, c, where)
    # STATUS of every mailbox nobody changes agrees with what a client sees
    w.settle()

def check_alive(w):
    """nothing went wrong, so no connection may have been dropped"""
    if any(s.hardno for s in w.srvs.values()):
        return
    for c in w.clients():
        if c.eof and c.state != "out" or c.state == "bye":
            if not c.expect_close:
                w.viol("C09", "connection-dropped", "client %d was disconnected without a cause; last %r" % (c.id, c.byetext))
                return False
    return True

# --------------------------------------------------------------------- cases
def new_world(ctx, rng, props, kw2=0.25, **kw):
    w = World(ctx, rng, props, **kw)
    w.allow_no = False
    w.renames = False
    w.stable_keys = True
    w.kinds = ["enc"] * 6 + ["plain", "not4me", "corrupt"]
    w.srv_keys_known = lambda c: set(c.srv.keys)
    if rng.random() < kw2:
        w.add_user(b"ann@x.com", rng.choice([b"pw", b"other \"pw\""]), "r1024_2")
    for s in w.srvs.values():
        w.seed_key(s)
        p, f = w.info(s.mykey)
        s.add_key(f, p)
    orig = w.make
    def make(kind, text=None, to=None):
        if kind == "not4me" and to is None:
            to = ["r1024_1"]
        return orig(kind, text, to)
    w.make = make
    return w

def note_add():
    add0 = Mbox.add
    init0 = Mbox.__init__
    def init(self, srv, name):
        init0(self, srv, name)
        self.all = []
        self.uidvalidity_stable = True
    def addm(self, *a, **k):
        m = add0(self, *a, **k)
        self.all.append(m)
        return m
    Mbox.__init__, Mbox.add = init, addm
note_add()
Client.expect_close = False

def populate(w, rng, boxes=None):
    names = boxes or rng.sample([b"box", b"a b", b"Archive/2020", b"Archive", b"\xc3\xa9"[:0] + b"x&y-"], rng.randint(0, 2))
    for n in names:
        for srv in w.srvs.values():
            if n not in srv.boxes and (srv is w.srv or rng.random() < 0.7):
                srv.create(n)
    for b in [b for srv in w.srvs.values() for b in srv.boxes.values()]:
        for _ in range(rng.choice([0, 1, 3, 12])):
            w.deliver(b, rng.choice(w.kinds), rflags(rng, 0.25))

def steps(w, rng, n, nclients, pipeline=0.0):
    for c in range(nclients):
        w.client()
    if rng.random() < 0.8:
        # most of the steps after the login
        box = rng.choice(list(w.srv.boxes))
        for k in range(3):
            w.settle()
            for c in w.clients():
                if c.busy() or c.idle or c.eof:
                    continue
                if c.state == "auth":
                    a_select(w, c, rng, box if rng.random() < 0.7 and box in c.srv.boxes else rng.choice(list(c.srv.boxes)), b"SELECT" if rng.random() < 0.85 else b"EXAMINE")
                elif c.state == "pre":
                    act(w, c, rng)
                elif c.state == "sel" and c.cells and rng.random() < 0.7:
                    a_fetch(w, c, rng, True)
        w.settle()
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            a = w.actions()
            for _ in range(rng.choice([1, 1, 2, 6])):
                if a:
                    w.do(rng.choice(a))
                a = w.actions()
        elif r < 0.65:
            cs = [c for c in w.clients() if not c.eof]
            if cs:
                act(w, rng.choice(cs), rng)
        elif r < 0.70:
            external(w, rng)
        elif r < 0.71 and len(w.clients()) < 5:
            w.client()
        else:
            w.run(rng.choice([-1, -1, -1, -1, 0, 1, 3, 20]))

def session(ctx, rng, props):
    w = new_world(ctx, rng, props)
    w.allow_no = rng.random() < 0.15
    for s in w.srvs.values():
        s.no_rate = 0.15 if w.allow_no else 0.0
    populate(w, rng)
    if not w.start():
        w.viol("C09", "start-failed", "citm did not start")
        return w
    steps(w, rng, rng.choice([40, 100, 200, 400]), rng.randint(1, 3))
    for s in w.srvs.values():
        s.no_rate = 0
    converge(w, rng, "after the session")
    check_alive(w)
    if rng.random() < 0.7:
        restart_check(w, rng)
    else:
        w.stop()
    ctx.distinct("\n".join(w.trace))
    ctx.count("server_commands", sum(len(s.cmdlog) for s in w.srvs.values()))
    return w

def restart_check(w, rng):
    """a new process on the same directory: same UIDs, same mail, nothing downloaded again"""
    w.stop()
    old = {k: dict(v) for k, v in w.uidmap.items()}
    if not w.start():
        w.viol("C08", "restart-failed", "citm did not start again")
        return
    for srv in list(w.srvs.values()):
        restart_one(w, rng, srv, old)
    w.stop()

def restart_one(w, rng, srv, old):
    c = w.client(srv)
    for name in sorted(srv.boxes):
        finish_cmds(w, rng)
        if c.state == "pre":
            act(w, c, rng)
            finish_cmds(w, rng)
        if c.state not in ("auth", "sel"):
            w.viol("C08", "restart-login", "login fails after a restart: %r" % c.state)
            break
        a_select(w, c, rng, name, rng.choice([b"SELECT", b"EXAMINE"]))
        finish_cmds(w, rng)
        if c.state == "sel" and c.cells and c.unseen is not None:
            c.send(b"FETCH", b"FETCH 1:* FLAGS", judge=j_okonly, attrs=[])
            finish_cmds(w, rng)
            first = [n for n, x in enumerate(c.cells, 1) if x.flags is None or b"\\Seen" not in x.flags][:1]
            w.ctx.count("unseen_codes")
            if first != [c.unseen]:
                w.viol("C10", "unseen-code", "SELECT said [UNSEEN %r], the first unseen message is %r" % (c.unseen, first))
        if c.state != "sel":
            w.viol("C08", "restart-select", "%r cannot be selected after a restart" % name)
            break
        converge(w, rng, "after a restart")
        k = w.key(c)
        if k in old:
            w.ctx.count("mailboxes_reopened")

def session_case(ctx, rng, i):
    session(ctx, rng, ctx.args["props"])

# ------------------------------------------------------------ broken sessions
def a_logout(w, c, rng):
    if rng.random() < 0.3:
        # pipelined: the connection goes away behind it
        w.call("eof", c.id)
    c.expect_close = True
    c.send(b"LOGOUT", b"LOGOUT", judge=j_okonly)

def hit(c, why):
    c.expect_close = True
    c.hits.append(why)
Client.hits = ()

def hit_all(w, why):
    w.hitall_at = len(w.trace)
    for c in w.clients():
        if c.state not in ("greet",) and not (c.state == "pre" and not c.out):
            c.hits = tuple(c.hits) + (why,)
            c.expect_close = True

def mates(w, c):
    """clients which share a mailbox with c (or may be about to)"""
    mine = {c.box} | {x.box for x in c.out if x.fut_select and hasattr(x, "box")}
    mine = {c.srv.key(n) for n in mine if n}
    for d in w.clients():
        theirs = {d.box} | {x.box for x in d.out if x.fut_select and hasattr(x, "box")}
        if d is c or any(n and c.srv.key(n) in mine for n in theirs):
            yield d

GARBAGE = [b"* garbage in\r\n", b"XX OK what\r\n", b"* 5 EXPUNGE\r\n", b"* SEARCH 1 2\r\n", b"* NO trouble\r\n", b"* BYE shutting down\r\n", b"* BAD trouble\r\n"]

def fault(w, rng):
    r = rng.random()
    cs = [c for c in w.clients() if not c.eof and c.state not in ("out", "bye")]
    ss = [s for s in w.sessions() if not s.closed]
    if r < 0.35 and cs:
        c = rng.choice(cs)
        k = rng.choice(["eof", "err"])
        w.log("   !! client %d %s" % (c.id, k))
        w.call(k, c.id)
        c.hits = tuple(c.hits) + ("self",)
        c.expect_close = True
        w.ctx.count("client_faults")
    elif r < 0.8 and ss:
        s = rng.choice(ss)
        s.faulted = True
        k = rng.choice(["eof", "err", "eof", "err", "garbage"])
        if k == "garbage":
            g = rng.choice(GARBAGE)
            s.put(g)
            w.log("   !! server %d sends %r" % (s.sid, g))
            w.flush_up(s)
            if rng.random() < 0.5 or g.startswith(b"* BYE"):
                w.call("eof", s.sid)
                s.dead = True
        else:
            w.log("   !! server %d %s" % (s.sid, k))
            w.call(k, s.sid)
            s.dead = True
        w.ctx.count("server_faults")
        if s.client is None:
            hit_all(w, "xkey " + k)
        else:
            for d in mates(w, s.client) if k == "garbage" else [s.client]:
                d.hits = tuple(d.hits) + (k if d is s.client else "mate",)
                d.expect_close = True
    elif w.connects:
        i = rng.randrange(len(w.connects))
        c = w.owner.get(w.connects[i])
        w.log("   !! connect for %s fails" % (c.id if c else "preuser"))
        w.ctx.count("connect_faults")
        if c is None:
            hit_all(w, "xkey connect")
        else:
            c.hits = tuple(c.hits) + ("connect",)
            c.expect_close = True
        w.connect(False, i)
    return

def judge_closed(w):
    """everyone not concerned by a fault is still connected, everyone else was told and closed"""
    for c in w.clients():
        gone = c.eof or c.state in ("bye",)
        if c.hits:
            if c.eof:
                w.ctx.count("victims_closed")
                if not c.byetext and c.state != "out" and "self" not in c.hits and not c.loggedout and all(h in ("eof", "err", "xkey eof", "xkey err", "connect", "xkey connect") for h in c.hits):
                    w.viol("C28", "dropped-without-bye", "client %d was disconnected after %r without a BYE" % (c.id, c.hits))
                elif c.byetext:
                    w.ctx.count("byes_seen")
            elif "self" in c.hits or any(h in ("eof", "err", "connect") for h in c.hits) and c.state != "pre":
                w.viol("C28", "not-closed", "client %d (%s) is still open after %r" % (c.id, c.state, c.hits))
        elif gone and c.state != "out" and not c.expect_close and not c.srv.hardno:
            w.viol("C28", "innocent-dropped", "client %d was disconnected though only others had trouble; %r" % (c.id, c.byetext))
        elif not gone:
            w.ctx.count("survivors")
Client.loggedout = False

def faulty_case(ctx, rng, i):
    w = new_world(ctx, rng, ctx.args["props"])
    w.exactly_once = False
    populate(w, rng)
    if not w.start():
        w.viol("C28", "start-failed", "citm did not start")
        return
    nf = rng.choice([1, 1, 2, 4, 8])
    for ph in range(nf):
        live = len([c for c in w.clients() if not c.eof])
        if ph == 0 or rng.random() < 0.5:
            steps(w, rng, rng.choice([0, 5, 20, 60]), rng.randint(1, 3) if live < 3 else 0)
        else:
            steps(w, rng, rng.choice([0, 2, 10]), 0 if live else 1)
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 2, 5])):
                w.client()
                w.run(rng.choice([0, 1, 5, -1]))
        fault(w, rng)
        if rng.random() < 0.3:
            w.settle()
            judge_closed(w)
        else:
            w.run(rng.choice([0, 1, 5, 50]))
    w.settle()
    judge_closed(w)
    converge(w, rng, "after faults")
    judge_closed(w)
    for c in w.clients():
        if not c.eof and c.state in ("pre", "auth", "sel") and rng.random() < 0.3 and not c.busy() and not c.idle:
            a_logout(w, c, rng)
    w.settle()
    for c in w.clients():
        if c.state == "out" and not c.eof:
            w.viol("C28", "not-closed-after-logout", "client %d is open after LOGOUT" % c.id)
    d = w.client()
    w.settle()
    for k in range(2):
        act(w, d, rng)
        w.settle()
        if d.state == "auth":
            a_select(w, d, rng, rng.choice(list(d.srv.boxes)), b"SELECT")
            w.settle()
            break
    if d.state != "sel":
        w.viol("C28", "no-login-after-faults", "a new client cannot log in and select a mailbox: state %s, last %r, bye %r" % (d.state, d.last and d.last.raw, d.byetext))
    else:
        w.ctx.count("fresh_logins")
    converge(w, rng, "with a new client")
    ctx.distinct("\n".join(w.trace))
    restart_check(w, rng)

# ------------------------------------------------------------------- logins
PWS = [b"pw", b"", b"p w", b'q"uo\\te', b"caf\xc3\xa9", b"x" * 60, b"{5}", b"nil", b"%*(]"]

def j_login(c, cmd):
    good = cmd.user in c.w.srvs and c.w.srvs[cmd.user].pw == cmd.pw
    c.w.ctx.count("logins_judged")
    if (cmd.status == b"OK") != good:
        c.viol("C28", "login-verdict", "LOGIN as %r with %r was answered %r" % (cmd.user, cmd.pw, cmd.status))
    if cmd.status == b"OK":
        c.user, c.srv = cmd.user, c.w.srvs[cmd.user]
        # citm has possibly not noticed yet that the key sync is broken
        if any(s.faulted and not s.closed and s.client is None for s in c.w.sessions()) or len(c.w.trace) - getattr(c.w, "hitall_at", -99) < 12:
            c.hits = tuple(c.hits) + ("xkey late",)
            c.expect_close = True

def send_login(w, c, rng):
    user, pw = c.srv.user, c.srv.pw
    r = rng.random()
    if r < 0.15:
        pw = rng.choice(PWS)
    elif r < 0.2:
        user = rng.choice([b"nobody", b"JOE@x.com", user + b" ", b"../joe@x.com", user[:-1]])
    c.logins.append((user, pw))
    def s(x):
        if rng.random() < 0.6 and re.match(rb"[A-Za-z0-9@.]+\Z", x):
            return x
        if rng.random() < 0.25 or not all(0 < b < 128 for b in x):
            return None
        return quote(x)
    parts = [s(user), s(pw)]
    if None not in parts:
        c.send(b"LOGIN", cased(rng, b"LOGIN") + b" " + b" ".join(parts), user=user, pw=pw, judge=j_login)
        return
    # with literals
    c.ntag += 1
    tag = b"A%d" % c.ntag
    vals = [user, pw]
    text = tag + b" LOGIN"
    chunks = []
    for v, p in zip(vals, parts):
        text += b" " + (p if p is not None else b"{%d}" % len(v))
        if p is None:
            text += b"\r\n"
            chunks.append(text)
            text = v
    text += b"\r\n"
    chunks.append(text)
    cmd = Cmd(tag, b"LOGIN", b"LOGIN " + user + b" " + pw, c.srv.tick(), user=user, pw=pw, judge=j_login)
    cmd.fut_select = False
    c.out.append(cmd)
    c.literal = chunks[1:]
    w.feed(c.id, chunks[0])

def pre_cmd(w, c, rng):
    v = rng.choice([b"NOOP", b"CAPABILITY", b"SELECT INBOX", b"STARTTLS", b"FETCH 1 FLAGS", b"XKEYSYNC", b"nonsense", b"LIST \"\" *", b"ENABLE QRESYNC", b"XKEYADD x", b"CLOSE", b"DELETE INBOX"])
    ok = v in (b"NOOP", b"CAPABILITY")
    c.send(v.split()[0], v, judge=j_okonly if ok else j_bad)

def judge_logins(w):
    """the server saw exactly what clients typed"""
    seen = {}
    for srv in w.srvs.values():
        for sid, u, p, good in srv.logins:
            seen.setdefault(sid, []).append((u, p))
    accepted = set()
    for sid, s in w.allsess.items():
        if s.client is not None:
            got = seen.get(sid, [])
            want = s.client.logins
            w.ctx.count("credentials_compared", len(got))
            if got != want[:len(got)]:
                w.viol("C28", "credentials-differ", "client %d typed %r, the server was given %r" % (s.client.id, want, got))
            accepted.update(got)
    for sid, s in w.allsess.items():
        if s.client is None:
            for x in seen.get(sid, []):
                if x not in accepted or x[1] != w.srvs.get(x[0], s.srv).pw:
                    w.viol("C28", "key-connection-credentials", "citm logged in as %r for itself" % (x,))

def login_case(ctx, rng, i):
    w = new_world(ctx, rng, ctx.args["props"], kw2=0.6)
    w.exactly_once = False
    for s in w.srvs.values():
        s.pw = rng.choice(PWS)
    if not w.start():
        return
    faulty = rng.random() < 0.3
    nsteps = rng.choice([60, 200, 400])
    for k in range(nsteps):
        r = rng.random()
        cs = [c for c in w.clients() if not c.eof and c.state not in ("bye", "out", "dead")]
        if r < 0.1 and len(cs) < 5 or not cs:
            w.client()
        elif r < 0.4:
            c = rng.choice(cs)
            if c.busy() or c.state == "greet":
                if c.out and c.literal is None and rng.random() < 0.1 and c.out[-1].verb not in (b"LOGOUT", b"IDLE"):
                    # pipelined
                    v = rng.choice([b"NOOP", b"CAPABILITY", b"LOGOUT"])
                    if v == b"LOGOUT":
                        c.expect_close = True
                    c.send(v, v, judge=j_okonly)
                    ctx.count("pipelined")
                continue
            if c.state == "pre":
                if rng.random() < 0.2:
                    pre_cmd(w, c, rng)
                elif rng.random() < 0.1:
                    a_logout(w, c, rng)
                else:
                    send_login(w, c, rng)
            elif rng.random() < 0.5:
                a_logout(w, c, rng)
            elif c.idle == "on":
                act(w, c, rng)
            else:
                rng.choice([a_select, a_simple, a_idle, a_sub, a_status, a_list])(w, c, rng)
        elif r < 0.43 and cs:
            c = rng.choice(cs)
            k = rng.choice(["eof", "err"])
            w.log("   !! client %d %s" % (c.id, k))
            w.call(k, c.id)
            c.hits = tuple(c.hits) + ("self",)
            c.expect_close = True
        elif r < 0.45 and faulty:
            fault(w, rng)
        elif r < 0.75:
            a = w.actions()
            if a:
                w.do(rng.choice(a))
        else:
            w.run(rng.choice([0, 1, 1, 1, 2, 3, 5, 10]))
    if rng.random() < 0.6:
        w.settle()
        judge_closed(w)
        finish_cmds(w, rng)
        judge_closed(w)
        for c in w.clients():
            if c.state == "out" and not c.eof:
                w.viol("C28", "not-closed-after-logout", "client %d is open after LOGOUT" % c.id)
        for srv in w.srvs.values():
            d = w.client(srv)
            w.settle()
            d.logins.append((srv.user, srv.pw))
            if all(0 < b < 128 for b in srv.pw):
                d.send(b"LOGIN", b"LOGIN " + quote(srv.user) + b" " + quote(srv.pw), user=srv.user, pw=srv.pw, judge=j_login)
                w.settle()
                a_select(w, d, rng, rng.choice(list(d.srv.boxes)), b"SELECT")
                w.settle()
                if d.state != "sel":
                    w.viol("C28", "no-login-after-churn", "a new client cannot log in and select a mailbox: state %s, last %r, bye %r" % (d.state, d.last and d.last.raw, d.byetext))
                else:
                    ctx.count("fresh_logins")
    judge_logins(w)
    if rng.random() < 0.1:
        refused_idle(w, rng)
    ctx.distinct("\n".join(w.trace))
    w.stop()

def refused_idle(w, rng):
    """a refused IDLE does not eat the next command"""
    c = w.client(rng.choice(list(w.srvs.values())))
    w.settle()
    c.send(b"IDLE", b"IDLE", judge=j_bad)
    w.settle()
    c.send(b"NOOP", b"NOOP", judge=j_okonly)
    w.settle()
    w.ctx.count("refused_idles")
    if c.out:
        w.viol("C10", "command-lost-after-idle-before-login", "the command after a refused IDLE is not answered")

def login_alone(w, c):
    """log a client in without letting anything else happen to it"""
    c.logins.append((c.user, c.pw))
    c.send(b"LOGIN", b"LOGIN " + quote(c.user) + b" " + quote(c.pw), user=c.user, pw=c.pw, judge=j_login)

def race_case(ctx, rng, i):
    """a user whose last client leaves while the next ones log in"""
    w = new_world(ctx, rng, ctx.args["props"], kw2=0)
    w.exactly_once = False
    if not w.start():
        return
    w.maxchunk = rng.choice([1, 40, 4000])
    for rnd in range(rng.randint(1, 4)):
        olds = [w.client() for _ in range(rng.randint(1, 2))]
        w.settle()
        for c in olds:
            if c.state == "pre":
                login_alone(w, c)
        w.settle()
        new = [w.client() for _ in range(rng.randint(1, 3))]
        w.settle()
        for c in new:
            login_alone(w, c)
        w.run(-1)
        for c in w.clients():
            if c in new or c.eof:
                continue
            k = rng.choice(["eof", "err", "logout"])
            c.expect_close = True
            if k == "logout" and c.state in ("auth", "sel") and not c.busy():
                c.send(b"LOGOUT", b"LOGOUT", judge=j_okonly)
            else:
                c.hits = tuple(c.hits) + ("self",)
                w.call(k, c.id)
        for _ in range(rng.randint(1, 8)):
            w.run(rng.choice([0, 1, 1, 2, 3, 5, 8]))
            a = w.actions()
            if a and rng.random() < 0.6:
                w.do(rng.choice(a))
        ctx.count("races")
        if rng.random() < 0.4:
            break
        w.settle()
        judge_closed(w)
        for c in new:
            if c.state != "auth":
                w.viol("C28", "late-login-lost", "client %d logged in while the last client of its user left: state %s bye %r" % (c.id, c.state, c.byetext))
            elif not c.eof:
                a_select(w, c, rng, b"INBOX", b"SELECT")
        w.settle()
        judge_closed(w)
        for c in new:
            if c.state == "auth":
                w.viol("C28", "late-login-unserved", "client %d logged in while the last client of its user left and cannot select" % c.id)
        ctx.count("late_logins", len(new))
    judge_logins(w)
    ctx.distinct("\n".join(w.trace))
    w.stop()

# ------------------------------------------------- crashes and full file systems
def thicken(w, rng):
    """make the logs of the store as long as those of a store in long use: a
    log which says everything several times says the same"""
    out = []
    for d, _, fs in os.walk(w.root):
        if ".cache" in fs:
            p = os.path.join(d, ".cache")
            ls = open(p, "rb").read().split(b"\n")
            if ls.pop() or not ls:
                continue
            if len(ls) < 1000:
                k = rng.randint(985, 1010) // len(ls) + 1
                open(p, "wb").write((b"\n".join(ls) + b"\n") * k)
                out.append(p)
    return out

def thin(ctx, paths):
    for p in paths:
        ctx.count("long_logs")
        if os.path.exists(p) and open(p, "rb").read().count(b"\n") < 800:
            ctx.count("logs_compacted")

def crash_case(ctx, rng, i):
    """the process dies at a random file system operation (or the file system
    fails), starts again on what is left, and must be right again"""
    w = new_world(ctx, rng, ctx.args["props"], kw2=0.1)
    w.exactly_once = False
    w.alias = {"C09": "C08", "C10": "C08", "C11": "C08", "C12": "C08"}
    w.allow_no = True
    populate(w, rng)
    rounds = rng.choice([1, 1, 2, 3])
    died = faulted = 0
    thick = []
    for rnd in range(rounds + 1):
        thin(ctx, thick)
        thick = thicken(w, rng) if rnd and rng.random() < 0.35 else []
        mode = rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 6, 6, 7]) if rnd < rounds else 0
        at = rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 60), rng.randint(1, 400)])
        if mode >= 6:
            at = rng.choice([1, 2, 3, rng.randint(1, 20)])
        try:
            w.call("fs", at, mode, 0)
            if rng.random() < 0.3:
                # let the first sync pass undisturbed
                w.call("fs", 0, 0, 0)
                late = True
            else:
                late = False
            ok = w.start()
            if ok:
                cs = rng.randint(1, 3)
                if late:
                    steps(w, rng, 0, cs)
                    w.call("fs", at, mode, 0)
                    cs = 0
                steps(w, rng, rng.choice([5, 20, 60, 150]), cs)
                w.settle()
            elif mode < 3:
                w.viol("C08", "start-failed", "citm did not start (fault mode %d, round %d)" % (mode, rnd))
                return
            hits = int(w.call("fsops")[0])
            if mode >= 3 and hits >= at:
                faulted += 1
                ctx.count("fs_failures" if mode < 6 else "read_failures")
            if ok:
                w.call("fs", 0, 0, 0)
                w.stop()
            elif w.drv.p is not None:
                w.drv.kill()
        except Exception as e:
            if not (type(e).__name__ == "DriverDied" and e.rc == 77):
                raise
            m = re.search("VH_CRASH (?:at|in) op \\d+ (\\w*)(.*)", e.err)
            w.log("   !! crashed: %s" % (m and m.group(0)))
            ctx.count("crashes")
            ctx.count("crash_in_" + (m.group(1) if m else "?"))
            died += 1
        w.conns = {}
        for s in w.srvs.values():
            s.sessions[:] = []
    if not died and not faulted:
        ctx.count("nothing_hit")
    ctx.count("checked_after_crash" if died else "checked_after_failure" if faulted else "checked_clean")
    thin(ctx, thick)
    if not w.start():
        w.viol("C08", "restart-failed", "citm does not start any more")
        return
    for srv in list(w.srvs.values()):
        restart_one(w, rng, srv, {k: dict(v) for k, v in w.uidmap.items()})
    # and it still works
    w.stop()
    w.allow_no = False
    if not w.start():
        w.viol("C08", "restart-failed", "citm does not start any more")
        return
    steps(w, rng, rng.choice([0, 30]), 1)
    converge(w, rng, "in the session after the restart")
    check_alive(w)
    w.stop()
    ctx.distinct("\n".join(w.trace))

def walk_case(ctx, rng, i):
    """the first download of one mailbox, stopped before (or within) each single
    file system operation in turn, with flags changing while it is under way"""
    w = new_world(ctx, rng, ctx.args["props"], kw2=0)
    w.exactly_once = False
    w.alias = {"C09": "C08", "C10": "C08", "C11": "C08", "C12": "C08"}
    w.allow_no = True
    for _ in range(rng.choice([2, 3, 4])):
        w.deliver(w.srv.boxes[b"INBOX"], rng.choice(["enc", "enc", "enc", "plain"]), rflags(rng, 0.25))
    def died(e):
        if not (type(e).__name__ == "DriverDied" and e.rc == 77):
            raise e
        m = re.search("VH_CRASH (?:at|in) op \\d+ (\\w*)(.*)", e.err)
        w.log("   !! crashed: %s" % (m and m.group(0)))
        ctx.count("walk_crashes")
        ctx.count("walk_crash_in_" + (m.group(1) if m else "?"))
        w.conns = {}
        w.licenses = []
        for s in w.srvs.values():
            s.sessions[:] = []
    # (the operations of a start and a login come first)
    try:
        w.call("fs", 0, 0, 0)
        if not w.start():
            w.viol("C08", "start-failed", "citm did not start")
            return
        c = w.client(w.srv)
        for k in range(3):
            w.settle()
            if c.state == "pre" and not c.busy():
                act(w, c, rng)
        w.settle()
        w.call("fs", 1 + i % 50, 1 if i // 50 % 3 else 2, 0)
        if c.state == "auth" and not c.busy():
            a_select(w, c, rng, b"INBOX", b"SELECT")
        for k in range(rng.choice([0, 3, 8, 15])):
            for _ in range(rng.choice([1, 1, 2, 6])):
                a = w.actions()
                if a:
                    w.do(rng.choice(a))
            w.run(rng.choice([-1, -1, -1, 0, 1, 3]))
            if rng.random() < 0.4:
                external(w, rng)
        w.settle()
        w.call("fs", 0, 0, 0)
        w.stop()
        ctx.count("walk_over")
    except Exception as e:
        died(e)
    if not w.start():
        w.viol("C08", "restart-failed", "citm does not start any more")
        return
    for srv in list(w.srvs.values()):
        restart_one(w, rng, srv, {k: dict(v) for k, v in w.uidmap.items()})
    w.stop()
    w.allow_no = False
    if not w.start():
        w.viol("C08", "restart-failed", "citm does not start any more")
        return
    for srv in list(w.srvs.values()):
        restart_one(w, rng, srv, {k: dict(v) for k, v in w.uidmap.items()})
    w.stop()
    ctx.distinct("\n".join(w.trace))

# --------------------------------------------------- UIDVALIDITY of the server
def mailbox_dirs(w, srv, name):
    d = os.path.join(w.root.encode(), srv.user, b"mail", name)
    return [os.path.join(d, s) for s in (b"cur", b"new")]

def reborn_case(ctx, rng, i):
    """while citm is down (after a stop, a kill, or with files of its cache gone)
    the server's mailboxes are replaced by new ones of the same names; nothing of
    the old ones may reach the new ones or be shown as theirs"""
    w = new_world(ctx, rng, ctx.args["props"], kw2=0.1)
    w.exactly_once = False
    if ctx.args["props"] == ["C08"]:
        w.alias = {"C09": "C08", "C10": "C08", "C11": "C08", "C12": "C08"}
    w.reborn = {}
    populate(w, rng, rng.sample([b"box", b"Archive"], rng.randint(0, 2)))
    for rnd in range(rng.choice([1, 1, 2, 3])):
        if not w.start():
            w.viol("C09", "start-failed", "citm did not start")
            return
        # some stop in the middle of the first download
        early = rng.random() < 0.3
        w.client(w.srv)
        if early:
            steps(w, rng, rng.choice([5, 20, 40]), 1)
        else:
            for name in sorted(w.srv.boxes):
                c = w.clients()[0]
                finish_cmds(w, rng)
                if c.state == "pre":
                    act(w, c, rng)
                    finish_cmds(w, rng)
                a_select(w, c, rng, name, b"SELECT")
                finish_cmds(w, rng)
                if rng.random() < 0.7:
                    a_fetch(w, c, rng, True)
                converge(w, rng, "before the change")
            steps(w, rng, rng.choice([0, 0, 20, 60]), 0)
        if rng.random() < 0.3:
            w.drv.kill()
        else:
            w.settle()
            w.stop()
        w.conns = {}
        w.licenses = []
        for s in w.srvs.values():
            s.sessions[:] = []
        for srv in w.srvs.values():
            for name in list(srv.boxes):
                b = srv.boxes[name]
                if rng.random() < 0.25:
                    external(w, rng)
                    continue
                if rng.random() < 0.6:
                    # messages missing from the cache
                    for d in mailbox_dirs(w, srv, name):
                        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                            if rng.random() < 0.4:
                                os.unlink(os.path.join(d, f))
                                ctx.count("files_removed")
                nb = srv.create(name)
                if rng.random() < 0.7 and b.msgs:
                    nb.uidnext = b.msgs[0].uid
                if rng.random() < 0.5:
                    nb.hi = b.hi + rng.choice([0, 1, 100])
                for _ in range(rng.choice([0, 1, 3, 8])):
                    w.deliver(nb, rng.choice(w.kinds), rflags(rng, 0.25))
                ctx.count("mailboxes_replaced")
        for _ in range(rng.choice([0, 0, 1, 2])):
            # dies at some point of the change
            try:
                w.call("fs", rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 200)]), rng.choice([1, 1, 2]), 0)
                if w.start():
                    steps(w, rng, rng.choice([0, 20]), 1)
                    w.settle()
                    w.call("fs", 0, 0, 0)
                    w.stop()
                elif w.drv.p is not None:
                    w.drv.kill()
            except Exception as e:
                if not (type(e).__name__ == "DriverDied" and e.rc == 77):
                    raise
                m = re.search("VH_CRASH (?:at|in) op \\d+ (\\w*)(.*)", e.err)
                w.log("   !! crashed: %s" % (m and m.group(0)))
                ctx.count("crashes_at_change")
            w.conns = {}
            w.licenses = []
            for s in w.srvs.values():
                s.sessions[:] = []
        if not w.start():
            w.viol("C09", "restart-failed", "citm did not start again")
            return
        n = ctx.res.counts.get("views_compared", 0)
        for srv in list(w.srvs.values()):
            restart_one(w, rng, srv, {})
        ctx.count("views_of_replaced", ctx.res.counts.get("views_compared", 0) - n)
        w.stop()
    ctx.distinct("\n".join(w.trace))

def vanished_case(ctx, rng, i):
    """a mailbox which was cached is gone from the server: what it held leaves the
    disk with the refused SELECT, the other mailboxes keep theirs"""
    w = new_world(ctx, rng, ctx.args["props"], kw2=0.1)
    populate(w, rng, [b"box"] + rng.sample([b"Archive", b"Archive/2020"], rng.randint(0, 2)))
    if not w.start():
        w.viol("C09", "start-failed", "citm did not start")
        return
    for srv in list(w.srvs.values()):
        restart_one(w, rng, srv, {})
    if rng.random() < 0.5:
        w.settle()
        w.stop()
        w.conns = {}
        w.licenses = []
        for s in w.srvs.values():
            s.sessions[:] = []
        if not w.start():
            w.viol("C09", "restart-failed", "citm did not start again")
            return
    def files(srv, name):
        return sorted(os.path.join(d, f) for d in mailbox_dirs(w, srv, name)[:1] if os.path.isdir(d) for f in os.listdir(d))
    for c in w.clients():
        if c.state == "sel" and not c.eof:
            a_logout(w, c, rng)
    finish_cmds(w, rng)
    w.settle()
    srv = w.srv
    had = files(srv, b"box")
    keep = {n: files(srv, n) for n in srv.boxes if n != b"box"}
    if rng.random() < 0.4:
        # a SELECT that fails for another reason says nothing about the messages
        srv.bad_select = True
        w.client(srv)
        c = w.clients()[-1]
        finish_cmds(w, rng)
        if c.state == "pre":
            act(w, c, rng)
            finish_cmds(w, rng)
        if c.state == "auth":
            c.expect_close = True
            c.box = None
            c.send(b"SELECT", b"SELECT box", box=b"nosuch", judge=j_select)
            finish_cmds(w, rng)
            if not c.eof:
                a_logout(w, c, rng)
                finish_cmds(w, rng)
        w.settle()
        srv.bad_select = False
        ctx.count("select_bad")
        ctx.check(files(srv, b"box") == had, "messages-lost", lambda: "after SELECT was answered BAD %r is gone" % (set(had) - set(files(srv, b"box"))))
    del srv.boxes[b"box"]
    w.client(srv)
    c = w.clients()[-1]
    finish_cmds(w, rng)
    if c.state == "pre":
        act(w, c, rng)
        finish_cmds(w, rng)
    if c.state != "auth":
        w.stop()
        return
    for k in range(rng.choice([1, 1, 2])):
        c.box = None
        c.send(b"SELECT", b"SELECT box", box=b"nosuch", judge=j_select)
        finish_cmds(w, rng)
    w.settle()
    a_logout(w, c, rng)
    finish_cmds(w, rng)
    w.settle()
    left = files(srv, b"box")
    ctx.check(not left, "messages-left", lambda: "a mailbox which is gone from the server still has %r of %r\n%s" % (left, had, "\n".join(w.trace[-60:])))
    if had:
        ctx.count("mailboxes_vanished")
    for n, f in keep.items():
        ctx.check(files(srv, n) == f, "neighbour-lost", lambda: "%r lost %r" % (n, set(f) - set(files(srv, n))))
    nb = srv.create(b"box")
    for _ in range(rng.choice([0, 1, 3])):
        w.deliver(nb, rng.choice(w.kinds), rflags(rng, 0.25))
    restart_one(w, rng, srv, {})
    w.stop()
    ctx.distinct("\n".join(w.trace))
