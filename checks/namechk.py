"""C13: mailbox names"""
import os
from citmchk import *

GOOD = [b"Archive", b"Archive/2020", b"Archive/2020/x", b"a b", b"x.y", b"...", b"cur2", b"tmp.d", b"-rf", b"back\\slash", b"q\"uote", b"INBOX/sub", b"INBOXES", b"n" * 200, b"~", b"$HOME", b"a&AOk-",
        b".hidden", b"..x", b"Trash", b"Cur", b"NEW/x"]
BAD = [b"..", b".", b"../x", b"../../x", b"../../../../../../../../tmp/vh-escape", b"a/../b", b"Archive/..", b"Archive/../../keys", b"../keys", b"../fingerprints", b"./a", b"Archive/.", b"a//b", b"Archive//2020", b"/abs", b"/", b"a/",
       b"Archive/", b"cur", b"tmp", b"new", b"INBOX/cur", b"INBOX/new/x", b"Archive/tmp", b"INBOX/tmp", b"tmp/1", b"", b"x" * 256, b"a/" + b"y" * 300, b"../../ann@x.com/mail/INBOX", b"../mail/INBOX", b"INBOX/../INBOX", b"inbox/", b"new/new"]

def valid(n):
    return all(p and len(p) <= 255 and p not in (b".", b"..", b"cur", b"tmp", b"new") for p in n.split(b"/")) and b"\0" not in n

def nm(rng, n):
    if n == b"INBOX":
        return mbname(rng, n)
    if n and rng.random() < 0.5 and not re.search(rb'[^A-Za-z0-9./_-]', n):
        return n
    return b'"' + n.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'

def pick(w, c, rng, existing=0.6):
    r = rng.random()
    if r < existing and c.srv.boxes:
        return rng.choice(list(c.srv.boxes))
    if r < existing + (1 - existing) * 0.5:
        return rng.choice(GOOD)
    return rng.choice(BAD)

def alive(w, c, cmd):
    w.ctx.count("names_judged")

def j_name(c, cmd):
    """what must hold of every reply to a command which names a mailbox"""
    w = c.w
    w.ctx.count("valid_names" if all(map(valid, cmd.names)) else "odd_names")
    for n in cmd.names:
        if not valid(n):
            w.ctx.count("odd_" + cmd.verb.decode().split()[-1].lower() + "_" + cmd.status.decode().lower())

def below(n, top):
    return n == top or n.startswith(top + b"/")

def touch(w, c, *names):
    """a delete or rename of these names: what it may change"""
    w.ondisk = {}
    if w.single:
        for k in c.srv.boxes:
            if valid(k) and not any(below(k, c.srv.key(n)) for n in names):
                w.ondisk[k] = len(files(w, c, k))
    for n in names:
        for k, b in c.srv.boxes.items():
            if below(k, n):
                b.uidvalidity_stable = False

def n_select(w, c, rng, n=None, verb=None):
    n = n or pick(w, c, rng, 0.75)
    verb = verb or rng.choice([b"SELECT"] * 4 + [b"EXAMINE"])
    c.box = None
    c.send(verb, verb + b" " + nm(rng, n), box=c.srv.key(n), names=[n], judge=j_nselect)

def j_nselect(c, cmd):
    w = c.w
    j_name(c, cmd)
    b = c.srv.boxes.get(cmd.box)
    if cmd.status == b"OK" and b is None:
        c.viol("C13", "select-of-nothing", "%r answered OK, the server has no such mailbox" % cmd.raw)
    if cmd.status != b"OK" and b is not None and valid(cmd.box) and w.single:
        c.viol("C13", "select-refused", "%r answered %r %r" % (cmd.raw, cmd.status, cmd.text))

def n_status(w, c, rng):
    n = pick(w, c, rng)
    c.send(b"STATUS", b"STATUS " + nm(rng, n) + b" (MESSAGES UIDNEXT UIDVALIDITY UNSEEN)", names=[n], judge=j_name)

def n_create(w, c, rng):
    n = pick(w, c, rng, 0.1)
    c.send(b"CREATE", b"CREATE " + nm(rng, n), names=[n], judge=j_name)

def n_delete(w, c, rng):
    n = pick(w, c, rng, 0.8)
    touch(w, c, n)
    w.churned.add((c.srv, c.srv.key(n)))
    c.send(b"DELETE", b"DELETE " + nm(rng, n), names=[n], judge=j_delete)

def files(w, c, n):
    d = os.path.join(w.root.encode(), c.srv.user, b"mail", n)
    return [os.path.join(s, f) for s in (b"cur", b"new", b"tmp") if os.path.isdir(os.path.join(d, s)) for f in os.listdir(os.path.join(d, s))]

def j_delete(c, cmd):
    w = c.w
    j_name(c, cmd)
    n = c.srv.key(cmd.names[0])
    if cmd.status == b"OK":
        w.ctx.count("deletes_done")
        if w.single and valid(n):
            f = files(w, c, n)
            w.ctx.count("directories_examined")
            if f:
                c.viol("C13", "deleted-mail-left", "after DELETE of %r its mail is still there: %r" % (n, f[:3]))
    elif n in c.srv.boxes and n != b"INBOX" and w.single and valid(n) and (c.state != "sel" or c.box != n):
        c.viol("C13", "delete-refused", "%r answered %r %r" % (cmd.raw, cmd.status, cmd.text))
    others(w, c)

def n_rename(w, c, rng):
    o, n = pick(w, c, rng, 0.85), pick(w, c, rng, 0.2)
    touch(w, c, o, n)
    w.churned.add((c.srv, c.srv.key(o)))
    w.churned.add((c.srv, c.srv.key(n)))
    c.send(b"RENAME", b"RENAME " + nm(rng, o) + b" " + nm(rng, n), names=[o, n], judge=j_rename)

def j_rename(c, cmd):
    w = c.w
    j_name(c, cmd)
    if cmd.status == b"OK":
        w.ctx.count("renames_done")
        o = c.srv.key(cmd.names[0])
        if w.single and valid(o) and o != b"INBOX":
            f = files(w, c, o)
            if f and o not in c.srv.boxes:
                c.viol("C13", "renamed-mail-left", "after RENAME of %r its mail is still there: %r" % (o, f[:3]))
    others(w, c)

def others(w, c):
    """mailboxes which nothing renamed or deleted keep their mail on disk"""
    if not w.single:
        return
    for n, k in w.ondisk.items():
        f = len(files(w, c, n))
        w.ctx.count("neighbours_examined")
        if f != k:
            c.viol("C13", "neighbour-lost-mail", "mailbox %r had %d files and has %d after %r" % (n, k, f, c.last.raw))
    w.ondisk = {}

def n_append(w, c, rng):
    n = pick(w, c, rng, 0.6)
    a_append(w, c, rng, n, nm(rng, n))
    c.out[-1].names = [n]

def n_copy(w, c, rng):
    n = pick(w, c, rng, 0.6)
    cells = pick_cells(rng, c, True)
    if not cells:
        return
    c.send(b"UID COPY", b"UID COPY " + set_of(rng, c, list(cells), True) + b" " + nm(rng, n), vids=[w.vid_of(c, x) for x in cells], dst=n, dstobj=c.srv.boxes.get(c.srv.key(n)), boxid=c.boxid, judge=j_ncopy, names=[n])

def j_ncopy(c, cmd):
    j_name(c, cmd)

def nact(w, c, rng):
    if c.state in ("greet", "out", "dead", "bye") or c.eof:
        return
    if c.idle == "on":
        return done(w, c)
    if c.busy():
        return
    if c.state == "pre":
        return act(w, c, rng)
    if c.state == "auth":
        f = rng.choice([n_select] * 6 + [n_status, n_create, n_create, n_delete, n_delete, n_rename, n_rename, n_append, n_append, a_list])
    else:
        f = rng.choice([a_fetch] * 3 + [a_store, a_expunge, n_copy, n_copy, n_append, a_close, a_simple, a_idle] + [n_select] * 3 + [n_status, n_create, n_delete, n_rename])
    f(w, c, rng)

def conf(w, where):
    esc = w.call("conf", 2)[0]
    w.ctx.count("confinement_checks")
    for l in esc.split(b"\n"):
        if l:
            w.viol("C13", "left-the-mail-directory", "%s: %r" % (where, l[:300]))

def names_case(ctx, rng, i):
    w = new_world(ctx, rng, ctx.args["props"], kw2=0.0)
    w.alias = {"C09": "C13", "C11": "C13"}
    w.renames = True
    w.churned, w.ondisk = set(), {}
    w.name_ok = valid
    w.exactly_once = False
    w.single = rng.random() < 0.7
    w.kinds = ["enc"] * 3 + ["plain"]
    hostile = rng.random() < 0.2
    srv = w.srv
    srv.hostile = hostile
    srv.noselect = not hostile
    for n in rng.sample(GOOD, rng.randint(1, 5)) + (rng.sample(BAD, rng.randint(0, 4)) if rng.random() < 0.6 else []):
        if srv.key(n) not in srv.boxes and n:
            srv.create(n)
    for b in srv.boxes.values():
        for _ in range(rng.choice([0, 1, 2, 5])):
            w.deliver(b, rng.choice(w.kinds), rflags(rng, 0.25))
    w.call("conf", 2)
    if not w.start():
        w.viol("C13", "start-failed", "citm did not start")
        return
    for _ in range(1 if w.single else rng.randint(2, 3)):
        w.client()
    for _ in range(rng.choice([20, 60, 150])):
        r = rng.random()
        if r < 0.3 and not w.single:
            a = w.actions()
            if a:
                w.do(rng.choice(a))
        elif r < 0.75:
            cs = [c for c in w.clients() if not c.eof]
            if cs:
                nact(w, rng.choice(cs), rng)
            if w.single:
                w.settle()
        elif r < 0.8:
            b = rng.choice(list(srv.boxes.values()))
            w.deliver(b, rng.choice(w.kinds), rflags(rng, 0.25))
        else:
            w.settle()
        conf(w, "session")
        if w.single:
            for c in w.clients():
                if (c.eof or c.state in ("dead", "bye")) and not hostile:
                    w.viol("C13", "connection-lost", "the client's connection ended; churned %r" % (w.churned,))
                    w.stop()
                    return
    converge(w, rng, "after the session")
    conf(w, "end of session")
    w.stop()
    conf(w, "stop")
    # a new process: everything which is still on the server can be read
    if not w.start():
        w.viol("C13", "restart-failed", "citm did not start again")
        return
    c = w.client(srv)
    for name in sorted(srv.boxes):
        finish_cmds(w, rng)
        if c.state == "pre":
            act(w, c, rng)
            finish_cmds(w, rng)
        if c.state not in ("auth", "sel"):
            if not hostile:
                w.viol("C13", "connection-lost", "before %r of the last pass: %r" % (name, c.state))
            break
        if c.state not in ("auth", "sel"):
            break
        n_select(w, c, rng, name, b"EXAMINE")
        finish_cmds(w, rng)
        if c.state == "sel":
            w.ctx.count("mailboxes_reopened")
            converge(w, rng, "in the last pass")
    conf(w, "last pass")
    w.stop()
    conf(w, "last stop")
    w.call("conf", 0)
    ctx.distinct("\n".join(w.trace))
