"""API tokens, nonces, installations, and API calls (C32)"""
import base64, hmac, hashlib, json, os, shutil
from util import *
from httpchk import Server, plan
from webchk import VCH

SAFE = b"abcXYZ019-_@."
def name(rng, n=20, alpha=SAFE):
    return bytes(rng.choice(alpha) for _ in range(rng.randint(1, n)))
def text(rng, n=40):
    r = rng.random()
    if r < .5:
        return name(rng, n)
    if r < .9:
        return "".join(rng.choice("ab\"\\/é€\u0001\n\t '{}x") for _ in range(rng.randint(1, n))).encode()
    return b"s" * rng.choice([60, 127, 128, 129, 200, 300])

BIG = [0, 1, 2, 9, 10, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 2]
KEYS = [0, 1, 5, 2**31 - 1, 2**31, 2**32 - 1]

def fsize(b):
    return len(b)

def tokfile(key, secret, nonce):
    return json.dumps({"token": key, "secret": secret.decode(), "nonce": nonce}).encode()

def store_case(ctx, rng, i):
    """tokens, nonces and installations through crashes and failing file systems"""
    wd = os.path.join(ctx.wdir, "api%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        store_run(ctx, rng, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def store_run(ctx, rng, wd):
    long_ = rng.random() < .15
    if long_:
        wd = wd + "/" + "d" * 200
        os.makedirs(wd)
    p = os.path.join(wd, rng.choice(["t.json", "api token", "x"]))
    kind = rng.choice(["tok", "tok", "nonce", "inst"])
    used = []          # nonces handed out, in order
    key, secret, nonce = rng.choice(KEYS), text(rng), rng.choice(BIG + [rng.randint(0, 10**6)] * 5)
    email, sub = text(rng), text(rng)
    state = None       # what the file surely holds
    maybe = []         # what it may hold after a crash
    trace = []
    broken = False
    for step in range(rng.randint(2, 12)):
        d = ctx.driver("drv_api")
        mode = rng.choice([0, 0, 0, 1, 2, 3, 4])
        d.call("fs", os.path.dirname(p), rng.randint(1, 5), mode)
        by = rng.randint(0, 1)
        op = "?"
        try:
            if kind == "nonce":
                op = "nonce"
                if rng.random() < .04 and state is not None:
                    bad = rng.choice([b"", b"x", b"-1\n", b"12 13\n", b"18446744073709551616\n", b"1" * 40])
                    open(p, "wb").write(bad)
                    r = d.call("nonce", p, by)
                    ctx.check(r[0] != b"OK", "nonce-broken-accepted", "%r was read as a nonce" % bad)
                    ctx.check(open(p, "rb").read() == bad, "nonce-broken-replaced", "a broken nonce file was replaced")
                    ctx.count("broken_files")
                    return
                if rng.random() < .1:
                    v = rng.choice(BIG[:-1])
                    if not used or v > used[-1]:
                        open(p, "wb").write(rng.choice([b"%d\n", b"%d", b" %d \r\n"]) % v)
                        state, maybe = v, []
                r = d.call("nonce", p, by)
                trace.append((op, mode, r))
                if r[0] == b"OK":
                    n = int(r[1])
                    ctx.check(not used or n > used[-1], "nonce-reused", lambda: "nonce %d after %d: %r" % (n, used[-1], trace))
                    base = {(state or 0) + 1} | {m + 1 for m in maybe}
                    ctx.check(n in base, "nonce-value", lambda: "nonce %d, expected %r: %r" % (n, base, trace))
                    used.append(n)
                    state, maybe = n, []
                    ctx.count("nonces_used")
                    now = open(p, "rb").read()
                    ctx.check(now.strip() == b"%d" % n, "nonce-not-stored", lambda: "handed out %d but stored %r" % (n, now))
                else:
                    if mode < 3 and (state or 0) < 2**64 - 1:
                        ctx.violation("nonce-fails", "%r" % r)
                    ctx.count("failed_steps")
                    if state is not None:
                        maybe.append(state + 1)
                    else:
                        maybe.append(1)
            elif kind == "tok":
                if state is None or rng.random() < .1:
                    op = "tokw"
                    if rng.random() < .5:
                        key, secret = rng.choice(KEYS), text(rng)
                    nn = rng.choice(BIG[:-1]) if not used else used[-1] + rng.randint(0, 3)
                    if used and rng.random() < .5 and state is not None:
                        nn = state[2]
                    r = d.call("tokw", p, by, key, secret, nn)
                    trace.append((op, mode, key, secret, nn, r))
                    new = (key, secret, nn)
                    if r[0] == b"OK":
                        state, maybe = new, []
                        if used and nn < used[-1]:
                            used = []
                        ctx.count("tokens_written")
                    else:
                        ctx.check(mode >= 3, "token-write-fails", "%r" % r)
                        maybe.append(new)
                        ctx.count("failed_steps")
                elif rng.random() < .08:
                    op = "broken"
                    good = tokfile(*state)
                    bad = rng.choice([b"", b"{}", good[:rng.randint(0, len(good) - 1)], good + b"x", good.replace(b"token", b"tokem"), b"[" * 200,
                                      good.replace(b"nonce", b"nonze"), b'{"token":-1,"secret":"s","nonce":1}', b'{"token":4294967296,"secret":"s","nonce":1}',
                                      b'{"token":1,"secret":5,"nonce":1}', b'{"token":1,"secret":"s","nonce":18446744073709551616}', b" " * 1100 + good,
                                      b'{"token":1,"secret":"s","nonce":1,"token":2,"nonce":3,"secret":4}'])
                    open(p, "wb").write(bad)
                    d.call("fs", os.path.dirname(p), 1, 0)
                    r = d.call("riw", p, by)
                    trace.append((op, bad, r))
                    ctx.check(r[0] == b"OK" and r[1] == b"0", "broken-token", lambda: "%r read as %r" % (bad, r))
                    ctx.check(not os.path.exists(p), "broken-token-left", lambda: "%r is still there" % bad)
                    ctx.check(not r[3], "secret-left", "a secret is returned from a broken token")
                    ctx.count("broken_files")
                    return
                else:
                    op = "riw"
                    r = d.call("riw", p, by)
                    trace.append((op, mode, r))
                    cand = [state] + maybe
                    if r[0] == b"OK" and r[1] == b"1":
                        got = (int(r[2]), r[3], int(r[4]))
                        ctx.check(any((k, s, n + 1) == got for k, s, n in cand), "token-value", lambda: "%r is none of %r plus one: %r" % (got, cand, trace))
                        ctx.check(not used or got[2] > used[-1], "nonce-reused", lambda: "nonce %d after %d: %r" % (got[2], used[-1], trace))
                        used.append(got[2])
                        state, maybe = got, []
                        f = json.loads(open(p, "rb").read())
                        ctx.check((f["token"], f["secret"].encode(), f["nonce"]) == got and len(f) == 3, "nonce-not-stored", lambda: "handed out %r but stored %r" % (got, f))
                        ctx.count("nonces_used")
                    elif r[0] == b"OK":
                        ctx.violation("token-dropped", "a good token file was called broken: %r" % (trace,))
                        return
                    else:
                        ctx.check(mode >= 3, "token-fails", lambda: "%r" % (trace,))
                        maybe += [(k, s, n + 1) for k, s, n in cand if (k, s, n + 1) not in maybe]
                        ctx.count("failed_steps")
                if rng.random() < .5 and os.path.exists(p):
                    d.call("fs", os.path.dirname(p), 1, 0)
                    r = d.call("tokr", p, rng.randint(0, 1))
                    got = (int(r[1]), r[2], int(r[3]))
                    ctx.check(r[0] == b"OK" and got in [state] + maybe, "token-differs", lambda: "%r read, %r expected: %r" % (r, [state] + maybe, trace))
                    ctx.count("tokens_read")
            else:
                op = "instw"
                new = (rng.choice(KEYS), text(rng), text(rng), text(rng))
                if state is None or rng.random() < .6:
                    r = d.call("instw", p, by, *new)
                    trace.append((op, mode, new, r))
                    if r[0] == b"OK":
                        state, maybe = new, []
                        ctx.count("installations_written")
                    else:
                        ctx.check(mode >= 3, "installation-write-fails", "%r" % r)
                        maybe.append(new)
                        ctx.count("failed_steps")
                d.call("fs", os.path.dirname(p), 1, 0)
                if os.path.exists(p):
                    r = d.call("instr", p, rng.randint(0, 1))
                    sz = os.path.getsize(p)
                    if sz > 1024:
                        ctx.check(r[0] == b"PARAM", "installation-large", "%r" % r)
                        return
                    got = (int(r[1]), r[2], r[3], r[4])
                    ctx.check(r[0] == b"OK" and got in [state] + maybe, "installation-differs", lambda: "%r read, %r expected: %r" % (r, [state] + maybe, trace))
                    ctx.count("installations_read")
                else:
                    ctx.check(state is None, "installation-lost", lambda: "%r" % (trace,))
        except Exception as e:
            if not (type(e).__name__ == "DriverDied" and e.rc == 77):
                raise
            ctx.count("crashes")
            trace.append((op, mode, "crashed"))
            if kind == "nonce":
                maybe.append((state or 0) + 1)
            elif kind == "tok":
                if op == "tokw":
                    maybe.append((key, secret, nn))
                elif state is not None:
                    maybe += [(k, s, n + 1) for k, s, n in [state] + maybe]
            else:
                maybe.append(new)
        # after a fault the file is the old or the new one, whole
        if kind == "tok" and state is None and maybe and not os.path.exists(p):
            maybe = []
        if kind == "tok" and state is None and os.path.exists(p):
            d = ctx.driver("drv_api")
            d.call("fs", os.path.dirname(p), 1, 0)
            r = d.call("tokr", p, 0)
            got = (int(r[1]), r[2], int(r[3]))
            if ctx.check(r[0] == b"OK" and got in maybe, "token-torn", lambda: "%r read, %r expected: %r" % (r, maybe, trace)):
                state, maybe = got, []
        if kind == "inst" and state is None and maybe and os.path.exists(p):
            state = None
        ctx.distinct(kind, mode, op, len(maybe), len(used), state is None)
    ctx.distinct(repr(trace))

# ---------------------------------------------------------------- calls
def jstr(rng, b):
    return json.dumps(b.decode("utf8", "replace"), ensure_ascii=rng.random() < .5)

def reply(rng):
    """-> (http status, body, expectation) ; expectation: ('inst', tuple) | ('fail',) | ('err', kind) | ('bad',)"""
    inst = (rng.choice(KEYS), text(rng), text(rng), text(rng))
    c = {"token": inst[0], "secret": inst[1].decode(), "subdomain": inst[2].decode(), "email": inst[3].decode()}
    items = list(c.items())
    rng.shuffle(items)
    good = {"status": rng.choice(["success", "success", "SUCCESS", "Success"]), "contents": dict(items)}
    if rng.random() < .3:
        good["more"] = [1, {"x": None}]
    top = list(good.items())
    rng.shuffle(top)
    def dump(x):
        return json.dumps(x, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 1])).encode()
    st = rng.choice([200, 200, 200, 201, 299])
    r = rng.random()
    if r < .5:
        return st, dump(dict(top)), ("inst", inst)
    if r < .6:
        return st, dump({"status": rng.choice(["error", "failure", "succes", "", "successs"]), "contents": rng.choice(["no such thing", {"a": 1}, None, 5])}), ("bad",)
    if r < .65:
        return st, dump(rng.choice([{"contents": c}, {"status": 5, "contents": c}, [], 5, {"status": "error"}])), ("bad",)
    if r < .7:
        k = rng.choice(list(c))
        c2 = dict(c)
        if rng.random() < .5:
            del c2[k]
        else:
            c2[k] = rng.choice([None, [], {}, True])
        return st, dump({"status": "success", "contents": c2}), ("nok",)
    if r < .75:
        return st, dump({"status": "success"}), ("nok",)
    if r < .85:
        b = dump(dict(top))
        return st, rng.choice([b"", b[:-1], b[1:], b"x" + b, b"<html></html>", b[:rng.randint(0, len(b) - 1)]]), ("json",)
    return rng.choice([301, 400, 401, 401, 403, 403, 404, 500, 503, 300]), rng.choice([b"", b"no", dump(dict(top))]), ("status",)

def call_case(ctx, rng, i):
    if "srv" not in ctx.state:
        ctx.state["srv"] = Server(ctx.wdir)
    srv = ctx.state["srv"]
    d = ctx.driver("drv_api")
    n = rng.choice([1, 1, 2, 3, 5])
    mode = rng.choice(["async", "async", "sync"])
    script, calls, args = {}, [], []
    b0 = srv.base()    # what an earlier case left on its way must not be taken for ours
    base = b"http://127.0.0.1:%d" % srv.port
    disturb = mode == "async" and rng.random() < .25
    for k in range(n):
        st, body, exp = reply(rng)
        kind = rng.choice([b"pass", b"tok"])
        arg = rng.choice([b"", text(rng), text(rng, 300)])
        user, pw = name(rng, 30), rng.choice([text(rng, 30)[:120], b"p:w:", b"x" * 60])
        key, secret, nonce = rng.choice(KEYS), rng.choice([text(rng), rng.randbytes(rng.choice([1, 64, 127, 128, 129, 300]))]), rng.choice(BIG)
        path = b"/r%d" % (b0 + k)
        badurl = rng.random() < .06
        if badurl:
            path = b"/r%d%s" % (b0 + k, rng.choice([b" ", b"%", b"%zz", b"\x01", b"\""]))
            exp = ("url",)
        cm = rng.choice([0, 1, 3]) if disturb and rng.random() < .4 else -1
        dead = not badurl and rng.random() < .06
        closes = rng.random() < .2
        resp = b"HTTP/1.1 %d Reason %d\r\n%sContent-Length: %d\r\n\r\n" % (st, k, b"Connection: close\r\n" if closes else b"", len(body)) + body
        reset = False
        if dead:
            resp = resp[:rng.randint(0, len(resp) - 1)]
            exp = ("dead",)
            reset = rng.random() < .3
        script[b0 + k] = dict(plan=plan(rng, resp, reset), close=dead or closes, early=False)
        args += [kind, path, arg, user, pw, key, secret, nonce, cm, rng.randint(0, 1)]
        calls.append(dict(kind=kind, path=path, arg=arg, user=user, pw=pw, key=key, secret=secret, nonce=nonce, cm=cm, exp=exp, st=st, body=body))
    srv.begin(script)
    r = d.call("calls", mode, 8000, base, n, *args)
    if r[0] == b"HANG":
        k = int(r[1])
        ctx.violation("call-never-ends" + ("-bad-url" if calls[k]["exp"] == ("url",) else ""), "call %d of %d is never answered: %r" % (k, n, calls[k]))
        d.kill()
        return
    with srv.lock:
        got = [x for x in srv.reqs if b0 <= x[1] < b0 + n]
        seen = {idx - b0: (head, body) for (c, idx, head, body, rest, nm) in got}
        nseen = len(got)
    ctx.check(nseen == len(seen), "sent-twice", lambda: "a call was sent twice: %r of %r" % (srv.reqs, calls))
    for k, c in enumerate(calls):
        ncb, et, msg, wj, can, cret, jok, jet, ik, isec, isub, imail = r[1 + 12 * k:13 + 12 * k]
        what = lambda: "%s call %d %r -> %s %s (json %s %s)" % (mode, k, c, et.decode(), msg.decode("latin1")[:300], jok.decode(), jet.decode())
        ctx.check(ncb == b"1", "callbacks", lambda: "%s callbacks: %s" % (ncb.decode(), what()))
        ctx.check(wj == b"0", "callback-data", lambda: what())
        if k in seen and seen[k][1] is not None:
            head, body = seen[k]
            lines = head[:-4].split(b"\r\n")
            ctx.check(lines[0] == b"POST " + c["path"] + b" HTTP/1.1", "request-line", lambda: "%r" % lines[0])
            hd = {}
            for ln in lines[1:]:
                a, b = ln.split(b":", 1)
                ctx.check(a.lower() not in hd, "header-twice", lambda: "%r" % lines)
                hd[a.lower()] = b.strip()
            try:
                j = json.loads(base64.b64decode(body, validate=True))
            except Exception as e:
                ctx.violation("body", "%r: %s" % (body, e))
                continue
            want = {"path": c["path"].decode(), "arg": c["arg"].decode() if c["arg"] else None}
            if c["kind"] == b"tok":
                want["nonce"] = c["nonce"]
                ctx.check(hd.get(b"x-auth-token") == b"%d" % c["key"], "token-header", lambda: "%r" % lines)
                ctx.check(hd.get(b"x-auth-signature", b"").lower() == hmac.new(c["secret"], body, hashlib.sha512).hexdigest().encode(), "signature", lambda: "%r of %r" % (lines, body))
                ctx.check(b"authorization" not in hd, "password-sent", lambda: "%r" % lines)
            else:
                ctx.check(hd.get(b"authorization") == b"Basic " + base64.b64encode(c["user"] + b":" + c["pw"]), "password-header", lambda: "%r" % lines)
                ctx.check(b"x-auth-token" not in hd and b"x-auth-signature" not in hd, "token-sent", lambda: "%r" % lines)
            ctx.check(j == want, "request", lambda: "%r instead of %r" % (j, want))
            ctx.check(c["secret"] not in body or len(c["secret"]) < 12, "secret-sent", lambda: "%r" % body)
            ctx.count("requests_checked")
        if can == b"1" and cret == b"1":
            ctx.check(et != b"OK", "cancel-promise", lambda: "canceled, but a success: " + what())
            ctx.count("canceled")
            continue
        if et == b"CANCELED":
            ctx.violation("canceled", what())
            continue
        e = c["exp"]
        if e[0] == "url":
            ctx.check(et != b"OK" and k not in seen, "bad-url", what)
            ctx.count("bad_urls")
        elif e[0] == "dead":
            ctx.check(et not in (b"OK",), "truncated-accepted", what)
            ctx.count("truncated")
        elif e[0] == "status":
            w = b"RESPONSE" if c["st"] not in (401, 403) else b"PASSWORD" if c["kind"] == b"pass" else b"TOKEN"
            ctx.check(et == w, "status-verdict", lambda: "expected %s: %s" % (w.decode(), what()))
            ctx.count("refusals")
        elif e[0] == "json":
            ctx.check(et == b"RESPONSE", "json-verdict", what)
            ctx.count("bad_json")
        elif e[0] == "bad":
            ctx.check(et == b"OK" and (jet == b"RESPONSE" or jet == b"OK" and jok == b"0"), "failure-accepted", what)
            ctx.count("reported_failures")
        elif e[0] == "nok":
            ctx.check(et == b"OK" and jet == b"OK" and jok == b"0", "contents-accepted", what)
            ctx.count("bad_contents")
        else:
            got = (int(ik), isec, isub, imail)
            ctx.check(et == b"OK" and jet == b"OK" and jok == b"1" and got == e[1], "response", lambda: "%r instead of %r: %s" % (got, e[1], what()))
            ctx.count("responses_read")
    ctx.distinct(repr(calls))

def register_case(ctx, rng, i):
    if "srv" not in ctx.state:
        ctx.state["srv"] = Server(ctx.wdir)
    srv = ctx.state["srv"]
    wd = os.path.join(ctx.wdir, "reg%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    d = ctx.driver("drv_api")
    p = wd + "/creds.json"
    user, pw = name(rng), text(rng)[:100]
    old = None
    if rng.random() < .4:
        old = tokfile(1, b"old", 77)
        open(p, "wb").write(old)
    key, secret = rng.choice(KEYS), text(rng)[:60].decode('utf8', 'ignore').encode()
    ok = rng.random() < .6
    body = json.dumps({"status": "success", "contents": {"secret": secret.decode(), "token": key}}).encode()
    st = 200
    if not ok:
        x = rng.randrange(4)
        if x == 0:
            st = rng.choice([401, 500])
        elif x == 1:
            body = body[:-1]
        elif x == 2:
            body = json.dumps({"status": "success", "contents": {"secret": secret.decode()}}).encode()
        else:
            body = json.dumps({"status": "error", "contents": "nope"}).encode()
    # it asks for /api/add_token, which the server files under -1
    srv.begin({-1: dict(plan=[(b"HTTP/1.1 %d OK\r\nContent-Length: %d\r\n\r\n" % (st, len(body)) + body, 0)], close=False, early=False)})
    mode = rng.choice([0, 0, 3, 4])
    d.call("fs", wd, rng.randint(1, 4), mode)
    r = d.call("register", b"http://127.0.0.1:%d" % srv.port, user, pw, p, rng.randint(0, 1))
    d.call("fs", wd, 1, 0)
    have = open(p, "rb").read() if os.path.exists(p) else None
    if ok and r[0] == b"OK":
        f = json.loads(have)
        ctx.check(f == {"token": key, "secret": secret.decode(), "nonce": 1}, "registered-token", "%r stored for %r" % (f, body))
        ctx.count("registered")
    else:
        ctx.check(not (ok and mode == 0), "register-fails", "%r for %r" % (r, body))
        ctx.check(r[0] != b"OK", "register-accepted", "%r for %d %r" % (r, st, body))
        ctx.check(have == old or ok and have and json.loads(have).get("secret") == secret.decode(), "old-token-lost", "%r became %r" % (old, have))
        ctx.count("registrations_refused")
    ctx.distinct(body, st, mode, old)
    shutil.rmtree(wd, ignore_errors=True)
