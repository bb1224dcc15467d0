"""JWS, account keys and the ACME client against a model server on the loopback network (C31)"""
import base64, hashlib, hmac, json, os, re, shutil, socket, struct, threading, time
from util import *
import vrun

LEAKENV = {"ASAN_OPTIONS": vrun.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:leak_check_at_exit=0")}

def drv(ctx):
    return ctx.driver("drv_acme", env=LEAKENV)

def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=")

def unb64u(t):
    if re.fullmatch(rb"[A-Za-z0-9_-]*", t) is None or len(t) % 4 == 1:
        raise ValueError("not base64url: %r" % t)
    b = base64.urlsafe_b64decode(t + b"=" * (-len(t) % 4))
    if b64u(b) != t:
        raise ValueError("not canonical: %r" % t)
    return b

def spki(pem):
    return base64.b64decode(b"".join(l for l in pem.split(b"\n") if l and not l.startswith(b"-")))

ED_SPKI = bytes.fromhex("302a300506032b6570032100")
EC_SPKI = bytes.fromhex("3059301306072a8648ce3d020106082a8648ce3d030107034200" "04")

def blob(rng, n=200):
    return bytes(rng.choice([rng.randrange(256), 0, 255, 97, 0x3e << 2, 0xff]) for _ in range(rng.choice([0, 1, 2, 3, 4, rng.randrange(n)])))

def jtext(rng, n=30):
    return "".join(rng.choice("abcXYZ09 -_/.:\"\\<>\u00e9\u20ac\U0001f600\n\t") for _ in range(rng.randrange(n)))

class Key:
    """what an independent reader makes of a key the driver holds"""
    def __init__(self, ctx, d, slot, indent=0):
        self.slot = slot
        r = d.call("keyinfo", slot, indent, b"PRE")
        ctx.check(all(x == b"OK" for x in (r[0], r[2], r[4], r[5], r[7], r[8])), "keyinfo", lambda: "%r" % r)
        self.pvt, self.pub, self.pem, self.thumb, self.params = r[1], r[3], r[6], r[9], r[10]
        ctx.check(self.thumb.startswith(b"PRE") and len(self.thumb) == 35, "appends", lambda: "%r" % r)
        self.thumb = self.thumb[3:]
        a, b = json.loads(self.pvt), json.loads(self.pub)
        self.jwk = b
        ctx.check("d" not in b and {k: v for k, v in a.items() if k != "d"} == b, "public-jwk", lambda: "%r of %r" % (b, a))
        der = spki(self.pem)
        if b["kty"] == "OKP":
            self.alg = "EdDSA"
            ctx.check(sorted(b) == ["crv", "kty", "x"] and b["crv"] == "Ed25519" and ED_SPKI + unb64u(b["x"].encode()) == der, "public-jwk", lambda: "%r for %r" % (b, self.pem))
        else:
            self.alg = "ES256"
            x, y = unb64u(b["x"].encode()), unb64u(b["y"].encode())
            ctx.check(sorted(b) == ["crv", "kty", "x", "y"] and (b["kty"], b["crv"]) == ("EC", "P-256") and len(x) == len(y) == 32 and EC_SPKI + x + y == der, "public-jwk", lambda: "%r for %r" % (b, self.pem))
        ctx.check(len(unb64u(a["d"].encode())) == 32, "private-jwk", lambda: "%r" % a)
        want = hashlib.sha256(json.dumps(b, sort_keys=True, separators=(",", ":")).encode()).digest()
        ctx.check(self.thumb == want, "thumbprint", lambda: "%r for %r" % (self.thumb, b))
        p = json.loads(b"{" + self.params + b"}")
        ctx.check(p.get("alg") == self.alg, "alg", lambda: "%r" % self.params)

    def authz(self, token):
        return b64u(hashlib.sha256(token + b"." + b64u(self.thumb)).digest())

def check_jws(ctx, d, text, pem=None, hkey=None):
    """-> protected, payload; anything which is not a good flattened JWS raises"""
    o = json.loads(text)
    if sorted(o) != ["payload", "protected", "signature"]:
        raise ValueError("members of the jws: %r" % sorted(o))
    p, q, s = (o[k].encode() for k in ("protected", "payload", "signature"))
    sig = unb64u(s)
    msg = p + b"." + q
    if hkey is not None:
        if hmac.new(hkey, msg, hashlib.sha256).digest() != sig:
            raise ValueError("the hmac of the jws is wrong")
    elif pem is not None:
        if d.call("verify", pem, msg, sig)[0] != b"1":
            raise ValueError("the signature of the jws does not verify")
    return unb64u(p), unb64u(q)

def jws_case(ctx, rng, i):
    d = drv(ctx)
    slot = rng.randrange(4)
    kind = rng.choice("edb")
    raw = bytes(rng.randrange(256) for _ in range(32))
    r = d.call("key", slot, kind, raw)
    ctx.check(r == [b"1", b"OK"], "key", "%r" % r)
    k = Key(ctx, d, slot)
    ctx.count("keys")
    if kind == "b":
        ctx.check(unb64u(json.loads(k.pvt)["d"].encode()) == raw, "private-jwk", lambda: "%r for %r" % (k.pvt, raw))
    # write it, read it, still the same key
    if rng.random() < .7:
        t = k.pvt
        if rng.random() < .5:
            o = json.loads(t)
            it = list(o.items()) + [("use", "sig"), ("kid", "x" * rng.randrange(20))][:rng.randrange(3)]
            rng.shuffle(it)
            t = json.dumps(dict(it), indent=rng.choice([None, 1])).encode()
        bad = rng.random() < .25 and rng.choice(["kty", "crv", "nox", "nod", "d", "cut"])
        if bad:
            o = json.loads(t)
            if bad in ("kty", "crv"):
                o[bad] = rng.choice(["RSA", "P-384", "", "ec", "X25519"])
            elif bad == "nox":
                del o["x"]
            elif bad == "nod":
                del o["d"]
            elif bad == "d":
                o["d"] = b64u(bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 31, 33, 64])))).decode()
                if o["kty"] == "EC" and len(o["d"]) < 43:
                    o["d"] = "!" * 43
            t = json.dumps(o).encode()
            if bad == "cut":
                t = t[:rng.randrange(1, len(t))]
            r = d.call("key", slot, "j", t)
            ctx.check(r[0] == b"0" and r[1] != b"OK", "bad-key-accepted", lambda: "%r for %r" % (r, t))
            ctx.count("bad_keys")
            d.call("key", slot, "j", k.pvt)
        else:
            r = d.call("key", slot, "j", t)
            ctx.check(r == [b"1", b"OK"], "key-not-read", lambda: "%r for %r" % (r, t))
        k2 = Key(ctx, d, slot)
        ctx.check(k2.pvt == k.pvt and k2.pem == k.pem, "key-changed", lambda: "%r became %r" % (k.pvt, k2.pvt))
        ctx.count("keys_reread")
    for _ in range(rng.randint(1, 4)):
        op = rng.randrange(6)
        pre = blob(rng, 40)
        msg = blob(rng)
        if op == 0:
            r = d.call("sign", slot, msg, pre)
            ctx.check(r[:2] == [b"OK", b"OK"] and r[2].startswith(pre) and d.call("verify", k.pem, msg, r[2][len(pre):])[0] == b"1", "signature", lambda: "%r of %r" % (r, msg))
            other = msg + b"x"
            ctx.check(d.call("verify", k.pem, other, r[2][len(pre):])[0] == b"0", "oracle", "the verifier accepts anything")
            ctx.count("signatures")
        elif op == 1:
            hk = blob(rng)
            room = rng.choice([0, 0, len(pre) + 32, len(pre) + 31, len(pre) + 40])
            r = d.call("hs", hk, msg, pre, room)
            want = pre + hmac.new(hk, msg, hashlib.sha256).digest()
            if room == len(pre) + 31:
                ctx.check(r[0] == b"FIXEDSIZE" and r[1] == pre, "hmac-room", lambda: "%r" % r)
            else:
                ctx.check(r == [b"OK", want], "hmac", lambda: "%r of %r %r after %r" % (r, hk, msg, pre))
            ctx.count("hmacs")
        elif op == 2:
            prot, pay = blob(rng, 300), blob(rng, 300)
            hk = blob(rng) if rng.random() < .5 else b""
            r = d.call("jws", slot, prot, pay, pre, hk)
            ctx.check(r[0] == b"OK" and r[1].startswith(pre), "jws", lambda: "%r" % r)
            try:
                got = check_jws(ctx, d, r[1][len(pre):], None if hk else k.pem, hk or None)
            except ValueError as e:
                got = str(e)
            ctx.check(got == (prot, pay), "jws", lambda: "%r for %r: %r" % (got, (prot, pay), r))
            ctx.count("jwss")
        elif op == 3:
            a = [jtext(rng, 60) for _ in range(3)]
            pay = blob(rng, 300)
            r = d.call("ajws", slot, pay, *[x.encode() for x in a])
            try:
                p, q = check_jws(ctx, d, r[1], k.pem)
                got = json.loads(p), q
                got[0].pop("crv", None)
            except ValueError as e:
                got = str(e)
            ctx.check(got == ({"alg": k.alg, "nonce": a[0], "url": a[1], "kid": a[2]}, pay), "acme-jws", lambda: "%r for %r: %r" % (got, a, r))
            ctx.count("jwss")
        elif op == 4:
            tok = bytes(rng.choice(b"abcXYZ0189-_") for _ in range(rng.choice([1, 22, 43, 51])))
            r = d.call("authz", slot, tok, pre)
            ctx.check(r == [b"OK", b"OK", pre + k.authz(tok)], "key-authorization", lambda: "%r for %r" % (r, tok))
            ctx.count("authz_strings")
        else:
            b = blob(rng)
            enc = b64u(b)
            sz = rng.choice([0, 0, len(enc), max(1, len(enc) - 1), len(enc) + 5])
            r = d.call("b64", rng.choice("ef"), b, 0)
            ctx.check(r[0] == b"OK" and r[1] in (enc, b"<" + enc + b">"), "b64url", lambda: "%r for %r" % (r, b))
            r = d.call("b64", "e", b, sz)
            if sz and sz < len(enc):
                ctx.check(r[0] == b"FIXEDSIZE", "b64url-room", lambda: "%r for %r in %d" % (r, b, sz))
            else:
                ctx.check(r == [b"OK", enc], "b64url", lambda: "%r for %r in %d" % (r, b, sz))
            t = enc
            r = d.call("b64", "d", t, rng.choice([0, len(b) + 3]))
            ctx.check(r == [b"OK", b], "b64url-decode", lambda: "%r for %r" % (r, t))
            if enc:
                j = rng.randrange(len(enc))
                bad = enc[:j] + bytes([rng.choice(b"+/ \n!.\0\xff")]) + enc[j + 1:]
                r = d.call("b64", "d", bad, 0)
                ctx.check(r[0] == b"PARAM", "b64url-accepts", lambda: "%r for %r" % (r, bad))
            ctx.count("b64s")
    if rng.random() < .4:
        p = os.path.join(ctx.wdir, "acct%d.json" % i)
        kid = jtext(rng, 100).encode()
        d.call("acct", slot, kid)
        r = d.call("acct_to", slot, p, rng.randint(0, 1))
        f = json.loads(open(p, "rb").read())
        ctx.check(r == [b"OK"] and f == {"key": json.loads(k.pvt), "kid": kid.decode()}, "account-file", lambda: "%r holds %r" % (r, f))
        m = rng.randrange(3)
        text = open(p, "rb").read()
        bad = rng.random() < .4
        if bad:
            x = rng.randrange(3)
            text = text[:rng.randrange(len(text.rstrip()) - 1)] if x == 0 else json.dumps({"kid": f["kid"]}).encode() if x == 1 else json.dumps({"key": f["key"]}).encode()
            open(p, "wb").write(text)
        s2 = rng.randrange(4, 8)
        r = d.call("acct_from", s2, text if m == 2 else p, m)
        if bad:
            ctx.check(r[0] != b"OK" and r[1] == b"0", "bad-account-accepted", lambda: "%r for %r" % (r, text))
            ctx.count("bad_accounts")
        else:
            ctx.check(r == [b"OK", b"1", kid], "account-not-read", lambda: "%r for %r" % (r, text))
            k2 = Key(ctx, d, s2)
            ctx.check(k2.pvt == k.pvt, "account-key-changed", lambda: "%r became %r" % (k.pvt, k2.pvt))
            ctx.count("accounts_reread")
        d.call("free", s2)
        os.remove(p)
    d.call("free", slot)
    ctx.distinct(raw, kind, k.pvt)
    if i % 16 == 15:
        r = d.call("leak")
        ctx.check(r == [b"0"], "leak", lambda: "memory is lost: %s" % leaks(d))

def leaks(d):
    t = open(d.errpath, errors="replace").read()
    fr = re.findall(r"#\d+ \S+ in (\w+) \S*?(\w+\.c:\d+)", t)
    return " ".join("%s@%s" % x for x in fr[:12])

# -- the server --------------------------------------------------------------

class Acme:
    def __init__(self):
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(64)
        self.port = self.l.getsockname()[1]
        self.lock = threading.Lock()
        self.ses = None
        self.epoch = 0
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            s, _ = self.l.accept()
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=self.serve, args=(s, self.ses), daemon=True).start()

    def serve(self, s, ses):
        buf = b""
        try:
            while True:
                while b"\r\n\r\n" not in buf:
                    d = s.recv(65536)
                    if not d:
                        return
                    buf += d
                head, buf = buf.split(b"\r\n\r\n", 1)
                lines = head.split(b"\r\n")
                hdrs = {}
                for ln in lines[1:]:
                    k, v = ln.split(b":", 1)
                    hdrs.setdefault(k.lower(), []).append(v.strip())
                need = int(hdrs.get(b"content-length", [b"0"])[0])
                while len(buf) < need:
                    d = s.recv(65536)
                    if not d:
                        return
                    buf += d
                body, buf = buf[:need], buf[need:]
                m, path, _ = lines[0].split(b" ")
                with self.lock:
                    if ses is not self.ses:
                        return
                    old = re.match(rb"/e(\d+)/", path)
                    if old and int(old.group(1)) < self.epoch:
                        # from a client closed before this connection was accepted
                        return
                    out = ses.handle(m.decode(), path.decode(), hdrs, body)
                if out is None:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return
                data, delay, close = out
                if delay:
                    time.sleep(delay)
                s.sendall(data)
                if close:
                    return
        except OSError:
            pass
        finally:
            s.close()

PROBLEM = "urn:ietf:params:acme:error:"

class Session:
    """one acme server: what it gave out, what it saw, what it will say next"""
    def __init__(self, srv, rng):
        srv.epoch += 1
        self.rng = rng
        self.pre = "/e%d" % srv.epoch
        self.base = "http://127.0.0.1:%d%s" % (srv.port, self.pre)
        self.given, self.used = set(), set()
        self.bad = []          # what a strict server complains about
        self.posts = []        # (path, payload, verdict)
        self.reqs = []
        self.script = {}       # path -> list of answers
        self.keys = {}         # kid -> Key
        self.newkey = None
        self.nonce_in_answers = True
        self.dirfault = []
        self.noncefault = []
        self.toverify = []
        self.nn = 0
        self.waits = []        # what an answer said, in order: retry-after or None

    def nonce(self):
        self.nn += 1
        n = "n%d-%s" % (self.nn, "".join(self.rng.choice("abcDEF019-_") for _ in range(self.rng.choice([4, 30, 100]))))
        self.given.add(n)
        return n

    def reply(self, st, body=b"", hdrs=(), nonce=True, fault=None, head=False):
        rng = self.rng
        h = list(hdrs)
        if nonce and self.nonce_in_answers:
            h.append((rng.choice(["Replay-Nonce", "replay-nonce", "REPLAY-NONCE"]), self.nonce()))
        h += [("Server", "model"), ("Link", "<%s/x>;rel=\"index\"" % self.base)][:rng.randrange(3)]
        rng.shuffle(h)
        close = fault == "cut" or rng.random() < .1
        wire = body
        if fault == "cut":
            h.append(("Content-Length", str(len(body))))
            wire = body[:rng.randrange(len(body))] if body else b""
        elif head and rng.random() < .5:
            pass
        elif rng.random() < .5:
            h.append(("Content-Length", str(len(body))))
        elif not head:
            h.append(("Transfer-Encoding", "chunked"))
            wire, j = b"", 0
            while j < len(body):
                k = rng.randint(1, len(body))
                wire += b"%x\r\n%s\r\n" % (len(body[j:j + k]), body[j:j + k])
                j += k
            wire += b"0\r\n\r\n"
        if head:
            wire = b""
        if close:
            h.append(("Connection", "close"))
        out = b"HTTP/1.1 %d %s\r\n" % (st, rng.choice([b"OK", b"Whatever it is", b"x"])) + b"".join(b"%s: %s\r\n" % (a.encode(), b.encode()) for a, b in h) + b"\r\n" + wire
        return out, rng.choice([0, 0, 0, .002]), close

    def handle(self, m, path, hdrs, body):
        rng = self.rng
        self.reqs.append((m, path))
        if not path.startswith(self.pre + "/"):
            self.bad.append("request for %s" % path)
            return None
        p = path[len(self.pre):]
        if p == "/dir":
            if m != "GET" or body:
                self.bad.append("%s of the directory with %r" % (m, body))
            d = {"newNonce": "nonce", "newAccount": "acct", "newOrder": "order", "revokeCert": "rev", "keyChange": "kc"}
            d = {k: self.base + "/" + v for k, v in d.items()}
            d["meta"] = {"termsOfService": "https://example.com/tos", "website": "x"}
            d["odd"] = [1, 2, {"a": None}]
            f = self.dirfault.pop(0) if self.dirfault else None
            if f == "status":
                return self.reply(rng.choice([404, 500]), b"{}", nonce=False)
            if f == "url":
                d[rng.choice(["newNonce", "newAccount", "newOrder", "revokeCert"])] = "not a url"
            if f == "missing":
                del d[rng.choice(["newNonce", "newAccount", "newOrder"])]
            if f == "reset":
                return None
            it = list(d.items())
            rng.shuffle(it)
            return self.reply(200, json.dumps(dict(it)).encode(), nonce=rng.random() < .3, fault=f)
        if p == "/nonce":
            if m != "HEAD" or body:
                self.bad.append("%s of the nonce with %r" % (m, body))
            f = self.noncefault.pop(0) if self.noncefault else None
            if f == "reset":
                return None
            return self.reply(500 if f == "status" else 200, nonce=False, hdrs=[] if f == "none" else [("Replay-Nonce", self.nonce())], head=True)
        if m != "POST":
            self.bad.append("%s of %s" % (m, p))
            return None
        ct = hdrs.get(b"content-type")
        if ct != [b"application/jose+json"]:
            self.bad.append("content type %r" % ct)
        try:
            o = json.loads(body)
            prot = json.loads(unb64u(o["protected"].encode()))
            pay = unb64u(o["payload"].encode())
            sig = unb64u(o["signature"].encode())
            if sorted(o) != ["payload", "protected", "signature"]:
                raise ValueError("members %r" % sorted(o))
        except Exception as e:
            self.bad.append("bad jws %r: %r" % (e, body))
            return None
        prot.pop("crv", None)
        n = prot.get("nonce")
        if n not in self.given:
            self.bad.append("nonce %r was never given out" % n)
        elif n in self.used:
            self.bad.append("nonce %r is used again" % n)
        self.used.add(n)
        if prot.get("url") != self.base + p:
            self.bad.append("url %r for %r" % (prot.get("url"), p))
        if p == "/acct":
            k = self.newkey
            if set(prot) != {"alg", "nonce", "url", "jwk"} or prot["jwk"] != k.jwk:
                self.bad.append("protected header of a new account: %r" % prot)
        else:
            k = self.keys.get(prot.get("kid"))
            if set(prot) != {"alg", "nonce", "url", "kid"} or k is None:
                self.bad.append("protected header: %r" % prot)
                return None
        if prot.get("alg") != k.alg:
            self.bad.append("alg %r" % prot)
        self.toverify.append((k.pem, (o["protected"] + "." + o["payload"]).encode(), sig))
        sc = self.script.get(p)
        if not sc:
            self.bad.append("unexpected POST of %s" % p)
            return None
        a = sc.pop(0)
        self.posts.append((p, pay, a.get("kind", "ok"), hdrs))
        if a.get("kind") == "reset":
            return None
        if a.get("kind") == "badnonce":
            return self.reply(400, json.dumps({"type": PROBLEM + "badNonce", "detail": jtext(rng), "status": 400}).encode(), nonce=rng.random() < .7)
        return self.reply(a.get("st", 200), a.get("body", b""), a.get("hdrs", []), nonce=rng.random() < .8, fault=a.get("kind"))

STAT = ["invalid", "revoked", "deactivated", "expired", "pending", "ready", "processing", "valid"]

def shuffled(rng, o):
    it = list(o.items())
    rng.shuffle(it)
    return json.dumps(dict(it), indent=rng.choice([None, None, 1])).encode()

def acme_case(ctx, rng, i):
    if "srv" not in ctx.state:
        ctx.state["srv"] = Acme()
    srv = ctx.state["srv"]
    d = drv(ctx)
    with srv.lock:
        srv.ses = S = Session(srv, rng)
    log = []
    try:
        _acme(ctx, rng, d, S, log)
    finally:
        with srv.lock:
            srv.ses = None
    if i % 8 == 7:
        r = d.call("leak")
        ctx.check(r == [b"0"], "leak", lambda: "memory is lost: %s" % leaks(d))

def _acme(ctx, rng, d, S, log):
    if rng.random() < .3:
        S.dirfault = [rng.choice(["status", "url", "missing", "reset", "cut"]) for _ in range(rng.randint(1, 2))]
    r = d.call("open", (S.base + "/dir").encode())
    ctx.check(r == [b"OK"], "open", "%r" % r)
    slot = rng.randrange(4)
    d.call("key", slot, rng.choice("eed"))
    kid = None
    if rng.random() < .5:
        kid = S.base + "/a/" + str(rng.randrange(1000))
        S.keys[kid] = Key(ctx, d, slot)
        d.call("acct", slot, kid.encode())
    closed = False
    for step in range(rng.randint(1, 7)):
        S.nonce_in_answers = rng.random() < .8
        if S.noncefault == [] and rng.random() < .08:
            S.noncefault = [rng.choice(["status", "none", "reset"])]
        S.posts, S.reqs, S.waits = [], [], []
        kind = rng.choice("ogzcCfFV") if kid else "a"
        if kind == "a" and step:
            d.call("key", slot, rng.choice("ed"))
        # where it will be closed, if it is
        cm, ca = 0, 0
        if rng.random() < .12:
            cm = rng.choice([1, 2, 3, 4])
            ca = rng.choice([1, 1, 2, 3]) if cm == 2 else rng.choice([0, 1, 2, 5])
        dom = rng.choice(["example.com", "x.y.example.org", "a" * 60 + ".com", "*.example.com"])
        oid = "%d" % rng.randrange(100000)
        U = lambda x: S.base + x
        order = {"status": "pending", "identifiers": [{"type": "dns", "value": dom}], "authorizations": [U("/z/" + oid)], "finalize": U("/f/" + oid), "expires": "2026-12-0%dT00:00:00Z" % rng.randint(1, 9)}
        chall = lambda st: {"type": "dns-01", "status": st, "url": U("/c/" + oid), "token": tok}
        tok = "".join(rng.choice("abcXYZ-_019") for _ in range(rng.choice([22, 43, 50])))
        def authz(st, cst, err=None):
            cs = [{"type": "http-01", "status": "pending", "url": U("/c/no"), "token": "zzz"}, chall(cst), {"type": "tls-alpn-01", "status": rng.choice(STAT), "url": U("/c/no2"), "token": "q"}]
            if err:
                cs[1]["error"] = {"type": PROBLEM + "dns", "detail": jtext(rng), "subproblems": []}
            if rng.random() < .3:
                cs[1]["validated"] = "2026-11-01T00:00:00Z"
            cs = cs[rng.randrange(2):rng.choice([2, 3])]
            rng.shuffle(cs)
            return {"status": st, "identifier": {"type": "dns", "value": dom}, "challenges": cs, "expires": order["expires"], "wildcard": True}
        ra = lambda: rng.choice([None, None, 1, 2, 3, 60, 3600])
        def ans(st, obj, hdrs=(), wait=None):
            h = list(hdrs)
            if wait is not None:
                h.append((rng.choice(["Retry-After", "retry-after"]), str(wait)))
            return {"st": st, "body": shuffled(rng, obj) if isinstance(obj, dict) else obj, "hdrs": h, "wait": wait}
        waits = []      # timers which must be set, in order
        want, vals = None, None
        effect = None   # the path which may succeed at most once
        seq = []        # (path, answer)
        certtext = ("-----BEGIN CERTIFICATE-----\n" + "".join(rng.choice("abcd/+9\n") for _ in range(rng.choice([1, 100, 5000]))) + "\n-----END CERTIFICATE-----\n").encode()
        verdict = b"OK"
        x = rng.random()
        pem = b""
        if kind == "a":
            S.newkey = Key(ctx, d, slot)
            st = rng.choice(["valid"] * 6 + ["deactivated", "revoked"])
            nk = U("/a/" + oid)
            loc = rng.random() < .93
            seq = [("/acct", ans(rng.choice([200, 201]), {"status": st, "contact": ["mailto:x"], "orders": "u"}, [(rng.choice(["Location", "location"]), nk)] if loc else []))]
            if st != "valid" or not loc:
                verdict = b"RESPONSE"
            args = [b"me@example.com"]
            effect = "/acct"
            want, vals = [nk.encode()], [1]
        elif kind == "o":
            loc = rng.random() < .93
            if x < .1:
                order["status"] = rng.choice(["ready", "valid", "invalid"])
                verdict = b"RESPONSE"
            elif x < .2:
                order["identifiers"][0]["value"] = "other.example.com"
                verdict = b"RESPONSE"
            elif x < .25:
                del order[rng.choice(["finalize", "authorizations", "identifiers", "status"])]
                verdict = b"RESPONSE"
            if not loc:
                verdict = b"RESPONSE"
            seq = [("/order", ans(201, order, [("Location", U("/o/" + oid))] if loc else []))]
            args = [dom.encode()]
            effect = "/order"
            want, vals = [U("/o/" + oid).encode(), order.get("expires", "").encode(), U("/z/" + oid).encode(), U("/f/" + oid).encode()], []
        elif kind == "g":
            st = rng.choice(["pending", "ready", "processing", "valid", "invalid"])
            order["status"] = st
            if st == "valid" or rng.random() < .1:
                order["certificate"] = U("/cert/" + oid)
            if st == "invalid" and rng.random() < .8:
                order["error"] = {"type": PROBLEM + "caa", "detail": jtext(rng), "status": 403}
            if rng.random() < .3:
                del order["expires"]
            w = ra()
            seq = [("/o/" + oid, ans(200, order, wait=w))]
            args = [U("/o/" + oid).encode()]
            want = [dom.encode(), order.get("expires", "").encode(), U("/z/" + oid).encode(), U("/f/" + oid).encode(), order.get("certificate", "").encode()]
            vals = [STAT.index(st), ("time", w)]
        elif kind == "z":
            st, cst = rng.choice(["pending", "valid", "invalid", "deactivated", "expired", "revoked"]), rng.choice(["pending", "processing", "valid", "invalid"])
            w = ra()
            seq = [("/z/" + oid, ans(200, authz(st, cst, cst == "invalid"), wait=w))]
            args = [U("/z/" + oid).encode()]
            want = [dom.encode(), order["expires"].encode(), U("/c/" + oid).encode(), S.keys[kid].authz(tok.encode())]
            vals = [STAT.index(st), STAT.index(cst), ("time", w)]
        elif kind in "cC":
            if kind == "c":
                seq = [("/c/" + oid, ans(200, chall(rng.choice(["pending", "processing"])), wait=ra()))]
                args = [U("/z/" + oid).encode(), U("/c/" + oid).encode()]
                effect = "/c/" + oid
            else:
                w = ra()
                args = [U("/z/" + oid).encode(), str(int(time.time()) + w if w else 0).encode()]
                waits.append(w)
            for _ in range(rng.choice([0, 1, 2, 4])):
                w = ra()
                seq.append(("/z/" + oid, ans(200, authz("pending", rng.choice(["pending", "processing"])), wait=w)))
                waits.append(w)
            end = rng.choice(["valid"] * 4 + ["invalid", "deactivated"])
            seq.append(("/z/" + oid, ans(200, authz("valid" if end == "valid" else "invalid", end, end != "valid"), wait=ra())))
            if end != "valid":
                verdict = b"RESPONSE"
            want, vals = [], []
        else:
            if kind == "f":
                pem = open(os.path.join(vrun.ROOT, "data/keys/r2048_%d.pem" % rng.randrange(2)), "rb").read()
                args = [U("/o/" + oid).encode(), U("/f/" + oid).encode(), dom.encode(), pem]
                path = "/f/" + oid
                effect = path
            elif kind == "F":
                w = ra()
                args = [U("/o/" + oid).encode(), str(int(time.time()) + w if w else 0).encode()]
                waits.append(w)
                path = "/o/" + oid
            if kind != "V":
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    w = ra()
                    seq.append((path, ans(200, dict(order, status="processing"), wait=w)))
                    waits.append(w)
                    path = "/o/" + oid
                end = rng.choice(["valid"] * 5 + ["invalid", "ready", "nocert"])
                o = dict(order, status="valid" if end == "nocert" else end)
                if end == "valid":
                    o["certificate"] = U("/cert/" + oid)
                if end == "invalid" and rng.random() < .8:
                    o["error"] = {"type": PROBLEM + "caa", "detail": jtext(rng), "status": 403}
                seq.append((path, ans(200, o, wait=ra())))
                if end != "valid":
                    verdict = b"RESPONSE"
            else:
                args = [U("/cert/" + oid).encode()]
            if verdict == b"OK":
                if rng.random() < .06:
                    certtext = b""
                    verdict = b"RESPONSE"
                seq.append(("/cert/" + oid, ans(200, certtext)))
            want, vals = [certtext], []
        # damage one answer
        if rng.random() < .2:
            j = rng.randrange(len(seq))
            p, a = seq[j]
            f = rng.choice(["status", "garbage", "cut", "reset", "type", "odd"])
            a = dict(a)
            if f == "status":
                a["st"] = rng.choice([202, 204, 400, 403, 404, 429, 500, 503])
                if a["st"] == 204:
                    a["st"] = 205
                a["body"] = rng.choice([b"", b"no json", json.dumps({"type": PROBLEM + "unauthorized", "detail": jtext(rng)}).encode()])
                verdict = b"RESPONSE"
            elif f == "odd":
                # the error which means another nonce, but not with its status
                a["st"] = rng.choice([403, 500])
                a["body"] = json.dumps({"type": PROBLEM + "badNonce"}).encode()
                verdict = b"RESPONSE"
            elif f in ("garbage", "type"):
                if p.startswith("/cert/") or p.startswith("/c/"):
                    f = "status"
                    a["st"] = 500
                    verdict = b"RESPONSE"
                else:
                    a["body"] = rng.choice([b"", b"{", a["body"][:-2], b"[]", b'"x"', b"null", b"{}", b"\xff\xfe"])
                    verdict = None
            else:
                a["kind"] = f
                verdict = None
            seq = seq[:j] + [(p, a)]
            k = len([q for q, b in seq[:j] if not q.startswith("/c/") and not q.startswith("/cert/")])
            if kind in "CF":
                k += 1
            waits = waits[:k]
            ctx.count("damaged_answers")
        # some nonces are refused first
        full = []
        for p, a in seq:
            for _ in range(rng.choice([0, 0, 0, 0, 1, 2])):
                full.append((p, {"kind": "badnonce"}))
                ctx.count("bad_nonces")
            full.append((p, a))
        S.script = {}
        for p, a in full:
            S.script.setdefault(p, []).append(a)
        setup_fault = bool(S.dirfault) or bool(S.noncefault)
        was_dirfault = bool(S.dirfault)
        t0 = int(time.time()) - 1      # time() may lag behind by a tick
        r = d.call("act", kind, slot, cm, ca, *args)
        t1 = int(time.time())
        what = lambda: "%s of %r -> %r; the server saw %r and was to say %r; before: %r" % (kind, args[:3], r, S.reqs, [(p, {k: v for k, v in a.items() if k != "hdrs"}) for p, a in full], log[-3:])
        ctx.count("actions")
        ctx.count("action_" + {"a": "new_account", "o": "new_order", "g": "get_order", "z": "get_authz", "c": "challenge", "C": "challenge_finish", "f": "finalize", "F": "finalize_processing", "V": "finalize_valid"}[kind])
        log.append((kind, cm, ca, [x[:3] for x in S.posts], r[:6]))
        if not ctx.check(r[1] == b"DONE", "hangs", what):
            d.kill()
            return
        ctx.check(r[0] == b"LATER", "answered-before-it-returned", what)
        ncb, err, timers, orderx, isclosed = int(r[2]), r[3], [int(x) for x in r[4].split()], r[5], r[6] == b"1"
        nv = int(r[7])
        gv = [int(x) for x in r[8:8 + nv]]
        gs = r[8 + nv:]
        ctx.check(ncb == 1, "answers", what)
        # what a strict server has to say
        with_lock = list(S.bad)
        ctx.check(not with_lock, "protocol", lambda: "%r: %s" % (with_lock, what()))
        for pm, msg, sig in S.toverify:
            ctx.check(d.call("verify", pm, msg, sig)[0] == b"1", "signature-of-request", what)
            ctx.count("requests_verified")
        S.toverify = []
        # the payloads
        for p, pay, k_, hd in S.posts:
            if p == "/acct":
                good = json.loads(pay) == {"contact": ["mailto:me@example.com"], "termsOfServiceAgreed": True}
            elif p == "/order":
                good = json.loads(pay) == {"identifiers": [{"type": "dns", "value": dom}]}
            elif p.startswith("/c/"):
                good = json.loads(pay) == {}
            elif p.startswith("/f/"):
                o = json.loads(pay)
                c = d.call("csr", unb64u(o["csr"].encode()))
                t = c[2].decode("latin1")
                pub = os.popen("openssl pkey -pubout -in %s 2>/dev/null" % os.path.join(vrun.ROOT, "data/keys/r2048_0.pem")).read() if "pub0" not in ctx.state else ctx.state["pub0"]
                ctx.state["pub0"] = pub
                mine = (c[1].decode().split() == pub.split()) == (pem == open(os.path.join(vrun.ROOT, "data/keys/r2048_0.pem"), "rb").read())
                good = set(o) == {"csr"} and c[0] == b"1" and mine and re.search(r"Subject: CN\s*=\s*%s\n" % re.escape(dom), t) and re.findall(r"DNS:(\S+)", t) == [dom]
                if not good:
                    pay = pay + b" " + c[2]
                ctx.count("csrs")
            else:
                good = pay == b""
            if p.startswith("/cert/"):
                good = good and hd.get(b"accept") == [b"application/pem-certificate-chain"]
            ctx.check(good, "payload", lambda: "%r to %s: %s" % (pay, p, what()))
        if effect:
            done_ = [x for x in S.posts if x[0] == effect and x[2] == "ok"]
            ctx.check(len(done_) <= 1, "done-twice", what)
        if S.dirfault == [] and was_dirfault:
            ctx.count("directory_faults")
        if isclosed:
            closed = True
            ctx.check(orderx in (b"CX",), "close-order", what)
            ctx.check(err in (b"CANCELED", b"OK") or verdict != b"OK" or setup_fault, "close-verdict", what)
            if cm in (2, 4):
                ctx.check(err == b"CANCELED", "close-verdict", what)
            ctx.count("closed_" + ["before", "while_busy", "while_waiting", "in_the_callback", "at_once"][cm])
        ok = err == b"OK"
        if not isclosed or cm == 3:
            if setup_fault:
                ctx.check(not ok or not S.posts or S.posts[-1][:1] == (full[-1][0],), "fault-ignored", what)
                if was_dirfault:
                    ctx.check(not ok, "directory-fault-ignored", what)
            elif verdict is None:
                ctx.check(not ok, "damage-ignored", what)
            else:
                ctx.check(err == verdict, "verdict", lambda: "expected %s: %s" % (verdict.decode(), what()))
            if ok:
                ctx.check([x[0] for x in S.posts] == [p for p, a in full], "requests", what)
                ctx.check(gs == want, "outputs", lambda: "expected %r: %s" % (want, what()))
                for g, w in zip(gv, vals):
                    if isinstance(w, tuple):
                        w = w[1]
                        ctx.check(g == 0 if w is None else t0 + w <= g <= t1 + w, "retry-after", what)
                    else:
                        ctx.check(g == w, "outputs", lambda: "expected %r: %s" % (vals, what()))
                ctx.count("succeeded")
                if kind == "a":
                    kid = want[0].decode()
                    S.keys[kid] = Key(ctx, d, slot)
                    ctx.check(S.keys[kid].pem == S.newkey.pem, "account-key", what)
            if not setup_fault:
                exp = [w for w in waits if w]
                # a wait of a second may be over before it is begun
                j, good = 0, True
                for w in exp:
                    if j < len(timers) and (w - 2 - (t1 - t0)) * 1000 <= timers[j] <= (w + 1) * 1000 and timers[j] > 0:
                        j += 1
                    elif w <= 1 + (t1 - t0):
                        pass
                    else:
                        good = False
                ctx.check(good and j == len(timers), "waits", lambda: "waited %r when told %r: %s" % (timers, exp, what()))
                ctx.count("waits", len(timers))
        if not ok:
            ctx.check(all(x == b"" for x in gs), "outputs-of-a-failure", what)
            ctx.count("failed")
            if kind == "a":
                ctx.check(gv == [0], "outputs-of-a-failure", what)
        ctx.distinct(kind, repr(full), cm, ca)
        if closed:
            break
        if ok and rng.random() < .2:
            pass
    r = d.call("close")
    if not ctx.check(r[0] == b"DONE", "close-hangs", lambda: "%r" % log):
        d.kill()
        return
    ctx.check(r[1] == b"0", "handles-left", lambda: "%r after %r" % (r, log))
    ctx.count("sessions")
