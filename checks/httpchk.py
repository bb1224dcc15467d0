"""duv_http against a scripted server on the loopback network (C17)"""
import os, socket, ssl, struct, subprocess, threading, time
from util import *
from webchk import tok, VCH, METHODS

class Server:
    """answers request /r<idx> of the running case with the bytes its script holds"""
    def __init__(self, wdir):
        # key and certificate for localhost (trusted) and for another name
        self.ca = os.path.join(wdir, "ca.pem")
        k = os.path.join(wdir, "key.pem")
        self.names = {}            # listener -> (port, tls context)
        pems = b""
        for nm in ("localhost", "elsewhere.test"):
            c = os.path.join(wdir, nm + ".pem")
            subprocess.run(["openssl", "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes", "-keyout", k, "-out", c, "-days", "2", "-subj", "/CN=" + nm, "-addext", "subjectAltName=DNS:" + nm],
                           check=True, capture_output=True)
            pems += open(c, "rb").read()
            t = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            t.load_cert_chain(c, k)
            for q in range(2 if nm == "localhost" else 1):
                self.listen("tls%d" % q if nm == "localhost" else "stranger", t)
        open(self.ca, "wb").write(pems)
        self.listen("plain0", None)
        self.listen("plain1", None)
        self.port = self.names["plain0"][0]
        self.script = {}
        self.reqs = []
        self.nconn = 0
        self.lock = threading.Lock()
        self.epoch = 0
        self.nbase = 0
        self.socks = []
        for nm in self.names:
            threading.Thread(target=self.accept, args=(nm,), daemon=True).start()

    def listen(self, nm, tls):
        l = socket.socket()
        l.bind(("127.0.0.1", 0))
        l.listen(64)
        self.names[nm] = (l.getsockname()[1], tls, l)

    def base(self):
        self.nbase += 100
        return self.nbase

    def begin(self, script):
        with self.lock:
            self.epoch += 1
            self.script, self.reqs, self.nconn = script, [], 0
            for s in self.socks:
                try:
                    s.close()
                except OSError:
                    pass
            self.socks = []

    def accept(self, nm):
        while True:
            s, _ = self.names[nm][2].accept()
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with self.lock:
                self.nconn += 1
                n = self.nconn
                self.socks.append(s)
                ep = self.epoch
            threading.Thread(target=self.serve, args=(s, n, ep, nm), daemon=True).start()

    def send(self, s, plan):
        for piece, delay in plan:
            if piece is None:     # reset
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
                return False
            s.sendall(piece)
            if delay:
                time.sleep(delay)
        return True

    def serve(self, s, n, ep, nm):
        buf = b""
        try:
            tls = self.names[nm][1]
            if tls:
                s = tls.wrap_socket(s, server_side=True)
                with self.lock:
                    self.socks.append(s)
            while True:
                while b"\r\n\r\n" not in buf:
                    d = s.recv(65536)
                    if not d:
                        return
                    buf += d
                head, buf = buf.split(b"\r\n\r\n", 1)
                head += b"\r\n\r\n"
                idx = -1
                try:
                    idx = int(head.split(b" ")[1].split(b"?")[0][2:])
                except Exception:
                    pass
                need = 0
                for ln in head.split(b"\r\n")[1:]:
                    if ln.lower().startswith(b"content-length:"):
                        need = int(ln.split(b":")[1])
                sc = self.script.get(idx) if ep == self.epoch else None
                early = sc and sc["early"]
                rec = [n, idx, head, None, b"", nm]
                with self.lock:
                    if ep != self.epoch:
                        return
                    self.reqs.append(rec)
                if early:
                    if not self.send(s, sc["plan"]):
                        return
                while len(buf) < need:
                    d = s.recv(65536)
                    if not d:
                        return
                    buf += d
                body, buf = buf[:need], buf[need:]
                rec[3] = body
                rec[4] = buf if not early else b""
                if sc is None:
                    return
                if not early and not self.send(s, sc["plan"]):
                    return
                if sc["close"]:
                    if tls and not sc["rude"]:
                        s.settimeout(5)
                        s.unwrap()
                        return
                    s.shutdown(socket.SHUT_WR)
                    # let the other side finish, then go
                    s.settimeout(5)
                    while s.recv(65536):
                        pass
                    return
        except OSError:
            pass
        finally:
            try:
                s.close()
            except OSError:
                pass

def rvalue(rng, n=24):
    v = bytes(rng.choice(VCH + b" \t") for _ in range(rng.randint(1, n))).strip(b" \t")
    return v or b"v"

def case_(rng, s):
    return bytes(c ^ 32 if 65 <= (c & ~32) <= 90 and rng.random() < .3 else c for c in s)

def rhdrs(rng, k):
    return [(b"X-" + tok(rng), rvalue(rng)) for _ in range(rng.randint(0, k))]

def ows(rng):
    return rng.choice([b"", b" ", b" ", b" ", b"\t", b"  "])

def line(rng, k, v):
    return k + b":" + ows(rng) + v + rng.choice([b"", b"", b"", b" ", b"\t "]) + b"\r\n"

FORBIDDEN = [b"Transfer-Encoding", b"Content-Length", b"Host", b"Cache-Control", b"Range", b"TE", b"Age", b"Expires", b"Date",
             b"Location", b"Retry-After", b"Vary", b"Warning", b"Content-Encoding", b"Content-Type", b"Content-Range", b"Trailer"]

def rbody(rng):
    n = rng.choice([0, 1, 2, 5, 17, 100, 1000, 4096, 8192, 8193, 20000, 70000]) if rng.random() < .6 else rng.randint(0, 3000)
    r = rng.random()
    if r < .3:
        b = rng.randbytes(n)
    elif r < .6:
        b = (b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc0\r\n\r\n" * (n // 40 + 1))[:n]
    else:
        b = bytes(rng.choice(b"0\r\n5 ab") for _ in range(min(n, 5000)))
    return b

def chunked(rng, body, bad=None):
    """-> wire bytes; bad names the damage, put somewhere in the middle"""
    cuts = sorted(rng.randint(0, len(body)) for _ in range(rng.choice([0, 1, 2, 5, 20])))
    parts = [p for p in (body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])) if p]
    if bad and not parts:
        parts = [b"x"]
    out = b""
    at = rng.randrange(len(parts)) if parts else 0
    for k, p in enumerate(parts):
        h = b"%x" % len(p)
        if rng.random() < .3:
            h = h.upper()
        if rng.random() < .2:
            h = b"0" * rng.randint(1, 3) + h
        if rng.random() < .2:
            h += rng.choice([b";a", b";name=value", b";n=\"quo ted\"", b";a=b;c=\"d\\\"e\"", b";5=5"])
        if bad and k == at:
            if bad == "size":
                h = rng.choice([b"g", b"", b"-1", b"0x5", b"10000000000000000", b"fffffffffffffffff", b" 5 5"])
            if bad == "huge":
                # more than can follow: what follows must not pass for chunks
                h = rng.choice([b"f" * 16, b"F" * 15 + b"0", b"7" + b"f" * 15, b"8" + b"0" * 15, b"ffffffff", b"%x" % (2 ** 64 - rng.randint(1, 9000)), b"%x" % (2 ** 64 - len(out) - len(p))])
                return out + h + b"\r\n" + rng.choice([p, b""]) + rng.choice([b"0\r\n", b"\r\n0\r\n", b"\r\n0\r\n", b"\r\n1\r\nx\r\n0\r\n"])
            if bad == "longline":
                h += b";a=" + b"b" * 20000
        out += h + b"\r\n" + p
        if bad == "crlf" and k == at:
            out += rng.choice([b"", b"x\r\n", b"xx"])
            if len(out) and not out.endswith(b"\r\n"):
                pass
        else:
            out += b"\r\n"
    out += rng.choice([b"0", b"0", b"00", b"0;last"]) + b"\r\n"
    return out

def response(rng, idx, meth):
    """-> dict(plan-bytes, close, expectations)"""
    status = rng.choice([200, 200, 200, 201, 204, 304, 400, 404, 500, 503, 299, 599])
    reason = rng.choice([b"OK", b"", b"Not Found", b"oh no", b"x" * rng.randint(1, 300), b"a  b"])
    hs = rhdrs(rng, 6)
    if rng.random() < .05:
        hs.append((b"X-Long", bytes(rng.choice(b"abc") for _ in range(rng.choice([4000, 7000, 8000])))))
    body = rbody(rng)
    nobody = meth == b"HEAD" or status in (204, 304)
    kind = rng.choice(["cl", "cl", "chunked", "chunked", "close"])
    bad = None
    if rng.random() < .25:
        bad = rng.choice(["trunc_head", "trunc_body", "cl_mismatch", "cl_and_te", "te_and_cl", "te_gzip", "trailer",
                          "chunk_size", "chunk_huge", "chunk_crlf", "chunk_longline", "long_header", "bad_cl", "after_trailer", "bad_status",
                          "reset"])
        if bad in ("trailer", "chunk_size", "chunk_huge", "chunk_crlf", "chunk_longline", "after_trailer"):
            if nobody:
                bad = None
            else:
                kind = "chunked"
    close = False
    fr = []
    trailers = []
    if bad == "cl_mismatch":
        fr = [(b"Content-Length", b"%d" % len(body)), (b"Content-Length", b"%d" % (len(body) + 1))]
    elif bad in ("cl_and_te", "te_and_cl"):
        fr = [(b"Content-Length", b"%d" % len(body)), (b"Transfer-Encoding", b"chunked")]
        if bad == "te_and_cl":
            fr.reverse()
    elif bad == "te_gzip":
        fr = [(b"Transfer-Encoding", rng.choice([b"gzip", b"gzip, chunked", b"chunkedx", b"chunked, chunked"]))]
    elif bad == "bad_cl":
        fr = [(b"Content-Length", rng.choice([b"abc", b"-5", b"5x", b"99999999999999999999999", b"0x10", b"1 2"]))]
    elif kind == "cl":
        n = len(body)
        if nobody and rng.random() < .7:
            n = rng.choice([n, 99, 10**12])
        fr = [(case_(rng, b"Content-Length"), rng.choice([b"", b"", b"0", b"000"]) + b"%d" % n)]
        if rng.random() < .1:
            fr.append((b"Content-Length", fr[0][1]))
    elif kind == "chunked":
        fr = [(case_(rng, b"Transfer-Encoding"), rng.choice([b"chunked", b"chunked", b"Chunked"]))]
        if rng.random() < .1:
            fr = fr * 2
    elif nobody and rng.random() < .5:
        fr = []
    sayclose = False
    if kind == "close" and not nobody and bad not in ("cl_mismatch", "bad_cl", "cl_and_te", "te_and_cl", "te_gzip"):
        close = True
        sayclose = rng.random() < .5
    elif rng.random() < .15:
        close = sayclose = True
    if sayclose:
        fr.append((case_(rng, b"Connection"), rng.choice([b"close", b"Close", b"foo, close"])))
    hdrs = hs + fr
    rng.shuffle(hdrs) if bad not in ("cl_and_te", "te_and_cl") else None
    if bad == "long_header":
        hdrs.insert(rng.randint(0, len(hdrs)), (b"X-Huge", b"y" * rng.choice([8190, 9000, 30000])))
    head = b"HTTP/1.1 %03d %s\r\n" % (status, reason)
    if bad == "bad_status":
        head = rng.choice([b"HTTP/1.1 20x OK\r\n", b"HTTX/1.1 200 OK\r\n", b"hello\r\n", b"HTTP/1.1 20 OK\r\n", b"\r\n\r\n", b"HTTP/1.1  200 OK\r\n"])
    head += b"".join(line(rng, k, v) for k, v in hdrs) + b"\r\n"
    inter = b""
    ninter = 0
    if bad is None and rng.random() < .15:
        ninter = rng.choice([1, 1, 2])
        for _ in range(ninter):
            inter += b"HTTP/1.1 %d %s\r\n" % (rng.choice([100, 102, 103]), rng.choice([b"Continue", b"", b"Hint"]))
            inter += b"".join(line(rng, k, v) for k, v in rhdrs(rng, 3)) + b"\r\n"
    wire = b""
    if not nobody:
        if kind == "chunked" or bad in ("cl_and_te", "te_and_cl", "te_gzip"):
            if bad in ("chunk_size", "chunk_huge", "chunk_crlf", "chunk_longline") and not body:
                body = b"x"
            wire = chunked(rng, body, {"chunk_size": "size", "chunk_crlf": "crlf", "chunk_longline": "longline", "chunk_huge": "huge"}.get(bad))
            tl = []
            if rng.random() < .4:
                tl = rhdrs(rng, 3)
            if bad == "trailer":
                tl.insert(rng.randint(0, len(tl)), (case_(rng, rng.choice(FORBIDDEN)), b"5"))
            trailers = tl
            wire += b"".join(line(rng, k, v) for k, v in tl) + b"\r\n"
            if bad == "after_trailer":
                wire += b"extra"
        else:
            wire = body
    full = inter + head + wire
    reset = False
    if bad == "trunc_head":
        full = full[:rng.randint(0, len(inter + head) - 1)]
        close = True
    elif bad in ("trunc_body", "reset"):
        if nobody or kind == "close" or not len(wire):
            if bad == "trunc_body":
                bad = None
            else:
                full = full[:rng.randint(0, len(head) - 1)]
                close = True
        else:
            full = full[:len(full) - rng.randint(1, len(wire))]
            close = True
        reset = bad == "reset"
    ok = bad is None
    expbody = b"" if nobody else body
    final = [(k, v) for k, v in hdrs] + trailers
    # the reader cannot know that nothing follows a bad piece: damaged messages are followed by the end of the stream
    if not ok and rng.random() < .5:
        close = True
    if bad in ("chunk_size", "chunk_huge", "chunk_crlf", "te_gzip", "cl_and_te", "te_and_cl", "bad_status", "chunk_longline"):
        close = True
    return dict(full=full, close=close, ok=ok, bad=bad, status=status, reason=reason, hdrs=final, body=expbody, truebody=body,
                kind=kind, nobody=nobody, ninter=ninter, nextnew=close or not ok, reset=reset, headlen=len(inter + head))

def plan(rng, data, reset):
    pieces = []
    if len(data) > 30000:
        pieces = [data[i:i + 16384] for i in range(0, len(data), 16384)]
    else:
        pieces = [p for p in chunks(rng, data) if p]
        if len(pieces) > 60:
            pieces = pieces[:30] + [b"".join(pieces[30:])]
    out = [(p, rng.choice([0, 0, 0.0003, 0.001]) if len(pieces) < 40 else (0.0002 if rng.random() < .3 else 0)) for p in pieces]
    if reset:
        out.append((None, 0))
    return out

def hdrlist(b):
    out, p = [], 0
    while p < len(b):
        k, v = struct.unpack_from("<II", b, p)
        p += 8
        out.append((b[p:p + k], b[p + k:p + k + v]))
        p += k + v
    return out

LISTENER = {"alias": "plain0", "vouched": "tls0", "doubted": "tls0"}

def batch_case(ctx0, rng, i):
    ctx = Say(ctx0)
    if "srv" not in ctx0.state:
        ctx0.state["srv"] = Server(ctx0.wdir)
    srv = ctx0.state["srv"]
    d = ctx0.driver("drv_http", args=(srv.ca,))
    n = rng.choice([1, 2, 2, 3, 4, 6])
    reqs, script, args = [], {}, []
    b0 = srv.base()
    disturb = rng.random() < .25
    late = rng.random() < .15
    together = rng.randint(1, n)
    dests = ["plain0"] if rng.random() < .75 else rng.choice([["plain0", "plain1"], ["plain0", "tls0"], ["tls0"], ["tls0", "tls1"], ["alias", "plain0"], ["plain0", "plain1", "alias", "tls0", "tls1", "stranger"], ["tls0", "stranger"], ["tls0", "vouched"], ["vouched"], ["tls0", "doubted"], ["vouched", "doubted", "tls0"]])
    for k in range(n):
        dest = rng.choice(dests)
        # vouched, doubted: the first TLS server, which has to prove a name other than the URL's
        host = b"localhost" if dest not in ("plain0", "plain1", "vouched") else b"127.0.0.1"
        port = srv.names[LISTENER.get(dest, dest)][0]
        vname = {"vouched": b"localhost", "doubted": b"elsewhere.test"}.get(dest, b"")
        auth = b"%s:%d" % (host, port)
        meth = rng.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST", b"PUT", b"DELETE"])
        q = rng.choice([b"", b"", b"?q=1", b"?a=%20&b"])
        params = [(tok(rng), tok(rng)) for _ in range(rng.choice([0, 0, 1, 2]))]
        hdrs = [(b"Y-" + tok(rng), rvalue(rng)) for _ in range(rng.choice([0, 0, 1, 3]))]
        body = rbody(rng) if meth in (b"POST", b"PUT") else b""
        resp = response(rng, k, meth)
        rude = False
        if (dest[:3] == "tls" or dest == "vouched") and resp["ok"] and resp["kind"] == "close" and not resp["nobody"] and rng.random() < .4:
            # the end of the stream proves nothing without the end of the TLS session
            rude = True
            resp["ok"], resp["bad"], resp["nextnew"] = False, "tls_trunc", True
        if dest in ("stranger", "doubted"):
            resp["ok"], resp["bad"], resp["nextnew"] = False, "stranger", True
        script[b0 + k] = dict(rude=rude, plan=plan(rng, resp["full"], resp["reset"]), close=resp["close"], early=rng.random() < .1)
        url = b"http%s://%s/r%d%s" % (b"s" * (dest not in ("plain0", "plain1", "alias")), auth, b0 + k, q)
        if rng.random() < .3:
            # the head fills the write buffer to the byte, or nearly so
            n0 = len(b"%s /r%d%s HTTP/1.1\r\nHost: %s\r\n\r\nY-Fill: \r\n" % (meth, b0 + k, q, auth))
            n0 += sum(len(a) + len(b) + 4 for a, b in hdrs) + (sum(len(a) + len(b) + 2 for a, b in formed(params)))
            n0 += len(b"Content-Length: %d\r\n" % len(body)) if meth in (b"POST", b"PUT") else 0
            n0 += 0 if meth == b"HEAD" else len(b"TE: trailers\r\nConnection: TE\r\n")
            hdrs.append((b"Y-Fill", b"f" * (rng.choice([4096, 4096, 8192]) - n0 + rng.randint(-2, 2))))
            ctx.count("heads_filling_the_buffer")
        cr = ch = cl = cm = -1
        am = rng.choice([0, 1, 3, 10]) if late and rng.random() < .5 else -1
        if disturb and rng.random() < .4:
            t = rng.randrange(4)
            if t == 0:
                cr = rng.choice([0, 0, 1, 3])
            elif t == 1:
                ch = rng.choice([0, 1, 3])
            elif t == 2:
                cm = rng.choice([0, 1, 2, 5, 10])
            else:
                cl = rng.choice([0, 0, 1])
        sizes = rng.choice([[4096], [1], [7], [100, 1], [rng.randint(1, 300) for _ in range(3)], [16384], [65536]])
        if len(resp["truebody"]) > 3000 and max(sizes) < 100:
            sizes = [997]
        trig = k - 1 if k >= together else -1   # the others are queued at once
        args += [meth, url, vname, struct.pack("<%dI" % len(sizes), *sizes), rng.choice([1, 1, 2, 4]), cr, ch, cl, cm, am, trig, body, len(params), len(hdrs)]
        args += [x for p in params for x in p] + [x for p in hdrs for x in p]
        reqs.append(dict(meth=meth, q=q, params=params, hdrs=hdrs, body=body, resp=resp, cancel=(cr, ch, cm), close=cl, trig=trig, dest=dest, auth=auth))
    srv.begin(script)
    r = d.call("batch", 9000, n, *args)
    desc = lambda k: "request %d (%s) answered %s/%s status %d" % (k, reqs[k]["meth"].decode(), reqs[k]["resp"]["kind"], reqs[k]["resp"]["bad"], reqs[k]["resp"]["status"])
    if r[0] == b"HANG":
        ctx.violation("requests never finish: %d of %d awaited; %s; %s" % (int(r[2]), n, r[1].decode(), "; ".join(desc(k) for k in range(n))))
        d.kill()
        return
    ctx.count("batches")
    ctx.check(r[1] == b"", "stream contract: %s" % r[1].decode())
    ctx.check(r[2] == b"1", "duv_http_close had no callback")
    with srv.lock:
        seen = [[c, x - b0] + r for c, x, *r in srv.reqs if b0 <= x < b0 + n]
        nconn = srv.nconn
    byidx = {}
    for (c, idx, head, body, rest, nm) in seen:
        ctx.check(idx not in byidx, "request sent twice: %r" % head[:80])
        byidx[idx] = (c, head, body)
        want = reqs[idx]["dest"]
        ctx.check(nm == LISTENER.get(want, want), "a request for %s was sent to %s" % (want, nm))
        ctx.check(want != "doubted", "a request was sent to a server which did not prove the wanted name")
        ctx.count("sent_to_" + nm)
        ctx.check(rest == b"" , "bytes after the request: %r" % rest[:50])
    anycancel = any(q["cancel"] != (-1, -1, -1) or q["close"] >= 0 for q in reqs)
    closed = False
    order = [x[1] for x in seen]
    prevconn = None
    tainted = False
    for k, q in enumerate(reqs):
        et, msg, st, reason, hd, out, nrcb, nawait = r[3 + 8 * k:11 + 8 * k]
        resp = q["resp"]
        sees = byidx.get(k)
        ctx.check(nawait == b"1", "%s awaited %s times" % (desc(k), nawait.decode()))
        ctx.distinct(resp["full"], len(script[b0 + k]["plan"]))
        if sees:
            c, head, body = sees
            tgt = b"/r%d" % (b0 + k) + q["q"]
            if q["params"]:
                tgt += (b"&" if q["q"] else b"?") + b"&".join(a + b"=" + b for a, b in formed(q["params"]))
            exp = [q["meth"] + b" " + tgt + b" HTTP/1.1", b"Host: " + q["auth"]]
            got = head[:-4].split(b"\r\n")
            ctx.check(got[:2] == exp, "request line and host %r instead of %r" % (got[:2], exp))
            rest = got[2:]
            want = [a + b": " + b for a, b in q["hdrs"]]
            auto = [x for x in rest if x not in want]
            ctx.check([x for x in rest if x in want] == want, "headers of the request %r instead of %r" % (rest, want))
            wa = ([b"Content-Length: %d" % len(q["body"])] if q["meth"] in (b"POST", b"PUT") else []) + ([b"TE: trailers", b"Connection: TE"] if q["meth"] != b"HEAD" else [])
            ctx.check(sorted(auto) == sorted(wa), "automatic headers %r instead of %r" % (auto, wa))
            ctx.check(body is None or body == q["body"], "body of the request differs (%d bytes instead of %d)" % (len(body or b""), len(q["body"])))
            ctx.count("requests_served")
        cancelled = q["cancel"] != (-1, -1, -1)
        if closed or cancelled or anycancel and et == b"CANCELED" or anycancel and any(x["close"] >= 0 for x in reqs):
            # what has been delivered must still be a prefix of the truth
            ctx.check(resp["truebody"].startswith(out) or resp["bad"] == "chunk_huge", "%s: delivered %r before it was canceled" % (desc(k), out[:60]))
            if et == b"OK":
                if ctx.check(resp["ok"], "%s accepted" % desc(k)):
                    ctx.check(out == resp["body"], "%s: body of %d bytes instead of %d" % (desc(k), len(out), len(resp["body"])))
            else:
                ctx.count("canceled")
            prevconn = None
            continue
        if tainted:
            # whatever followed the complete response may have spoiled this one
            tainted, prevconn = False, None
            continue
        if resp["bad"] == "after_trailer" and et == b"OK":
            ctx.check(out == resp["body"], "%s: body of %d bytes instead of %d" % (desc(k), len(out), len(resp["body"])))
            tainted = True
            continue
        if resp["ok"]:
            if et != b"OK":
                ctx.violation("%s failed: %s %s" % (desc(k), et.decode(), msg.decode("latin1")[:200]))
                prevconn = None
                continue
            ctx.check(int(st) == resp["status"], "%s: status %s" % (desc(k), st.decode()))
            ctx.check(reason == resp["reason"][:255], "%s: reason %r instead of %r" % (desc(k), reason, resp["reason"]))
            gh = hdrlist(hd)
            ctx.check(gh == resp["hdrs"], "%s: headers %r instead of %r" % (desc(k), gh, resp["hdrs"]))
            ctx.check(out == resp["body"], "%s: body of %d bytes (%r) instead of %d" % (desc(k), len(out), out[:40], len(resp["body"])))
            ctx.check(sees is not None, "%s: answered without having been sent" % desc(k))
            ctx.count("responses_compared")
            ctx.count("kind_" + resp["kind"])
            if resp["ninter"]:
                ctx.count("interim_responses", resp["ninter"])
        else:
            if et == b"OK":
                ctx.violation("%s was accepted with body %r" % (desc(k), out[:60]))
            ctx.check((resp["truebody"] + b"x").startswith(out) or resp["bad"] in ("chunk_size", "chunk_huge", "chunk_crlf", "after_trailer"),
                      "%s: delivered %r" % (desc(k), out[:60]))
            ctx.count("bad_responses")
            ctx.count("bad_" + str(resp["bad"]))
        if sees:
            if prevconn is not None and prevconn[0] == k - 1:
                if reqs[k - 1]["dest"] != q["dest"]:
                    ctx.check(sees[0] != prevconn[1], "%s: sent to %s on the connection to %s" % (desc(k), q["dest"], reqs[k - 1]["dest"]))
                    ctx.count("destinations_changed")
                elif prevconn[2]:
                    ctx.check(sees[0] != prevconn[1], "%s: sent on the connection that was to be closed after %s" % (desc(k), desc(k - 1)))
                elif LISTENER.get(q["dest"], q["dest"]).startswith("plain"):
                    ctx.check(sees[0] == prevconn[1], "%s: the persistent connection was not used after %s" % (desc(k), desc(k - 1)))
                    ctx.count("connections_reused")
                else:
                    # a listed finding; a repair has to heed the name the certificate was checked for
                    ctx.count("tls_connections_due_for_reuse")
                    if sees[0] != prevconn[1]:
                        ctx.c.violation("tls-connection-not-reused", "%s: the persistent TLS connection was not used after %s" % (desc(k), desc(k - 1)))
            prevconn = (k, sees[0], resp["nextnew"])
        else:
            prevconn = None

def formed(ps):
    from webchk import form
    return [(form(a), form(b)) for a, b in ps]
