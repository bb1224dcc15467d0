"""server/dns: the responder (C26) and the rate limiter (C27)"""
import struct
from util import *

A, NS, SOA, TXT, AAAA, CAA, EDNS = 1, 2, 6, 16, 28, 257, 41
ZONE = [b"user", b"splintermail", b"com"]
MAXUDP = 1280

# ------------------------------------------------------------- wire format
class Bad(Exception):
    pass

def rd_name(b, off):
    """independent name reader: labels, next offset"""
    labels, nxt, hops, total = [], None, 0, 0
    while True:
        if off >= len(b):
            raise Bad("name overrun")
        l = b[off]
        if l & 0xC0 == 0xC0:
            if off + 1 >= len(b):
                raise Bad("ptr overrun")
            if nxt is None:
                nxt = off + 2
            off = (l & 0x3f) << 8 | b[off + 1]
            hops += 1
            if hops > 300:
                raise Bad("loop")
            continue
        if l & 0xC0:
            raise Bad("label type")
        off += 1
        if l == 0:
            return labels, (nxt if nxt is not None else off)
        if off + l > len(b):
            raise Bad("label overrun")
        total += l + 1
        if total > 255:
            raise Bad("long name")
        labels.append(b[off:off + l])
        off += l

def rd_rrs(b, off, n):
    out = []
    for _ in range(n):
        name, off = rd_name(b, off)
        if off + 10 > len(b):
            raise Bad("rr overrun")
        t, c, ttl, ln = struct.unpack(">HHIH", b[off:off + 10])
        off += 10
        if off + ln > len(b):
            raise Bad("rdata overrun")
        out.append((name, t, c, ttl, b[off:off + ln], off))
        off += ln
    return out, off

def rd_resp(b):
    if len(b) < 12:
        raise Bad("short")
    i, f, qd, an, ns, ar = struct.unpack(">HHHHHH", b[:12])
    off, qs = 12, []
    for _ in range(qd):
        n, off = rd_name(b, off)
        if off + 4 > len(b):
            raise Bad("question overrun")
        qs.append((n,) + struct.unpack(">HH", b[off:off + 4]))
        off += 4
    an, off = rd_rrs(b, off, an)
    ns, off = rd_rrs(b, off, ns)
    ar, off = rd_rrs(b, off, ar)
    if off != len(b):
        raise Bad("trailing bytes")
    return {"id": i, "flags": f, "q": qs, "an": an, "ns": ns, "ar": ar}

def wr_name(labels):
    return b"".join(bytes([len(l)]) + l for l in labels) + b"\0"

# --------------------------------------------------------------- generators
def flipcase(rng, l):
    return bytes(c ^ 0x20 if (65 <= c <= 90 or 97 <= c <= 122) and rng.random() < .5 else c for c in l)

def gen_label(rng):
    r = rng.random()
    if r < .5:
        return rng.choice([b"x", b"alice", b"bob-0", b"a.b", b"_acme-challenge", b"user", b"com", b"*", b"\0", b"\xff\x00"])
    return bytes(rng.choice(b"abcXYZ019-_") for _ in range(rng.choice([1, 2, 10, 62, 63])))

def gen_name(rng):
    r = rng.random()
    if r < .1:
        z = []
    elif r < .16:
        z = list(rng.choice([[b"splintermail", b"com"], [b"com"], [b"user", b"splintermail"], [b"usr", b"splintermail", b"com"], [b"user", b"splintermail", b"org"], [b"user", b"splintermai", b"com"], [b"user", b"xsplintermail", b"com"], [b"userx", b"splintermail", b"com"]]))
    else:
        z = list(ZONE)
    pre = []
    r = rng.random()
    if r < .15:
        pass
    elif r < .4:
        pre = [gen_label(rng)]
    elif r < .75:
        pre = [b"_acme-challenge", gen_label(rng)]
    elif r < .85:
        pre = [gen_label(rng), gen_label(rng)]
    else:
        pre = [gen_label(rng) for _ in range(rng.randint(1, 12))]
    if rng.random() < .05:
        pre = [rng.choice([b"_acme-challeng", b"_acme-challengee", b"acme-challenge"])] + pre[1:]
    n = [flipcase(rng, l) if rng.random() < .5 else l for l in pre + z]
    while sum(len(l) + 1 for l in n) + 1 > 255:
        n = n[1:]
    return n

def gen_opts(rng):
    out = b""
    for _ in range(rng.choice([0, 0, 0, 1, 2, 5])):
        d = rng.randbytes(rng.choice([0, 1, 8, 24]))
        out += struct.pack(">HH", rng.choice([3, 10, 12, 65001]), len(d)) + d
    return out

def gen_query(rng):
    """bytes, description (None when no reply may be sent)"""
    name = gen_name(rng)
    qtype = rng.choice([A, NS, SOA, TXT, TXT, TXT, AAAA, CAA, 5, 12, 15, 16, 17, 27, 29, 33, 41, 65, 252, 255, 256, 258, 0, 65535])
    if rng.random() < .4 and len(name) >= 5:
        qtype = TXT
    qclass = 1 if rng.random() < .92 else rng.choice([0, 2, 3, 4, 255, 257])
    qid = rng.randrange(65536)
    qr = int(rng.random() < .04)
    op = 0 if rng.random() < .95 else rng.randrange(1, 16)
    flags = qr << 15 | op << 11 | rng.randrange(16) << 7 & 0x7ff | rng.choice([0, 0x100]) | rng.choice([0, 0, 0x10, 0x20, 0x40, 5])
    qd = 1
    r = rng.random()
    body = b""
    if r < .03:
        qd = 0
        body = struct.pack(">HH", qtype, qclass)
    elif r < .06:
        qd = 2
        body = wr_name(name) + wr_name(name) + struct.pack(">HH", qtype, qclass)
    elif r < .16 and name:
        # a name with a compression pointer (forwards) into the question's tail or additional data
        k = rng.randrange(len(name))
        body = b"".join(bytes([len(l)]) + l for l in name[:k]) + b"\xc0PP"[:1] + b"P" + struct.pack(">HH", qtype, qclass)
        ptr_to = 12 + len(body)
        tail = wr_name(name[k:])
        body = body.replace(b"\xc0P", b"\xc0" + bytes([ptr_to & 255]), 1) if ptr_to < 256 else None
        if body is None:
            body = wr_name(name) + struct.pack(">HH", qtype, qclass)
        else:
            # carry the target inside an additional record's owner name
            ar = tail + struct.pack(">HHIH", 1, 1, 0, 4) + b"abcd"
            hdr = struct.pack(">HHHHHH", qid, flags, 1, 0, 0, 1)
            return hdr + body + ar, (qid, flags, 1, name, qtype, qclass, None)
    else:
        body = wr_name(name) + struct.pack(">HH", qtype, qclass)
    an, ns, ar = [], [], []
    def rr(t=None):
        nm = rng.choice([b"\0", wr_name([gen_label(rng)]), b"\xc0\x0c"]) if qd == 1 else b"\0"
        return nm + struct.pack(">HHIH", t or rng.choice([1, 5, 16, 99]), rng.choice([1, 255]), rng.randrange(2**32), 0)
    def with_data(h, d):
        return h[:-2] + struct.pack(">H", len(d)) + d
    for sec in (an, ns, ar):
        if rng.random() < .12:
            for _ in range(rng.randint(1, 3)):
                sec.append(with_data(rr(), rng.choice([b"", rng.randbytes(rng.randint(1, 40)), b"\x3f" * 5, b"\xff" * 30, wr_name([b"evil"]) + struct.pack(">HHIH", 41, 4096, 0, 0)])))
    edns = None
    if rng.random() < .5:
        edns = rng.choice([0, 1, 511, 512, 513, 600, 1232, 1280, 1281, 4096, 65535])
        ar.insert(rng.randint(0, len(ar)), with_data(b"\0" + struct.pack(">HHIH", EDNS, edns, rng.choice([0, 0x8000, 0, 0x00018000]), 0), gen_opts(rng)))
    hdr = struct.pack(">HHHHHH", qid, flags, qd, len(an), len(ns), len(ar))
    return hdr + body + b"".join(an + ns + ar), (qid, flags, qd, name, qtype, qclass, edns)

def lower(l):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in l)

def expected(desc, mode, secret):
    """(rcode, aa, answers, soa) or None; answers as (type, rdata, owner)"""
    qid, flags, qd, name, qtype, qclass, edns = desc
    if flags & 0x8000 or flags >> 11 & 15 or qd != 1 or qclass != 1 or qtype == 0:
        return None
    low = [lower(l) for l in name]
    if low[-3:] != ZONE:
        return None
    if qtype not in (AAAA, CAA) and qtype > 16:
        return (4, 0, [], False)
    caa = (CAA, b"\x80\x05issueletsencrypt.org")
    rest = low[:-3]
    soa = (SOA, None)
    table = {}
    if len(rest) == 0:
        table = {SOA: [soa], NS: [(NS, [b"ns1", b"splintermail", b"com"]), (NS, [b"ns2", b"splintermail", b"com"])], CAA: [caa]}
    elif len(rest) == 1:
        table = {A: [(A, b"\x7f\0\0\1")], AAAA: [(AAAA, b"\0" * 15 + b"\1")], CAA: [caa]}
    elif len(rest) == 2 and rest[0] == b"_acme-challenge":
        if qtype == TXT:
            if mode == "U":
                return (2, 1, [], False)
            if mode == "Y":
                table = {TXT: [(TXT, bytes([len(secret)]) + secret)]}
    else:
        return (3, 1, [], True)
    ans = table.get(qtype)
    if ans is None:
        return (0, 1, [], True)
    return (0, 1, ans, False)

def judge(ctx, q, desc, mode, secret, resp, rcap=MAXUDP):
    """secret: one allowed value (or a list of them)"""
    name, qtype = desc[3], desc[4]
    secrets = secret if isinstance(secret, list) else [secret]
    exp = expected(desc, mode, secrets[0])
    info = lambda: "query %s name=%r type=%d flags=%04x edns=%r mode=%s reply=%s" % (q.hex(), name, qtype, desc[1], desc[6], mode, resp.hex())
    if exp is None:
        ctx.count("silent")
        ctx.check(resp == b"", "unwanted-reply", info)
        return
    if not ctx.check(resp != b"", "no-reply", info):
        return
    ctx.count("replies")
    try:
        r = rd_resp(resp)
    except Bad as e:
        ctx.violation("malformed-reply", "%s: %s" % (e, info()))
        return
    edns = desc[6]
    limit = min(rcap, max(512, edns)) if edns is not None else 512
    ctx.check(len(resp) <= limit, "too-big", lambda: "%d > %d: %s" % (len(resp), limit, info()))
    ctx.check(r["id"] == desc[0], "id", info)
    ctx.check(r["q"] == [(name, qtype, 1)], "question", info)
    f = r["flags"]
    ctx.check(f >> 15 == 1 and f >> 11 & 15 == 0 and f & 0x00f0 == 0 and (f >> 8 & 1) == (desc[1] >> 8 & 1), "flags", info)
    rcode, aa, ans, soa = exp
    ctx.check(f & 15 == rcode, "rcode", lambda: "rcode %d, expected %d: %s" % (f & 15, rcode, info()))
    ctx.check((f >> 10 & 1) == aa, "aa", info)
    ctx.check(f >> 9 & 1 == 0, "tc", info)
    ctx.count("rcode%d" % rcode)
    # answers
    got = []
    for (owner, t, c, ttl, rd, off) in r["an"]:
        ctx.check([lower(l) for l in owner] == [lower(l) for l in name], "owner", info)
        ctx.check(c == 1 and ttl <= 86400, "class-ttl", info)
        got.append((t, rd, off))
    ctx.check([g[0] for g in got] == [a[0] for a in ans], "answer-types", lambda: "%r expected %r: %s" % (got, ans, info()))
    for (t, rd, off), (et, erd) in zip(got, ans):
        if et == SOA:
            check_soa(ctx, resp, rd, off, info)
        elif et == NS:
            try:
                n, _ = rd_name(resp, off)
            except Bad:
                n = None
            ctx.check(n == erd and rd_name(rd + b"", 0)[1] == len(rd), "ns", info)
        elif et == TXT:
            ctx.check(rd in [bytes([len(s)]) + s for s in secrets], "txt", info)
            ctx.count("txt_answers")
        else:
            ctx.check(rd == erd, "rdata", info)
    ctx.check(len(r["ns"]) == (1 if soa else 0), "authority", info)
    for (owner, t, c, ttl, rd, off) in r["ns"]:
        ctx.check([lower(l) for l in owner] == ZONE and t == SOA and c == 1, "authority-soa", info)
        check_soa(ctx, resp, rd, off, info)
    ctx.check(len(r["ar"]) == (1 if edns is not None else 0), "edns-echo", info)
    for (owner, t, c, ttl, rd, off) in r["ar"]:
        ctx.check(owner == [] and t == EDNS and c >= 512 and rd == b"" and ttl >> 16 == 0, "edns-record", info)

def check_soa(ctx, resp, rd, off, info):
    try:
        m, o = rd_name(resp, off)
        h, o = rd_name(resp, o)
        ctx.check(o + 20 == off + len(rd) and m == [b"ns1", b"splintermail", b"com"] and len(h) >= 3, "soa", info)
    except Bad:
        ctx.violation("soa", info())

# --------------------------------------------------------------------- C26
def pkt_case(ctx, rng, i):
    d = ctx.driver("drv_dns", ["0"])
    for _ in range(25):
        q, desc = gen_query(rng)
        mode = rng.choice("YYNU")
        secret = bytes(rng.choice(b"abcDEF-_09") for _ in range(rng.choice([0, 1, 43, 43, 200, 255])))
        if rng.random() < .2:
            secret = rng.randbytes(rng.randint(1, 255))
        rcap = rng.choice([512, 512, 600, 1280, 4096])
        resp, called, asked, *rest = d.call("pkt", q, rcap, mode, secret)
        ctx.count("well_formed_queries")
        ctx.distinct(tuple(desc[1:]), mode)
        judge(ctx, q, desc, mode, secret, resp, rcap)
        low = [lower(l) for l in desc[3]]
        if called == b"1":
            ctx.check(lower(asked) == low[-4], "asked-user", lambda: "%r for %r" % (asked, desc[3]))
            ctx.count("lookups")
        if rest[0] == b"1" and desc[6] is not None:
            ctx.check(rest[1] == b"1" and int(rest[2]) == desc[6], "edns-parse", lambda: "%s: edns %r read as %r" % (q.hex(), desc[6], rest))
        if rest[0] == b"1" and desc[6] is None:
            ctx.check(rest[1] == b"0", "edns-invented", lambda: "%s read as edns %r" % (q.hex(), rest))
        # damage
        m = bytearray(q)
        for _ in range(rng.choice([1, 1, 2, 5])):
            r = rng.random()
            if r < .5 and m:
                m[rng.randrange(len(m))] = rng.choice([0, 1, 0x3f, 0x40, 0x80, 0xc0, 0xff, rng.randrange(256)])
            elif r < .8:
                del m[rng.randrange(len(m) + 1):]
            elif m:
                p = rng.randrange(len(m))
                m[p:p] = rng.choice([b"\xc0\x0c", b"\xc0" + bytes([rng.randrange(256)]), rng.randbytes(4)])
            if not m:
                break
        m = bytes(m)
        resp, *rest = d.call("pkt", m, rcap, mode, secret)
        ctx.count("damaged_queries")
        ctx.check(resp != b"OVER", "overlong", lambda: m.hex())
        ok = True
        try:
            r = rd_resp(m) if len(m) >= 12 else None
            if r is None:
                raise Bad("short")
        except Bad as e:
            if str(e) != "trailing bytes":
                ok = False
        if not ok and m[4:6] == b"\0\1":
            ctx.count("malformed_queries")
            ctx.check(resp == b"", "reply-to-garbage", lambda: "%s -> %s" % (m.hex(), resp.hex()))
        if resp:
            try:
                r = rd_resp(resp)
                ctx.check(r["id"] == struct.unpack(">H", m[:2])[0] and r["flags"] & 0x8000, "reply-id", lambda: m.hex())
                ctx.check(len(r["q"]) == 1 and [lower(l) for l in r["q"][0][0]][-3:] == ZONE, "reply-outside-zone", lambda: "%s -> %s" % (m.hex(), resp.hex()))
            except Bad as e:
                ctx.violation("malformed-reply", "%s: %s -> %s" % (e, m.hex(), resp.hex()))
        # a small reply buffer
        if rng.random() < .1:
            cap = rng.choice([0, 1, 12, 100, 511])
            resp, *rest = d.call("pkt", q, cap, mode, secret)
            ctx.check(resp != b"OVER" and len(resp) <= cap, "small-cap", lambda: q.hex())

# the whole server with several sync peers, on a virtual clock
SEC = 10**9

class Peer:
    def __init__(self, rng, idx):
        self.rng, self.ip, self.port = rng, bytes([10, 0, 0, idx + 1]), 4000 + idx
        self.sync = rng.randrange(1, 2**32)
        self.up = 0
        self.stage = 0        # 0 not synced, 1 started, 2 flushed
        self.kv, self.upid = {}, {}
        self.expiry = 0
        self.delayed = []

def upd(p, typ, exp=0, key=b"", val=b"", delete_id=0, resync=0):
    b = struct.pack(">QIIB", exp, p.sync, p.up, typ)
    if typ == 2:
        b += struct.pack(">I", resync)
    if typ in (3, 4):
        b += bytes([len(key)]) + key
    if typ == 4:
        b += struct.pack(">I", delete_id)
    if typ == 3:
        b += bytes([len(val)]) + val
    return b

def server_case(ctx, rng, i):
    for k in list(ctx.drv):
        ctx.drv.pop(k).close()
    np_ = rng.randint(1, 4)
    d = ctx.driver("drv_dns", ["0"] + [str(4000 + j) for j in range(np_)])
    peers = [Peer(rng, j) for j in range(np_)]
    now = 10**6 * SEC + rng.randrange(10**9)
    d.call("now", now)
    outstanding = 0
    users = [b"alice", b"bob", b"carol-7", b"d" * 63]
    trace = []

    def recv(kind, ip, port, data):
        r = d.call("recv", kind, ip, port, data)
        return r

    def send_update(p, data):
        nonlocal outstanding
        r = recv("sync", p.ip, p.port, data)
        if r[0] != b"ok" or len(r) == 1:
            return None
        outstanding += 1
        ctx.check(r[2:] == [b"sync", p.ip, str(p.port).encode()], "ack-address", repr(r))
        if not ctx.check(len(r[1]) == 8, "ack-size", repr(r)):
            return None
        return struct.unpack(">II", r[1])

    def drain(nleft=0):
        nonlocal outstanding
        while outstanding > nleft:
            st = rng.choice([0, 0, 0, 0, -89, -126, -125])   # EDESTADDRREQ, ENOKEY, ECANCELED
            d.call("done", rng.randrange(outstanding), st)
            outstanding -= 1

    def check_state():
        free, sends, rx, closing, total = map(int, d.call("state"))
        ctx.check(free + sends == total, "buffer-leak", "free=%d in flight=%d of %d after %r" % (free, sends, total, trace[-5:]))
        ctx.check(not closing, "server-closed", "the server closed itself after %r" % trace[-5:])
        ctx.check(bool(rx) == (free > 0) or (rx and free), "recv-state", "receiving=%d with %d free buffers" % (rx, free))

    steps = rng.randint(30, 120)
    for s in range(steps):
        r = rng.random()
        p = rng.choice(peers)
        if r < .15:
            now += rng.choice([1, 10**6, SEC, 3 * SEC, 10 * SEC, 20 * SEC])
            d.call("now", now)
        elif r < .5:
            exp = 0
            if p.stage == 0:
                p.up = 1
                a = send_update(p, upd(p, 0))
                if a is not None:
                    ctx.check(a[1] == 0, "resync-ack", "unsynced server acked %r" % (a,))
                    rid = a[0]
                    b = send_update(p, upd(p, 2, resync=rid))
                    if ctx.check(b == (p.sync, 1) or b is None, "start-ack", repr(b)) and b:
                        p.stage = 1
                        ctx.count("syncs_started")
            elif p.stage == 1 and rng.random() < .3:
                p.up += 1
                exp = now + 15 * SEC
                b = send_update(p, upd(p, 1, exp))
                if b:
                    p.stage, p.expiry = 2, exp
                    ctx.count("syncs_completed")
            else:
                u = rng.choice(users)
                p.up += 1
                exp = now + 15 * SEC if p.stage == 2 and rng.random() < .5 else 0
                if u in p.kv and rng.random() < .6:
                    b = send_update(p, upd(p, 4, exp, u, delete_id=p.upid[u]))
                    if b:
                        p.kv.pop(u)
                        ctx.count("deletes")
                elif u not in p.kv:
                    v = rng.choice([b"secretvalue-%d" % rng.randrange(10**6), rng.randbytes(43), b"z" * 255])
                    b = send_update(p, upd(p, 3, exp, u, v))
                    if b:
                        p.kv[u], p.upid[u] = v, p.up
                        ctx.count("inserts")
                else:
                    b = send_update(p, upd(p, 0, exp))
                if b and exp:
                    p.expiry = max(p.expiry, exp)
                if b:
                    ctx.check(b == (p.sync, p.up), "ack", "%r for %r" % (b, (p.sync, p.up)))
            trace.append(("upd", p.ip[3], p.stage, p.up))
        elif r < .56:
            # packets from strangers and nonsense change nothing
            what = rng.random()
            if what < .5:
                rr = recv("sync", bytes([10, 9, 9, 9]), rng.choice([4000, 4001]), upd(p, rng.choice([0, 1, 3]), now + 15 * SEC, rng.choice(users), b"evil"))
                ctx.check(len(rr) == 1, "stranger-acked", repr(rr))
            else:
                junk = rng.randbytes(rng.randint(0, 60)) if rng.random() < .5 else upd(p, rng.choice([5, 9, 255]), now)
                if len(junk) >= 17 and junk[16] <= 4:
                    junk = junk[:16]
                rr = recv("sync", p.ip, p.port, junk)
                ctx.check(len(rr) == 1, "junk-acked", "%s %r" % (junk.hex(), rr))
            ctx.count("foreign_packets")
        elif r < .6:
            d.call("eagain", rng.choice(["dns", "sync"]))
        elif r < .9:
            if rng.random() < .75:
                name = [b"_acme-challenge", flipcase(rng, rng.choice(users))] + ZONE
                qid = rng.randrange(65536)
                q = struct.pack(">HHHHHH", qid, 0x100, 1, 0, 0, 0) + wr_name(name) + struct.pack(">HH", TXT, 1)
                desc = (qid, 0x100, 1, name, TXT, 1, None)
            else:
                q, desc = gen_query(rng)
            src = rng.choice([bytes([192, 168, rng.randrange(256), rng.randrange(256)]), rng.randbytes(16)])
            port = rng.randrange(1, 65536)
            rr = recv("dns", src, port, q)
            if rr[0] != b"ok":
                ctx.count("buffers_exhausted")
                drain()
                check_state()
                continue
            low = [lower(l) for l in desc[3]]
            mode, vals = "U", [b""]
            if len(low) == 5:
                u = low[1]
                vals = [x.kv[u] for x in peers if x.stage == 2 and u in x.kv]
                if vals:
                    mode = "Y"
                elif any(x.stage == 2 and now < x.expiry for x in peers):
                    mode, vals = "N", [b""]
                else:
                    vals = [b""]
            judge(ctx, q, desc, mode, vals, rr[1] if len(rr) > 1 else b"")
            if len(rr) > 1:
                outstanding += 1
                ctx.check(rr[2:] == [b"dns", src, str(port).encode()], "reply-address", repr(rr[2:]))
                ctx.count("mode_" + mode)
            ctx.distinct(tuple(low), desc[4], mode, len(vals))
            trace.append(("q", desc[3], desc[4], mode))
        elif r < .94 and outstanding:
            drain(rng.randrange(outstanding))
            check_state()
        elif r < .95 and outstanding < 200:
            # use up the buffers: replies that never complete
            q = struct.pack(">HHHHHH", 1, 0, 1, 0, 0, 0) + wr_name([b"x"] + ZONE) + struct.pack(">HH", A, 1)
            while True:
                rr = recv("dns", bytes([1, 2, 3, rng.randrange(256)]), 53, q)
                if len(rr) == 1:
                    break
                outstanding += 1
            ctx.check(rr[0] in (b"stopped", b"nobuf"), "exhaustion", repr(rr))
            ctx.count("exhaustions")
            check_state()
            drain(rng.choice([0, outstanding - 1]))
            check_state()
    drain()
    check_state()
    if rng.random() < .02:
        ctx.sample(str(trace[-8:]))

# --------------------------------------------------------------------- C27
def rrl_case(ctx, rng, i):
    d = ctx.driver("drv_dns", ["0"])
    nb = rng.choice([1 << 20, 1000003, 499979])
    d.call("rrlnew", nb)
    t = rng.randrange(10**8, 10**10) * SEC + rng.randrange(SEC)
    srcs = []
    for _ in range(rng.choice([1, 5, 40, 300])):
        r = rng.random()
        if r < .5:
            srcs.append(rng.randbytes(4))
        elif r < .6 and srcs:
            s = bytearray(srcs[-1]); s[rng.randrange(len(s) if len(s) == 4 else 8)] ^= 1 << rng.randrange(8); srcs.append(bytes(s))
        elif r < .7:
            srcs.append(bytes([10, 0, rng.randrange(4), rng.randrange(256)]))
        else:
            srcs.append(rng.randbytes(16))
    srcs = list(dict.fromkeys(srcs))
    weights = [rng.choice([1, 1, 1, 20]) for _ in srcs]
    args, meta = [], []
    n = rng.choice([200, 1000])
    for _ in range(n):
        t += rng.choice([0, 0, 10**3, 10**6, 10**7, 10**8, SEC // 2]) if rng.random() < .97 else rng.choice([SEC, 3 * SEC, 31 * SEC, 32 * SEC, 33 * SEC, 64 * SEC])
        s = rng.choices(srcs, weights)[0]
        args += [s, t]
        meta.append((s, t))
        if len(args) > 3000:
            break
    out, = d.call("rrl", *args)
    # group by host (IPv4 address, IPv6 /64)
    host = lambda s: s[:8] if len(s) == 16 else s
    seen, denied_fresh, fresh = {}, 0, 0
    for (s, tt), y in zip(meta, out.decode()):
        h, w = host(s), tt // SEC
        st = seen.setdefault(h, {"w": None, "ok": 0, "asked": 0, "hist": set()})
        if st["w"] != w:
            st["last"] = st["w"]
            st.update(w=w, ok=0, asked=0)
            st["alias"] = st["last"] is not None and (w - st["last"]) % 32 == 0
        st["asked"] += 1
        if y == "y":
            st["ok"] += 1
            ctx.check(st["ok"] <= 8, "too-many", lambda: "source %s got %d answers within second %d" % (s.hex(), st["ok"], w))
            ctx.count("allowed")
        else:
            ctx.count("refused")
        if st["asked"] <= 7 and not st["alias"]:
            fresh += 1
            denied_fresh += y != "y"
    ctx.count("fresh_queries", fresh)
    ctx.count("fresh_denied", denied_fresh)
    ctx.count("sources", len(seen))
    # distinct hosts rarely share a bucket
    ctx.check(denied_fresh <= 0.02 * fresh + 8, "innocent-refused", lambda: "%d of %d queries under the limit were refused (%d sources, %d buckets)" % (denied_fresh, fresh, len(seen), nb))
    ctx.distinct(nb, tuple(srcs[:5]), n)
    # flood: one source, one second
    s = rng.choice([rng.randbytes(4), rng.randbytes(16)])
    base = (t // SEC + rng.randint(33, 60)) * SEC
    k = rng.randint(9, 60)
    times = sorted(base + rng.randrange(SEC) for _ in range(k))
    out, = d.call("rrl", *[x for tt in times for x in (s, tt)])
    ctx.check(7 <= out.count(b"y") <= 8 and out[:7] == b"yyyyyyy" and b"y" not in out[8:], "flood", lambda: "%s -> %s" % (s.hex(), out))
    ctx.count("floods")
    # and the next second it is served again
    out, = d.call("rrl", *[x for tt in [base + SEC + j for j in range(7)] for x in (s, tt)])
    ctx.check(out == b"yyyyyyy", "no-recovery", lambda: "%s -> %s" % (s.hex(), out))
    # no table: no limit
    if rng.random() < .1:
        d.call("rrlnew", 0)
        out, = d.call("rrl", *[x for _ in range(20) for x in (s, base)])
        ctx.check(out == b"y" * 20, "disabled", repr(out))
    # a host flooding must not starve its many neighbours
    if rng.random() < .3:
        d.call("rrlnew", nb)
        w0 = base + 100 * SEC
        a = []
        kind = rng.random()
        if kind < .5:
            pre = rng.randbytes(2)
            hosts = [pre + struct.pack(">H", x) for x in rng.sample(range(65536), 150)]
        else:
            pre = rng.randbytes(4)
            hosts = [pre + struct.pack(">I", x << rng.choice([0, 8, 16])) + b"\0" * 8 for x in rng.sample(range(65536), 150)]
            hosts = list(dict.fromkeys(hosts))
        for h in hosts:
            for _ in range(8):
                a += [h, w0]
        out, = d.call("rrl", *a)
        bad = sum(out[j * 8:j * 8 + 7].count(b"n") for j in range(len(hosts)))
        ctx.count("neighbour_hosts", len(hosts))
        ctx.check(bad <= 28, "neighbours-refused", lambda: "%d refusals among %d hosts under the limit, prefix %s" % (bad, len(hosts), pre.hex()))
