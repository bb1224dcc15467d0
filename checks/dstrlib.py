"""libdstr: JSON, text codecs, number conversion, strings/format"""
import base64, json, re, struct
from util import *

# --------------------------------------------------------------- numbers (C23)
TYPES = {"u": (0, 2**32 - 1), "i": (-2**31, 2**31 - 1)}
for k in ("ul", "size", "ull", "u64", "umax"):
    TYPES[k] = (0, 2**64 - 1)
for k in ("l", "ll", "i64", "imax"):
    TYPES[k] = (-2**63, 2**63 - 1)

def gen_num(rng, lo, hi, base):
    r = rng.random()
    edge = [lo, hi, lo - 1, hi + 1, 0, 1, -1, 2**31, 2**32, 2**63, 2**64, 2**64 - 1, 2**65, -2**63, hi // base, hi // base + 1, hi * 10 + 1, 2**64 * 8 + 3]
    if r < 0.5:
        v = rng.choice(edge) + rng.choice([0, 0, 0, 1, -1, 2, -2])
    else:
        v = rng.randint(0, 2 ** rng.randint(0, 70)) * rng.choice([1, 1, -1])
    digs = {8: "%o", 10: "%d", 16: "%x"}[base] % abs(v)
    if rng.random() < 0.3:
        digs = digs.upper()
    if rng.random() < 0.2:
        digs = "0" * rng.randint(1, 30) + digs
    s = ("-" if v < 0 else "+" if rng.random() < 0.1 else "") + digs
    r = rng.random()
    if r < 0.25:
        s = rng.choice(["", "-", "+", " " + s, s + " ", "0x" + s, s + "\0", s + "g", "--" + s, "+-" + s, s + "-", "1e3", s[:1] + "_" + s[1:], s + "8", s + "9", s + "A", "\u0661"])
    return s

def ref_num(s, base):
    body = s[1:] if s[:1] in ("-", "+") else s
    alpha = {8: "01234567", 10: "0123456789", 16: "0123456789abcdefABCDEF"}[base]
    if not body or any(c not in alpha for c in body):
        return None
    v = int(body, base)
    return -v if s[0] == "-" else v

def numbers(ctx, rng, i):
    d = ctx.driver("drv_dstr")
    for _ in range(60):
        k = rng.choice(list(TYPES))
        lo, hi = TYPES[k]
        base = rng.choice([8, 10, 10, 10, 16])
        s = gen_num(rng, lo, hi, base)
        b = s.encode()
        name = k if rng.random() < .7 else "!" + k
        et, val = d.call("cvt", name, base, b)
        exp = ref_num(s, base) if all(ord(c) < 128 for c in s) else None
        ok = et == b"OK"
        ctx.count("conversions")
        if exp is not None and lo <= exp <= hi and not (s[0] == "-" and exp == 0) and not (s[0] == '-' and lo == 0):
            ctx.distinct(k, base, s)
            ctx.count("in_range")
            ctx.check(ok and int(val) == exp, "cvt-value:" + k, "%s base %d %r -> %s %s" % (k, base, s, et, val))
        elif exp is not None and s[0] == '-' and exp == 0:
            ctx.check(not ok or int(val) == 0, "cvt-negzero:" + k, "%r" % s)
        else:
            ctx.distinct(k, base, s)
            ctx.count("rejected_expected")
            ctx.check(not ok, "cvt-accepts:" + k, "%s base %d %r -> accepted as %s" % (k, base, s, val))
        # an unsupported base is an error
    et, val = d.call("cvt", "i", rng.choice([0, 2, 7, 9, 36]), b"1")
    ctx.check(et != b"OK", "cvt-base", "unsupported base accepted")
    ctx.sample({"last": [k, base, s, et.decode(), val.decode()]})

# ------------------------------------------------------------- text codecs (C22)
def codecs(ctx, rng, i):
    d = ctx.driver("drv_dstr")
    data = blob(rng, rng.choice([3, 10, 60, 200, 700]))
    ref = base64.b64encode(data)
    # encode, streaming, no line width
    ch = chunks(rng, data)
    # a no-width stream consumes everything each call, so chunks must be multiples of 3 except the last
    acc, ch3 = b"", []
    for c in ch:
        acc += c
        k = len(acc) // 3 * 3
        ch3.append(acc[:k]); acc = acc[k:]
    ch3[-1] += acc
    r = d.call("b64enc", 0, *ch3)
    ctx.check(r[0] == b"OK" and r[1] == ref and r[2] == b"0", "b64-encode", lambda: repr((data, r)))
    w = rng.choice([64, 76, 4, 8, 60])
    r = d.call("b64enc", w, *ch)
    exp = b"".join(ref[j:j + w] + b"\n" for j in range(0, len(ref), w))
    ctx.check(r[0] == b"OK" and r[1] == exp and r[2] == b"0", "b64-encode-lines", lambda: repr((w, ch, r, exp)))
    # fixed-size output: exact or an error, announced size is enough
    cap = max(1, len(ref) + rng.choice([0, 0, -1, -3, 1]))
    r = d.call("b64enc1", cap, data)
    fits = cap >= len(ref)
    ctx.check((r[0] == b"OK") == fits and (not fits or r[1] == ref), "b64-fixed", lambda: repr((cap, data, r)))
    ctx.check(int(r[2]) >= len(ref), "b64-outlen")
    # formatter stream over several pieces
    pcs = [blob(rng, 9) for _ in range(4)]
    r = d.call("b64fmt", *pcs)
    ctx.check(r[1] == base64.b64encode(b"".join(pcs)), "b64-fmt-stream", lambda: repr((pcs, r)))
    ctx.check(r[3] == base64.b64encode(pcs[0]) + b"|" + base64.b64encode(pcs[1]), "b64-fmt", lambda: repr((pcs, r)))
    ctx.check(r[5] == base64.b64encode(pcs[2] + pcs[3]), "b64-writer", lambda: repr((pcs, r)))
    # decode, streaming, with line breaks
    enc = exp if rng.random() < .6 else ref
    r = d.call("b64dec", *chunks(rng, enc))
    ctx.check(r[0] == b"OK" and r[1] == data, "b64-decode-stream", lambda: repr((enc, r)))
    r = d.call("b64dec1", len(data) + rng.choice([0, 0, 5]) or 1, ref)
    ctx.check(r[0] == b"OK" and r[1] == data, "b64-decode", lambda: repr((ref, r)))
    ctx.check(int(r[2]) >= len(data), "b64-dec-outlen")
    if len(data) > 1:
        r = d.call("b64dec1", len(data) - 1, ref)
        ctx.check(r[0] != b"OK", "b64-decode-overrun", lambda: repr((ref, r)))
    if len(ref) % 4 == 0 and ref and rng.random() < .5:
        r = d.call("b64dec1", len(data) + 4, ref[:-rng.randint(1, 3)])
        ctx.check(r[0] != b"OK", "b64-decode-truncated", lambda: repr((ref, r)))
    # hex
    r = d.call("hex", data)
    ctx.check(r[1].lower() == data.hex().encode() and r[3] == data and r[5].lower() == data.hex().encode(), "hex", lambda: repr((data, r)))
    mixed = "".join(rng.choice([c.upper(), c]) + (" " if rng.random() < .1 else "") for c in data.hex()).encode()
    r = d.call("unhex", mixed)
    ctx.check(r[0] == b"OK" and r[1] == data, "unhex", lambda: repr((mixed, r)))
    bad = mixed[:2] + rng.choice([b"g", b"/", b":", b"@", b"G", b"`", b"-"]) + mixed[2:]
    r = d.call("unhex", bad)
    ctx.check(r[0] != b"OK", "unhex-bad", lambda: repr((bad, r)))
    # unicode
    for _ in range(4):
        s = text(rng, 12)
        exp = b"".join(struct.pack("<I", ord(c)) for c in s)
        u8 = s.encode("utf8")
        r = d.call("utf8dec", *chunks(rng, u8))
        ctx.check(r[0] == b"OK" and r[1] == exp and r[2] == b"0", "utf8-decode", lambda: repr((s, r)))
        order = rng.choice(["bom", "be", "le"])
        if order == "bom":
            e = rng.choice(["be", "le"])
            u16 = {"be": b"\xfe\xff", "le": b"\xff\xfe"}[e] + s.encode("utf-16-" + e)
        else:
            u16 = s.encode("utf-16-" + order)
        r = d.call("utf16dec", order, *chunks(rng, u16))
        ctx.check(r[0] == b"OK" and r[1] == exp and r[2] == b"0", "utf16-decode", lambda: repr((order, u16, r)))
        r = d.call("utf16dec1", order, u16)
        ctx.check(r[0] == b"OK" and r[1] == exp, "utf16-decode1", lambda: repr((order, u16, r)))
        if u16[2:]:
            r = d.call("utf16dec1", order, u16[:-1])
            ctx.check(r[0] != b"OK", "utf16-truncated", lambda: repr((order, u16, r)))
        # damaged utf8: strict reference verdict
        m = mutate(rng, u8)
        try:
            ok, mexp = True, b"".join(struct.pack("<I", ord(c)) for c in m.decode("utf8"))
        except UnicodeDecodeError:
            ok = False
        r = d.call("utf8dec1", m)
        ctx.count("utf8_damaged")
        if ok:
            ctx.check(r[0] == b"OK" and r[1] == mexp, "utf8-decode1", lambda: repr((m, r)))
        else:
            ctx.count("utf8_invalid")
            ctx.check(r[0] != b"OK", "utf8-invalid-accepted", lambda: repr((m, r)))
        # the same damaged bytes in chunks: same verdict
        r2 = d.call("utf8dec", *chunks(rng, m))
        ok2 = r2[0] == b"OK" and r2[2] == b"0"
        ctx.check(ok2 == ok and (not ok or r2[1] == mexp), "utf8-chunking", lambda: repr((m, r, r2)))
        # damaged utf16
        m = mutate(rng, u16)
        if order != "bom":
            try:
                ok, mexp = True, b"".join(struct.pack("<I", ord(c)) for c in m.decode("utf-16-" + order))
            except UnicodeDecodeError:
                ok = False
            r = d.call("utf16dec1", order, m)
            r2 = d.call("utf16dec", order, *chunks(rng, m))
            ok2 = r2[0] == b"OK" and r2[2] == b"0"
            ctx.check((r[0] == b"OK") == ok and (not ok or r[1] == mexp), "utf16-verdict", lambda: repr((order, m, ok, r)))
            ctx.check(ok2 == ok and (not ok or r2[1] == mexp), "utf16-chunking", lambda: repr((order, m, ok, r2)))
        ctx.distinct(u8, m)
    for _ in range(6):
        c = rng.choice([cp(rng), rng.randint(0xd800, 0xdfff), rng.randint(0x110000, 0xffffffff), rng.choice([0xd800, 0xdfff, 0x110000])])
        r = d.call("cpenc", c)
        valid = c < 0x110000 and not 0xd800 <= c <= 0xdfff
        if valid:
            ctx.check(r[1] == chr(c).encode("utf8") and r[3] == chr(c).encode("utf-16-be"), "cp-encode", lambda: repr((c, r)))
        else:
            ctx.check(r[0] != b"OK", "utf8-encode-invalid", lambda: repr((c, r)))
            ctx.check(r[2] != b"OK", "utf16-encode-invalid", lambda: repr((c, r)))
    ctx.distinct(data)
    ctx.sample({"data": data[:60].hex(), "utf8": u8.hex()})

# --------------------------------------------------------------------- json (C20)
class Bad(Exception):
    pass

def jgen(rng, depth=0):
    r = rng.random()
    if depth > 6 or r < 0.45:
        k = rng.randrange(6)
        if k == 0: return rng.choice(["true", "false", "null"])
        if k <= 2:
            s = rng.choice(["", "-"]) + rng.choice(["0", str(rng.randint(1, 10 ** rng.randint(1, 25)))])
            if rng.random() < .4: s += "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 6)))
            if rng.random() < .4: s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randint(0, 400)).rjust(rng.randint(0, 4), "0")
            return s
        return jstr(rng)
    ws = lambda: rng.choice(["", "", "", " ", "\n", "\t\r\n "])
    n = rng.choice([0, 1, 2, 3, rng.randint(0, 12), 60 if depth < 2 and rng.random() < .2 else 1])
    if r < 0.75:
        return "[" + ws() + ",".join(ws() + jgen(rng, depth + 1) + ws() for _ in range(n)) + "]"
    return "{" + ws() + ",".join(ws() + jstr(rng) + ws() + ":" + ws() + jgen(rng, depth + 1) + ws() for _ in range(n)) + "}"

def jstr(rng):
    out = []
    big = rng.random() < .03
    for _ in range(rng.randint(0, 4000 if big else 8)):
        c = cp(rng) if not big else rng.randint(32, 126)
        r = rng.random()
        if c in (0x22, 0x5c) or c < 0x20 or r < 0.15:
            esc = {0x22: '\\"', 0x5c: "\\\\", 0x2f: "\\/", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t"}
            if c in esc and rng.random() < .7:
                out.append(esc[c])
            elif c < 0x10000:
                out.append(("\\u%04x" if rng.random() < .5 else "\\u%04X") % c)
            else:
                c -= 0x10000
                out.append("\\u%04x\\u%04X" % (0xd800 | c >> 10, 0xdc00 | c & 0x3ff))
        else:
            out.append(chr(c))
    return '"' + "".join(out) + '"'

class Num(str):
    pass

def jref(data):
    """reference verdict: token stream, or None if invalid"""
    def const(x):
        raise ValueError("const")
    try:
        s = data.decode("utf8")
        v = json.loads(s, parse_int=Num, parse_float=Num, parse_constant=const, object_pairs_hook=lambda p: ("obj", p))
    except (ValueError, RecursionError):
        return None
    out = []
    def t(c, x=""):
        b = x.encode("utf8")   # raises on lone surrogates
        out.append(c.encode() + str(len(b)).encode() + b":" + b)
    def walk(v):
        if isinstance(v, Num): t("#", str(v))
        elif isinstance(v, str): t("S", v)
        elif v is True: t("T")
        elif v is False: t("F")
        elif v is None: t("N")
        elif isinstance(v, tuple):
            t("{")
            for k, x in v[1]:
                t("K", k); walk(x)
            t("}")
        else:
            t("[")
            for x in v: walk(x)
            t("]")
    try:
        walk(v)
    except UnicodeEncodeError:
        return None
    return b"".join(out)

def json_case(ctx, rng, i):
    d = ctx.driver("drv_dstr")
    ws = lambda: rng.choice(["", "", " ", "\n\t"])
    src = (ws() + jgen(rng) + ws()).encode("utf8")
    for variant in range(4):
        m = src if variant == 0 else mutate_json(rng, src)
        try:
            m.decode("utf8"); valid8 = True
        except UnicodeDecodeError:
            valid8 = False
        exp = jref(m) if valid8 else None
        mode = rng.choice([0, 0, 1, 2])
        tcap, nn = rng.choice([(0, 0), (10, 2), (64, 8), (4096, 200)]) if mode else (0, 0)
        r = d.call("json", mode, tcap, nn, *chunks(rng, m, 8))
        ok = r[0] == b"OK"
        ctx.count("json_texts")
        if mode == 2 and r[0] == b"FIXEDSIZE":
            ctx.count("json_fixedsize")
            # an error is only justified if the text really needs more than was preallocated
            if exp is not None and tcap >= len(m) + 16 and nn >= len(m) + 1:
                ctx.violation("json-fixedsize", repr((m[:200], tcap, nn)))
            continue
        if valid8:
            ctx.count("json_valid" if exp is not None else "json_invalid")
            ctx.check(ok == (exp is not None), "json-verdict", lambda: repr((m[:600], r[0], exp is not None)))
            if ok and exp is not None:
                ctx.distinct(exp)
                ctx.check(r[1] == exp, "json-value", lambda: repr((m[:300], r[1][:300], exp[:300])))
                ctx.check(r[2] == b"OK" and jref(r[3]) == exp, "json-dump", lambda: repr((m[:300], r[3][:300])))
        else:
            r2 = d.call("json", 0, 0, 0, m)
            ctx.check(r2[0] == r[0], "json-chunking", lambda: repr((m[:300], r[0], r2[0])))
    # encoder
    s = text(rng, 14)
    u8 = s.encode("utf8")
    r = d.call("jsonenc", 0, u8, *chunks(rng, u8))
    ctx.check(r[0] == b"OK" and json.loads(b'"' + r[1] + b'"') == s and r[1].isascii() , "json-encode", lambda: repr((s, r)))
    ctx.check(r[2] == b"OK" and json.loads(r[3]) == s, "json-encode-stream", lambda: repr((s, r)))
    if len(r[1]) > 1:
        r2 = d.call("jsonenc", len(r[1]) - 1, u8)
        ctx.check(r2[0] != b"OK", "json-encode-fixed", lambda: repr((s, r2)))
    m = mutate(rng, u8)
    try:
        ms = m.decode("utf8")
    except UnicodeDecodeError:
        ms = None
    r = d.call("jsonenc", 0, m, *chunks(rng, m))
    for k in (0, 2):
        if ms is None:
            ctx.check(r[k] != b"OK", "json-encode-invalid-utf8", lambda: repr((m, r)))
        else:
            v = r[k + 1] if k else b'"' + r[k + 1] + b'"'
            ctx.check(r[k] == b"OK" and json.loads(v) == ms, "json-encode", lambda: repr((m, r)))
    # dumper
    prog, val = jprog(rng)
    for ind in (0, rng.choice([1, 2, 4])):
        r = d.call("jdump", ind, 0, *prog)
        try:
            got = json.loads(r[1])
        except ValueError:
            got = Bad
        ctx.check(r[0] == b"OK" and got == val, "jdump", lambda: repr((prog, r)))
    n = len(r[1])
    if n > 2:
        r = d.call("jdump", ind, rng.randint(1, n - 2), *prog)
        ctx.check(r[0] != b"OK", "jdump-truncated-ok", lambda: repr((prog, r)))
    ctx.sample(src.decode()[:300])

def mutate_json(rng, b):
    r = rng.random()
    if r < .3:
        # structural edits
        toks = [b",", b":", b"[", b"]", b"{", b"}", b'"', b"\\", b"\\u", b"\\ud800", b"\\udc00", b"0", b"1", b".", b"e", b"-", b"+", b"tru", b"null", b" ", b"\x00", b"\x1f", b"NaN"]
        k = rng.randint(0, len(b))
        return b[:k] + rng.choice(toks) + b[k:]
    if r < .5 and b:
        k = rng.randrange(len(b)); return b[:k] + b[k + 1:]
    if r < .6:
        return b[:rng.randint(0, len(b))]
    if r < .7:
        a = bytearray(b); k = rng.randrange(len(a)); a[k] = rng.choice(b'",:[]{}\\u0123eE+-. \t\n'); return bytes(a)
    return mutate(rng, b)

def jprog(rng, depth=0):
    k = rng.choice("NTFiusnfal" + "o" * 3) if depth < 4 else rng.choice("NTFiusnf")
    if k == "N": return ["N"], None
    if k == "T": return ["T"], True
    if k == "F": return ["F"], False
    if k == "i":
        v = rng.choice([0, -1, 2**63 - 1, -2**63, rng.randint(-10**6, 10**6)]); return ["i%d" % v], v
    if k == "u":
        v = rng.choice([0, 2**64 - 1, rng.randint(0, 10**9)]); return ["u%d" % v], v
    if k in "sn":
        s = text(rng, 8); return [k + s], s
    if k == "f":
        s = text(rng, 8); return ["f" + s], s + "--5"
    n = rng.randint(0, 4)
    if k in "al":
        p, v = [k + str(n)], []
        for _ in range(n):
            a, b = jprog(rng, depth + 1); p += a; v.append(b)
        return p, v
    p, v = ["o" + str(n)], {}
    for j in range(n):
        key = text(rng, 5) + str(j)
        a, b = jprog(rng, depth + 1); p += [key] + a; v[key] = b
    return p, v

# ------------------------------------------------------------------- strings (C24)
def up(b): return bytes(c - 32 if 97 <= c <= 122 else c for c in b)
def lo(b): return bytes(c + 32 if 65 <= c <= 90 else c for c in b)
def sgn(x): return (x > 0) - (x < 0)

def ref_count(t, p):
    n = i = 0
    while i + len(p) <= len(t):
        if t[i:i + len(p)] == p: n += 1; i += len(p)
        else: i += 1
    return n

def ref_recode(t, pairs):
    out = b""; i = 0
    while i < len(t):
        for s, r in pairs:
            if t.startswith(s, i):
                out += r; i += len(s); break
        else:
            out += t[i:i + 1]; i += 1
    return out

def recode_stop(t, pairs, force_end):
    """-> output, bytes left, stopped"""
    out = b""; i = 0
    while i < len(t):
        for k, (s, r) in enumerate(pairs):
            if t.startswith(s, i):
                out += r; i += len(s)
                if k == 0:
                    return out, len(t) - i, 1
                break
        else:
            if not any(t.startswith(s, j) for j in range(i, len(t)) for s, _ in pairs):
                rest = t[i:]
                part = 0 if force_end else max([k for p, _ in pairs for k in range(1, len(p)) if rest.endswith(p[:k])], default=0)
                return out + rest[:len(rest) - part], part, 0
            out += t[i:i + 1]; i += 1
    return out, 0, 0

DBG = {13: b"\\r", 10: b"\\n", 0: b"\\0", 9: b"\\t", 92: b"\\\\", 34: b'\\"'}
def dbg(b): return b"".join(DBG.get(c) or (bytes([c]) if 31 < c < 127 else b"\\x%02x" % c) for c in b)

def fmt_ref(fs, args):
    out, i, k = b"", 0, 0
    while i < len(fs):
        if fs[i:i + 1] != b"%": out += fs[i:i + 1]; i += 1; continue
        nx = fs[i + 1:i + 2]
        if nx == b"": out += b"%"; break
        if nx == b"%": out += b"%"
        elif nx == b"x":
            if k < len(args): out += args[k]; k += 1
        else: out += b"%" + nx
        i += 2
    for a in args[k:]: out += b" " + a
    return out

def strings(ctx, rng, i):
    d = ctx.driver("drv_dstr")
    for _ in range(8):
        a = blob(rng, 8)
        b = rng.choice([blob(rng, 8), a[:rng.randint(0, len(a))], a + blob(rng, 3), a[rng.randint(0, len(a)):], up(a), lo(a), mutate(rng, a, 1)])
        r = [int(x) for x in d.call("cmp", a, b)]
        A, B = up(a), up(b)
        ctx.count("comparisons")
        ctx.check((r[0] == 0) == (a == b) and (r[1] == 0) == (A == B), "cmp-equality", lambda: repr((a, b, r)))
        ctx.check(r[0] == -r[12] and r[1] == -r[13], "cmp-antisymmetry", lambda: repr((a, b, r)))
        if max(a + b, default=0) < 128:
            ctx.check(r[0] == (a > b) - (a < b) and r[1] == (A > B) - (A < B), "cmp-order", lambda: repr((a, b, r)))
        exp = [a == b, A == B, a.startswith(b), A.startswith(B), a.endswith(b), A.endswith(B)]
        ctx.check([bool(x) for x in r[2:8]] == exp, "str-predicates", lambda: repr((a, b, r, exp)))
        if b:
            ctx.check(r[8] == ref_count(a, b) and r[9] == ref_count(A, B) and bool(r[10]) == (b in a) and bool(r[11]) == (B in A), "str-count", lambda: repr((a, b, r)))
        c = blob(rng, 8)
        # transitivity on a triple
        ab, bc, ac = r[0], int(d.call("cmp", b, c)[0]), int(d.call("cmp", a, c)[0])
        ctx.check(not (ab <= 0 and bc <= 0 and ac > 0) and not (ab >= 0 and bc >= 0 and ac < 0), "cmp-transitivity", lambda: repr((a, b, c, ab, bc, ac)))
        ctx.distinct("cmp", a, b)
    a = blob(rng, 12)
    r = d.call("case", a)
    st = b" x"
    ctx.check(r == [up(a), lo(a), a.strip(st), a.lstrip(st), a.rstrip(st)], "case-strip", lambda: repr((a, r)))
    t = bytes(rng.choice(b"ab \x00x") for _ in range(rng.randint(0, 14)))
    r = d.call("case", t)
    ctx.check(r[2:] == [t.strip(st), t.lstrip(st), t.rstrip(st)], "case-strip", lambda: repr((t, r)))
    # find
    pats = list({bytes(rng.choice(b"ab") for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(1, 3))})
    pats = [p for p in pats if not any(q != p and q in p for q in pats)]
    t = bytes(rng.choice(b"aab" if rng.random() < .8 else b"abc") for _ in range(rng.randint(0, 12)))
    pos, which, part = [int(x) for x in d.call("find", t, *pats)]
    cand = [(t.find(p), k) for k, p in enumerate(pats) if t.find(p) >= 0]
    if cand:
        ctx.check((pos, which) == min(cand) and part == 0, "find", lambda: repr((t, pats, pos, which, part)))
    else:
        mp = max([k for p in pats for k in range(1, len(p)) if t.endswith(p[:k])], default=0)
        ctx.check(pos == -1 and part == mp, "find-partial", lambda: repr((t, pats, pos, part, mp)))
    # recode: chunked == whole == reference
    rep = [blob(rng, 3) for _ in pats]
    ch = chunks(rng, t, 5)
    flat = [x for pr in zip(pats, rep) for x in pr]
    r = d.call("recode", len(ch), *ch, *flat)
    exp = ref_recode(t, list(zip(pats, rep)))
    ctx.check(r[:5] == [b"OK", exp, b"0", b"OK", exp], "recode", lambda: repr((ch, flat, r, exp)))
    for fe, g in ((0, r[5:9]), (1, r[9:13])):
        w = recode_stop(t, list(zip(pats, rep)), fe)
        ctx.check(g == [b"OK", w[0], b"%d" % w[1], b"%d" % w[2]], "recode-stop", lambda: repr((t, flat, fe, g, w)))
    # split
    pat = rng.choice([b",", b"ab", b"aa", b"."])
    t = bytes(rng.choice(b"ab,.") for _ in range(rng.randint(0, 10)))
    r = d.call("split", t, pat)
    parts = t.split(pat)
    soft = t.split(pat, 2)
    it = iter(r)
    def take():
        n = int(next(it)); return [next(it) for _ in range(n)]
    e1 = next(it); l1 = take()
    e2 = next(it); l2 = take()
    l3 = take()
    e4 = next(it); l4 = take()
    ctx.check(e1 == b"OK" and l1 == parts, "split", lambda: repr((t, pat, l1)))
    ctx.check(e2 == b"OK" and l2 == soft and l3 == soft, "split-soft", lambda: repr((t, pat, l2, l3, soft)))
    ctx.check((e4 == b"OK") == (len(parts) <= 3) and (e4 != b"OK" or l4 == parts), "split2", lambda: repr((t, pat, e4, l4)))
    # sub / shift
    a = blob(rng, 12)
    s, e = rng.randint(0, 16), rng.randint(0, 16)
    r = d.call("sub", a, s, e)
    ctx.check(r[0] == (a[s:e] if s <= e else b"") and r[1] == a[s:], "sub-shift", lambda: repr((a, s, e, r)))
    # list with backing memory
    el = [blob(rng, 9) for _ in range(rng.randint(1, 8))]
    nt = rng.randint(0, 1)
    r = d.call("listmem", nt, *el)
    ctx.check(r == [b"OK"] + el, "list-mem", lambda: repr((nt, el, r)))
    # format
    for _ in range(4):
        fs = b"".join(rng.choice([b"%x", b"%x", b"%%", b"a", b" ", b"%d", b"bc"]) for _ in range(rng.randint(0, 6))) + (b"%" if rng.random() < .1 else b"")
        args, exp = [], []
        for _ in range(rng.randint(0, 4)):
            k = rng.choice("iusndxcb")
            if k == "i": v = rng.choice([0, -1, 2**63 - 1, -2**63, rng.randint(-999, 999)]); args.append(b"i%d" % v); exp.append(b"%d" % v)
            elif k == "u": v = rng.choice([0, 2**64 - 1, rng.randint(0, 10**9)]); args.append(b"u%d" % v); exp.append(b"%d" % v)
            elif k in "sn": v = blob(rng, 8); args.append(k.encode() + v); exp.append(v)
            elif k == "d": v = blob(rng, 8); args.append(b"d" + v); exp.append(dbg(v))
            elif k == "x": v = blob(rng, 8); args.append(b"x" + v); exp.append(v.hex().encode())
            elif k == "c": v = rng.randrange(256); args.append(b"c" + bytes([v])); exp.append(bytes([v]))
            else: v = rng.randint(0, 1); args.append(b"b%d" % v); exp.append(b"true" if v else b"false")
        want = fmt_ref(fs, exp)
        r = d.call("fmt", 0, fs, *args)
        ctx.check(r[0] == b"OK" and r[1] == want and r[2] == b"1" and r[4] == want, "fmt", lambda: repr((fs, args, r, want)))
        cap = max(1, len(want) + rng.choice([1, 0, -1, -2, -len(want)]))
        r = d.call("fmt", cap, fs, *args)
        if cap > len(want):
            ctx.check(r[0] == b"OK" and r[1] == want, "fmt-fits", lambda: repr((cap, fs, args, r)))
        else:
            ctx.check(r[0] == b"FIXEDSIZE" and want.startswith(r[1]) and len(r[1]) <= cap, "fmt-truncation", lambda: repr((cap, fs, args, r, want)))
        ctx.distinct("fmt", fs, *args)
    # append to bounded and growable
    cap = rng.choice([0, rng.randint(1, 40)])
    how = rng.randint(0, 4)
    pcs = [blob(rng, 12) for _ in range(rng.randint(1, 8))]
    r = d.call("append", cap, how, *pcs)
    cur = b""
    for k, p in enumerate(pcs):
        et, txt, ok = r[3 * k:3 * k + 3]
        add = p if how < 4 else p[:1] * len(p)
        fits = cap == 0 or len(cur) + len(add) <= cap
        if fits: cur += add
        ctx.check((et == b"OK") == fits and txt == cur and ok == b"1", "append:%d" % how, lambda: repr((cap, how, pcs, r)))
    # string builder
    pcs = [blob(rng, 6) for _ in range(rng.randint(1, 6))]
    pre = rng.randint(0, 1)
    r = d.call("sb", rng.choice([1, 4, 8, 16, 256]), pre, *pcs)
    exp = b"/".join(reversed(pcs) if pre else pcs)
    ctx.check(r == [b"OK", exp, b"1"], "string-builder", lambda: repr((pre, pcs, r)))
    ctx.sample({"fmt": fs.decode(), "args": [x.hex() for x in args], "out": want.hex()})
