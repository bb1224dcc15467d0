"""generators shared by the Python checks"""
import string

def chunks(rng, data, maxchunks=12, allow_empty=True):
    """split bytes at random points (sometimes byte by byte)"""
    n = len(data)
    mode = rng.random()
    if mode < 0.15:
        return [data]
    if mode < 0.35 and n <= 400:
        return [data[i:i + 1] for i in range(n)] or [b""]
    k = rng.randint(1, maxchunks)
    cuts = sorted(rng.randint(0, n) for _ in range(k))
    out, p = [], 0
    for c in cuts + [n]:
        if c > p or (allow_empty and rng.random() < 0.1):
            out.append(data[p:c])
            p = c
    return out or [data]

CPS = [0, 1, 9, 10, 13, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfffd,
       0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10ffff]

def cp(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(CPS)
    if r < 0.7:
        return rng.randint(32, 126)
    c = rng.randint(0, 0x10ffff)
    while 0xd800 <= c <= 0xdfff:
        c = rng.randint(0, 0x10ffff)
    return c

def text(rng, maxlen=20):
    return "".join(chr(cp(rng)) for _ in range(rng.randint(0, maxlen)))

def blob(rng, maxlen=40):
    n = rng.randint(0, maxlen)
    if rng.random() < 0.5:
        return bytes(rng.randrange(256) for _ in range(n))
    alpha = rng.choice([b"ab", b"abAB\0", b"\r\n.a", b"ab\xff\x80"])
    return bytes(rng.choice(alpha) for _ in range(n))

def mutate(rng, data, n=None):
    b = bytearray(data)
    for _ in range(n or rng.randint(1, 3)):
        r = rng.random()
        if not b or r < 0.3:
            b.insert(rng.randint(0, len(b)), rng.randrange(256))
        elif r < 0.6:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif r < 0.8:
            del b[rng.randrange(len(b))]
        else:
            i = rng.randrange(len(b)); j = min(len(b), i + rng.randint(1, 6))
            k = rng.randint(0, len(b))
            b[k:k] = b[i:j]
    return bytes(b)

import re as _re
class Say:
    """ctx whose check and violation take one message; the key is the message without its data"""
    def __init__(self, ctx):
        self.c = ctx
    def __getattr__(self, n):
        return getattr(self.c, n)
    def violation(self, msg):
        key = _re.sub(r"b'(?:\\.|[^'\\])*'|b\"(?:\\.|[^\"\\])*\"|-?\d+|\[.*\]", "_", msg)
        self.c.violation(key[:80], msg)
    def check(self, cond, msg=""):
        if not cond:
            self.violation(msg)
        return cond
