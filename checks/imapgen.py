"""random IMAP commands and responses together with what they mean"""
ATOM_SPECIALS = set(b'(){ %*"\\]') | set(range(0, 32)) | {127}
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
KEYWORDS = """alert all answered append appenduid apr aug authenticate bad bcc before body bodystructure bye capability cc changedsince charset
check close closed condstore copy copyuid create created dec delete deleted done draft earlier enable enabled envelope examine exists expunge fast feb fetch
fields flagged flags from full header highestmodseq idle inbox internaldate jan jul jun keyword larger list login logout lsub mar marked may messages mime
modified modseq new nil no noinferiors nomodseq noop noselect not nov oct ok old on or parse peek permanentflags plain preauth priv qresync read-only
read-write recent rename rfc822 search seen select sentbefore senton sentsince sep shared silent since size smaller starttls status store subject subscribe
text to trycreate uid uidnext uidnotsticky uidvalidity unanswered unchangedsince undeleted undraft unflagged unkeyword unmarked unseen unselect unsubscribe
vanished xkeyadd xkeysync""".split()
EXTS = ["uidplus", "enable", "condstore", "qresync", "unselect", "idle", "xkey"]

class Lit:
    def __init__(self, data):
        self.data = data

def hx(b):
    return b.hex()

class G:
    def __init__(self, rng, is_cmd):
        self.r = rng
        self.cmd = is_cmd
        self.need = set()     # extensions that must be on (or triggerable)
        self.out = []         # bytes / Lit
        self.writable = True  # can be written again
        self.sloppy = False   # value does not survive writing unchanged

    # ---- output
    def w(self, *parts):
        for p in parts:
            self.out.append(p.encode("latin1") if isinstance(p, str) else p)
    def kw(self, s):
        m = self.r.random()
        if m < .5:
            t = s
        elif m < .7:
            t = s.lower()
        else:
            t = "".join(c.upper() if self.r.random() < .5 else c.lower() for c in s)
        self.w(t)

    # ---- values
    def case(self, s):
        return "".join(c.upper() if self.r.random() < .5 else c.lower() for c in s)
    def atomval(self, tag=False, special=b"", minlen=1):
        r = self.r
        while True:
            m = r.random()
            if m < .25:
                s = "".join(r.choice("abcXYZ09") for _ in range(r.randint(1, 12)))
            elif m < .5:
                s = "".join(r.choice([self.case(r.choice(KEYWORDS)), "-", ".", r.choice("aZ"), "7", "/", "+"]) for _ in range(r.randint(1, 4)))
            elif m < .75:
                s = "".join(chr(r.randint(33, 126)) for _ in range(r.randint(1, 20)))
            elif m < .85:
                s = "".join(r.choice("@;?=<>[}:,.-+&!#$'/^_`|~0159ab") for _ in range(r.randint(1, 10)))
            else:
                s = "".join(r.choice("abcdefghij0123456789-") for _ in range(r.randint(12, 70)))
            b = bytes(c for c in s.encode() if c not in ATOM_SPECIALS or c in special)
            if tag:
                b = b.replace(b"+", b"")
            if len(b) >= minlen:
                return b
    def strval(self):
        r = self.r
        m = r.random()
        if m < .35:
            return self.atomval()
        if m < .45:
            return b""
        if m < .6:
            return bytes(r.choice(b'ab "\\()%*{}[]') for _ in range(r.randint(1, 12)))
        if m < .75:
            return bytes(r.choice(b"ab\r\n\0{3}\xff\x80") for _ in range(r.randint(1, 12)))
        if m < .85:
            return bytes(r.randint(1, 127) for _ in range(r.randint(1, 40)))
        return bytes(r.choice(b'abc \\"') for _ in range(r.randint(60, 100)))
    def string(self, v, quoted_only=False):
        r = self.r
        q = not any(c in b"\r\n\0" for c in v)
        if quoted_only or (q and r.random() < .6):
            self.w(b'"' + v.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"')
        else:
            self.w(Lit(v))
    def astring(self, v=None, special=b"]"):
        if v is None:
            v = self.strval() if self.r.random() < .7 else self.atomval(special=b"]")
        ok = len(v) > 0 and not any(c in ATOM_SPECIALS and c not in special or c > 126 for c in v)
        if ok and self.r.random() < .7:
            self.w(v)
        else:
            self.string(v)
        return hx(v)
    def mailbox(self):
        r = self.r
        m = r.random()
        if m < .2:
            v = self.case("inbox").encode()
        elif m < .3:
            v = self.case("inbox").encode() + b"/" + self.strval()
        elif m < .4:
            v = self.case("inbox").encode() + r.choice([b"2", b".x", b"-a", b"x", b"es", b"]"])
        else:
            v = self.strval()
        self.astring(v)
        if v.lower() == b"inbox":
            return "INBOX"
        if v.lower().startswith(b"inbox/"):
            v = b"INBOX/" + v[6:]
        return ["m", hx(v)]
    def num(self, lo=0, hi=2**32 - 1):
        r = self.r
        v = r.choice([lo, hi, r.randint(lo, min(hi, 20)), r.randint(lo, hi), r.randint(lo, hi)])
        self.w(("0" * r.randint(1, 25) if r.random() < .05 else "") + str(v))
        return v
    def seqset(self, star=True):
        r = self.r
        out = []
        for i in range(r.randint(1, 4)):
            if i:
                self.w(",")
            def one():
                if star and r.random() < .2:
                    self.w("*")
                    return 0
                return self.num(1)
            a = b = one()
            if r.random() < .5:
                self.w(":")
                b = one()
            out.append([a, b])
        return out
    def flags(self, kinds, paren=True, minimum=0):
        r = self.r
        names = {"A": "Answered", "F": "Flagged", "D": "Deleted", "S": "Seen", "R": "Draft", "*": "*", "N": "Recent"}
        got, kws, ext = set(), [], []
        n = r.randint(minimum, 5)
        first = True
        if paren:
            self.w("(")
        for _ in range(n):
            if not first:
                self.w(" ")
            first = False
            m = r.random()
            if m < .6:
                k = r.choice(kinds)
                got.add(k)
                self.w("\\")
                self.kw(names[k])
            elif m < .8:
                a = self.atomval()
                kws.append(a)
                self.w(a)
            else:
                while True:
                    a = self.atomval()
                    # an extension flag must not spell (or, up to a token boundary, start with) a standard one
                    if not any(a.lower().startswith(names[k].lower().encode()) for k in names if k != "*"):
                        break
                ext.append(a)
                self.w("\\", a)
        if paren:
            self.w(")")
        if n == 0:
            return None
        return ["".join(k for k in kinds if k in got), [hx(x) for x in kws], [hx(x) for x in ext]]
    def datetime(self):
        r = self.r
        d, mo, y = r.randint(1, 31), r.randint(1, 12), r.choice([1000, 1970, 1999, 2024, 9999])
        h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
        zh, zm = r.randint(0, 14), r.choice([0, 30, 45, 59])
        sg = r.choice("+-")
        if sg == "-" and zh == 0:
            zm = 0
        self.w('"%s-' % ("%2d" % d if r.random() < .5 else "%02d" % d), self.case(MON[mo - 1]), "-%04d %02d:%02d:%02d %s%02d%02d\"" % (y, h, mi, s, sg, zh, zm))
        return [y, mo, d, h, mi, s, zh if sg == "+" else -zh, zm]
    def date(self):
        r = self.r
        d, mo, y = r.randint(1, 31), r.randint(1, 12), r.choice([1000, 1970, 1999, 2024, 9999])
        q = '"' if r.random() < .4 else ""
        self.w(q + (str(d) if r.random() < .6 else "%02d" % d) + "-", self.case(MON[mo - 1]), "-%04d" % y + q)
        return [y, mo, d]
    def modseq(self, lo=0):
        r = self.r
        v = r.choice([lo, 1, 2**63 - 1, r.randint(1, 2**63 - 1), r.randint(1, 2**40)])
        self.w(("0" * r.randint(1, 25) if r.random() < .05 else "") + str(v))
        return v

    # ---- commands
    def search_key(self, depth=0):
        r = self.r
        c = r.random()
        if c < .2:
            k = r.choice("ALL ANSWERED DELETED FLAGGED NEW OLD RECENT SEEN UNANSWERED UNDELETED UNFLAGGED UNSEEN DRAFT UNDRAFT".split())
            self.kw(k)
            return [k]
        if c < .4:
            k = r.choice("BCC BODY CC FROM SUBJECT TEXT TO".split())
            self.kw(k); self.w(" ")
            return [k, self.astring()]
        if c < .47:
            k = r.choice(["KEYWORD", "UNKEYWORD"])
            self.kw(k); self.w(" ")
            a = self.atomval(); self.w(a)
            return [k, hx(a)]
        if c < .56:
            k = r.choice("BEFORE ON SINCE SENTBEFORE SENTON SENTSINCE".split())
            self.kw(k); self.w(" ")
            return [k, self.date()]
        if c < .62:
            k = r.choice(["LARGER", "SMALLER"])
            self.kw(k); self.w(" ")
            return [k, self.num()]
        if c < .68:
            self.kw("UID"); self.w(" ")
            return ["UID", self.seqset()]
        if c < .74:
            return ["SEQ_SET", self.seqset()]
        if c < .79:
            self.kw("HEADER"); self.w(" ")
            a = self.astring(); self.w(" "); b = self.astring()
            return ["HEADER", a, b]
        if c < .84:
            self.need.add("t:condstore")
            self.kw("MODSEQ"); self.w(" ")
            x = None
            if r.random() < .5:
                n = self.atomval() if r.random() < .5 else b'/flags/\\\\"x"'
                self.string(n, True); self.w(" ")
                t = r.randint(0, 2); self.kw(["priv", "shared", "all"][t]); self.w(" ")
                x = [hx(n), t]
            return ["MODSEQ", x, self.modseq()]
        if depth > 3:
            self.kw("ALL")
            return ["ALL"]
        if c < .90:
            self.kw("NOT"); self.w(" ")
            return ["NOT", self.search_key(depth + 1)]
        if c < .95:
            self.kw("OR"); self.w(" ")
            a = self.search_key(depth + 1); self.w(" ")
            return ["OR", a, self.search_key(depth + 1)]
        self.w("(")
        k = self.search_keys(depth + 1)
        self.w(")")
        return ["GROUP", k]
    def search_keys(self, depth=0):
        k = self.search_key(depth)
        while self.r.random() < .35:
            self.w(" ")
            k = ["AND", k, self.search_key(depth)]
        return k
    def sect(self):
        r = self.r
        if r.random() < .25:
            return None
        parts = []
        if r.random() < .5:
            for i in range(r.randint(1, 4)):
                if i:
                    self.w(".")
                parts.append(self.num(1))
        if parts and r.random() < .4:
            return [parts, None]
        if parts:
            self.w(".")
        k = r.choice(["TEXT", "HEADER", "HEADER.FIELDS", "HEADER.FIELDS.NOT"] + (["MIME"] if parts else []))
        self.kw(k)
        hs = []
        if "FIELDS" in k:
            self.w(" (")
            for i in range(r.randint(1, 3)):
                if i:
                    self.w(" ")
                hs.append(self.astring())
            self.w(")")
        return [parts, [k, hs]]
    ATTRS = {"E": "ENVELOPE", "F": "FLAGS", "I": "INTERNALDATE", "U": "UID", "R": "RFC822", "H": "RFC822.HEADER", "Z": "RFC822.SIZE", "T": "RFC822.TEXT",
             "B": "BODY", "S": "BODYSTRUCTURE", "M": "MODSEQ"}
    def fetch_attrs(self):
        r = self.r
        m = r.random()
        if m < .15:
            k = r.choice(["ALL", "FAST", "FULL"])
            self.kw(k)
            return [{"ALL": "EFI", "FAST": "FIZ", "FULL": "EFIZB"}[k], []]
        par = r.random() < .7
        if par:
            self.w("(")
        got, ex = set(), []
        for i in range(r.randint(1, 5) if par else 1):
            if i:
                self.w(" ")
            if r.random() < .6:
                k = r.choice(list(self.ATTRS))
                got.add(k)
                self.kw(self.ATTRS[k])
            else:
                self.kw("BODY")
                pk = r.random() < .5
                if pk:
                    self.w("."); self.kw("PEEK")
                self.w("[")
                s = self.sect()
                self.w("]")
                p = None
                if r.random() < .4:
                    self.w("<"); a = self.num(); self.w("."); b = self.num(1); self.w(">")
                    p = [a, b]
                ex.append([int(pk), s, p])
        if par:
            self.w(")")
        return ["".join(k for k in self.ATTRS if k in got), ex]

    def command(self, kinds=None):
        """returns list of expected dumps"""
        r = self.r
        res = []
        kinds = kinds or "CAPA NOOP LOGOUT LOGIN LOGIN AUTHP AUTHL SELECT EXAMINE CREATE DELETE RENAME SUB UNSUB LIST LSUB STATUS APPEND CHECK CLOSE EXPUNGE UIDEXPUNGE SEARCH SEARCH SEARCH FETCH FETCH FETCH STORE STORE COPY ENABLE UNSELECT IDLE XKEYSYNC XKEYADD STARTTLS".split()
        k = r.choice(kinds)
        self.kind = k
        tag = self.atomval(tag=True, special=b"]")
        T = hx(tag)
        self.tag = tag
        self.w(tag, " ")
        simple = {"CAPA": "CAPABILITY", "NOOP": "NOOP", "LOGOUT": "LOGOUT", "CHECK": "CHECK", "CLOSE": "CLOSE", "UNSELECT": "UNSELECT", "STARTTLS": "STARTTLS"}
        if k in simple:
            self.kw(simple[k])
            if k == "UNSELECT":
                self.need.add("w:unselect")
            res = [T, simple[k]]
        elif k == "LOGIN":
            self.kw("LOGIN"); self.w(" "); a = self.astring(); self.w(" "); b = self.astring()
            res = [T, "LOGIN", a, b]
        elif k in ("AUTHP", "AUTHL"):
            import base64
            u = bytes(r.choice(b"abc@.=") if r.random() < .7 else r.randint(1, 255) for _ in range(r.randint(1, 40)))
            p = bytes(r.choice(b"xyz>?~") if r.random() < .7 else r.randint(1, 255) for _ in range(r.randint(1, 60)))
            self.kw("AUTHENTICATE"); self.w(" "); self.kw("PLAIN" if k == "AUTHP" else "LOGIN"); self.w("\r\n")
            if k == "AUTHP":
                self.w(base64.b64encode((u if r.random() < .5 else b"") + b"\0" + u + b"\0" + p))
                plus = [[None, "PLUS_REQ", hx(b"UGxhaW46")]]
            else:
                self.w(base64.b64encode(u), "\r\n", base64.b64encode(p))
                plus = [[None, "PLUS_REQ", hx(b"VXNlcm5hbWU6")], [None, "PLUS_REQ", hx(b"UGFzc3dvcmQ6")]]
            self.w("\r\n")
            return plus + [[T, "LOGIN", hx(u), hx(p)]]
        elif k in ("SELECT", "EXAMINE"):
            self.kw(k); self.w(" ")
            m = self.mailbox()
            ps = []
            if r.random() < .4:
                self.w(" (")
                for i in range(r.randint(1, 2)):
                    if i:
                        self.w(" ")
                    if r.random() < .5:
                        self.kw("CONDSTORE"); ps.append("CONDSTORE"); self.need.add("t:condstore")
                    else:
                        self.need.add("qresync")
                        self.kw("QRESYNC"); self.w(" ("); a = self.num(1); self.w(" "); b = self.modseq(1)
                        ku = sk = uv = None
                        if r.random() < .6:
                            self.w(" "); ku = self.seqset(False)
                        if r.random() < .5:
                            self.w(" (")
                            if r.random() < .8:
                                sk = self.seqset(False); self.w(" "); uv = self.seqset(False)
                            self.w(")")
                        self.w(")")
                        ps.append(["QRESYNC", a, b, ku, sk, uv])
                self.w(")")
            res = [T, k, m, ps]
        elif k in ("CREATE", "DELETE", "SUB", "UNSUB"):
            name = {"SUB": "SUBSCRIBE", "UNSUB": "UNSUBSCRIBE"}.get(k, k)
            self.kw(name); self.w(" ")
            res = [T, name, self.mailbox()]
        elif k == "RENAME":
            self.kw(k); self.w(" "); a = self.mailbox(); self.w(" ")
            res = [T, k, a, self.mailbox()]
        elif k in ("LIST", "LSUB"):
            self.kw(k); self.w(" ")
            a = self.mailbox(); self.w(" ")
            if r.random() < .5:
                v = self.atomval(special=b"%*")
                self.w(v)
            else:
                v = self.strval(); self.string(v)
            res = [T, k, a, hx(v)]
        elif k == "STATUS":
            self.kw(k); self.w(" "); a = self.mailbox(); self.w(" (")
            names = ["MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN", "HIGHESTMODSEQ"]
            bits = 0
            for i in range(r.randint(1, 4)):
                if i:
                    self.w(" ")
                j = r.randrange(6)
                if j == 5:
                    self.need.add("condstore")
                bits |= 1 << j
                self.kw(names[j])
            self.w(")")
            res = [T, k, a, bits]
        elif k == "APPEND":
            self.kw(k); self.w(" "); m = self.mailbox(); self.w(" ")
            f = None
            t = [0] * 8
            if r.random() < .6:
                f = self.flags("AFDSR"); self.w(" ")
            if r.random() < .5:
                t = self.datetime(); self.w(" ")
            v = self.strval() * r.randint(1, 5)
            self.w(Lit(v))
            res = [T, k, m, f, t, hx(v)]
        elif k == "EXPUNGE":
            self.kw(k)
            res = [T, k, None]
        elif k == "UIDEXPUNGE":
            self.kw("UID"); self.w(" "); self.kw("EXPUNGE"); self.w(" ")
            self.need.add("w:uidplus")
            res = [T, "EXPUNGE", self.seqset(False)]
        elif k in ("SEARCH", "FETCH", "STORE", "COPY"):
            u = r.random() < .5
            if u:
                self.kw("UID"); self.w(" ")
            self.kw(k); self.w(" ")
            res = [T, k, int(u)]
            if k == "SEARCH":
                cs = None
                if r.random() < .3:
                    self.kw("CHARSET"); self.w(" "); cs = self.astring(); self.w(" ")
                res += [cs, self.search_keys()]
            elif k == "FETCH":
                s = self.seqset(); self.w(" ")
                at = self.fetch_attrs()
                mods = []
                if r.random() < .3:
                    self.w(" (")
                    self.need.add("t:condstore")
                    self.kw("CHANGEDSINCE"); self.w(" "); mods.append(self.modseq(1))
                    if u and r.random() < .5:
                        self.need.add("qresync")
                        self.w(" "); self.kw("VANISHED"); mods.append("VANISHED")
                    self.w(")")
                if "M" in at[0]:
                    self.need.add("any:condstore")
                res += [s, at, mods]
            elif k == "STORE":
                s = self.seqset(); self.w(" ")
                mods = []
                if r.random() < .3:
                    self.need.add("t:condstore")
                    self.w("("); self.kw("UNCHANGEDSINCE"); self.w(" "); mods.append(self.modseq()); self.w(") ")
                sg = r.choice([-1, 0, 1])
                self.w({-1: "-", 0: "", 1: "+"}[sg]); self.kw("FLAGS")
                si = r.random() < .5
                if si:
                    self.w("."); self.kw("SILENT")
                self.w(" ")
                par = r.random() < .7
                res += [s, mods, sg, int(si), self.flags("AFDSR", par, 0 if par else 1)]
            else:
                s = self.seqset(); self.w(" ")
                res += [s, self.mailbox()]
        elif k == "ENABLE":
            self.need.add("w:enable")
            self.kw(k)
            l = []
            for _ in range(r.randint(1, 3)):
                a = self.atomval(); self.w(" ", a); l.append(hx(a))
            res = [T, k, l]
        elif k == "IDLE":
            self.need.add("a:idle")
            self.kw(k); self.w("\r\n"); self.kw("DONE"); self.w(r.choice(["\r\n", "\n"]))
            return [[T, k], [None, "IDLE_DONE", None]]
        elif k == "XKEYSYNC":
            self.need.add("xkey")
            self.kw(k)
            l = []
            for _ in range(r.randint(0, 3)):
                a = self.atomval(); self.w(" "); self.w(a); l.append(hx(a))
            self.w("\r\n"); self.kw("DONE"); self.w("\r\n")
            return [[T, k, l], [None, "XKEYSYNC_DONE", T]]
        elif k == "XKEYADD":
            self.need.add("xkey")
            self.kw(k); self.w(" ")
            res = [T, k, self.astring()]
        self.w(r.choice(["\r\n", "\r\n", "\n"]))
        return [res]

    # ---- responses
    def text(self):
        r = self.r
        while True:
            if r.random() < .5:
                t = b" ".join(self.atomval(special=b']"*') for _ in range(r.randint(1, 4)))
            else:
                t = bytes(r.choice(b'ab ()"%*]\\{}[=@;?+-.,<>:19\x01\x02\x08\x0b\x0c\x0e\x0f\x10\x1a\x1b\x1e\x1f\x7f\t') for _ in range(r.randint(1, 30)))
            if t and not t.startswith(b"["):
                return t
    def code(self):
        r = self.r
        k = r.choice("ALERT PARSE READ-ONLY READ-WRITE TRYCREATE UIDNEXT UIDVALIDITY UNSEEN PERMANENTFLAGS CAPABILITY ATOM UIDNOTSTICKY APPENDUID COPYUID NOMODSEQ HIGHESTMODSEQ MODIFIED CLOSED".split())
        self.w("[")
        if k == "ATOM":
            while True:
                a = self.atomval()
                if not any(a.lower().startswith(x.lower().encode()) for x in "ALERT PARSE READ- TRYCREATE UID UNSEEN PERM CAPA APPENDUID COPYUID NOMODSEQ HIGHEST MODIFIED CLOSED".split()):
                    break
            self.w(a)
            t = None
            if r.random() < .5:
                while True:
                    t = self.text().replace(b"]", b"")
                    if t:
                        break
                self.w(" ", t)
            out = ["ATOM", hx(a), None if t is None else hx(t)]
        else:
            self.kw(k)
            out = [k]
            if k in ("UIDNEXT", "UIDVALIDITY", "UNSEEN"):
                self.w(" "); out.append(self.num(1))
            elif k == "PERMANENTFLAGS":
                self.w(" "); out.append(self.flags("AFDSR*"))
            elif k == "CAPABILITY":
                l = []
                for _ in range(r.randint(1, 4)):
                    a = self.atomval(); self.w(" ", a); l.append(hx(a))
                out.append(l)
            elif k == "APPENDUID":
                self.w(" "); out.append(self.num(1)); self.w(" "); out.append(self.num(1))
            elif k == "COPYUID":
                self.w(" "); out.append(self.num(1)); self.w(" "); out.append(self.seqset(False)); self.w(" "); out.append(self.seqset(False))
            elif k == "HIGHESTMODSEQ":
                self.w(" "); out.append(self.modseq(1))
            elif k == "MODIFIED":
                self.w(" "); out.append(self.seqset())
            if k in ("APPENDUID", "COPYUID", "UIDNOTSTICKY"):
                self.need.add("uidplus")
            if k in ("NOMODSEQ", "HIGHESTMODSEQ", "MODIFIED"):
                self.need.add("condstore")
            if k == "CLOSED":
                self.need.add("wa:qresync")
        self.w("] ")
        return out
    def ign(self):
        """an nstring whose value is ignored"""
        if self.r.random() < .3:
            self.kw("NIL")
        else:
            self.string(self.strval())
    def response(self, kinds=None):
        r = self.r
        k = r.choice(kinds or "PLUS ST ST ST CAPA LIST LSUB STATUS FLAGS SEARCH EXISTS RECENT EXPUNGE FETCH FETCH FETCH ENABLED VANISHED XKEYSYNC".split())
        self.kind = k
        if k == "PLUS":
            self.w("+ ")
            c = self.code() if r.random() < .3 else None
            t = self.text(); self.w(t)
            res = ["PLUS", c, hx(t)]
        elif k == "ST":
            tag = None
            if r.random() < .5:
                t = self.atomval(tag=True, special=b"]"); self.w(t, " "); tag = hx(t)
            else:
                self.w("* ")
            s = r.choice("OK NO BAD PREAUTH BYE".split())
            self.kw(s); self.w(" ")
            c = self.code() if r.random() < .6 else None
            t = self.text(); self.w(t)
            res = ["STATUS_TYPE", tag, s, c, hx(t)]
        else:
            self.w("* ")
            if k in ("CAPA", "ENABLED"):
                name = {"CAPA": "CAPABILITY"}.get(k, k)
                if k == "ENABLED":
                    self.need.add("w:enable")
                self.kw(name)
                l = []
                for _ in range(r.randint(1, 4)):
                    a = self.atomval(); self.w(" ", a); l.append(hx(a))
                res = [name, l]
            elif k in ("LIST", "LSUB"):
                self.kw(k); self.w(" (")
                n = r.randint(0, 3)
                noinf, sel, ext = 0, 0, []
                for i in range(n):
                    if i:
                        self.w(" ")
                    self.w("\\")
                    j = r.randrange(5)
                    if j == 0:
                        self.kw("NoInferiors"); noinf = 1
                    elif j < 4:
                        self.kw(["Noselect", "Marked", "Unmarked"][j - 1]); sel = 7 + j
                    else:
                        while True:
                            a = self.atomval()
                            if not any(a.lower().startswith(x) for x in (b"noinf", b"nosel", b"mark", b"unmark")):
                                break
                        self.w(a); ext.append(hx(a))
                self.w(") ")
                if r.random() < .2:
                    self.kw("NIL"); sep = 0
                    self.writable = False
                else:
                    sep = r.choice(b"/.\\\"| a%#")
                    self.w('"' + ("\\" if sep in b'\\"' else "") + chr(sep) + '"')
                self.w(" ")
                m = self.mailbox()
                res = [k, [noinf, sel, ext] if n else None, sep, m]
            elif k == "STATUS":
                self.kw(k); self.w(" "); m = self.mailbox(); self.w(" (")
                names = ["MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN", "HIGHESTMODSEQ"]
                vals, bits = [0] * 6, 0
                js = r.sample(range(6), r.randint(0, 6))
                for i, j in enumerate(js):
                    if i:
                        self.w(" ")
                    self.kw(names[j]); self.w(" ")
                    bits |= 1 << j
                    vals[j] = self.modseq() if j == 5 else self.num()
                    if j == 5:
                        self.need.add("condstore")
                self.w(")")
                res = [k, m, bits, vals]
            elif k == "FLAGS":
                self.kw(k); self.w(" ")
                res = [k, self.flags("AFDSR")]
            elif k == "SEARCH":
                self.kw(k)
                l = []
                for _ in range(r.randint(0, 5)):
                    self.w(" "); l.append(self.num(1))
                ms = 0
                have = l and r.random() < .4
                if have:
                    self.need.add("condstore")
                    self.w(" ("); self.kw("MODSEQ"); self.w(" "); ms = self.modseq(1); self.w(")")
                res = [k, l, int(bool(have)), ms]
            elif k in ("EXISTS", "RECENT", "EXPUNGE"):
                n = self.num(1 if k == "EXPUNGE" else 0); self.w(" "); self.kw(k)
                res = [k, n]
            elif k == "FETCH":
                n = self.num(1); self.w(" "); self.kw(k); self.w(" (")
                fl, uid, t, rfc, ms, ex = None, 0, [0] * 8, None, 0, []
                items = r.sample(["F", "U", "I", "M", "B", "R", "RT", "RH", "RS", "E"], r.randint(0, 5))
                for i, it in enumerate(items):
                    if i:
                        self.w(" ")
                    if it == "F":
                        self.kw("FLAGS"); self.w(" "); fl = self.flags("AFDSRN") or ["", [], []]
                    elif it == "U":
                        self.kw("UID"); self.w(" "); uid = self.num(1)
                    elif it == "I":
                        self.kw("INTERNALDATE"); self.w(" "); t = self.datetime()
                    elif it == "M":
                        self.need.add("condstore")
                        self.kw("MODSEQ"); self.w(" ("); ms = self.modseq(1); self.w(")")
                    elif it == "B":
                        self.kw("BODY"); self.w("[] ")
                        if r.random() < .1:
                            self.kw("NIL"); v = b""
                        else:
                            v = self.strval() * r.randint(1, 3); self.string(v)
                        ex.append([None, -1, hx(v)])
                    elif it == "R":
                        self.kw("RFC822"); self.w(" ")
                        if r.random() < .1:
                            self.kw("NIL"); v = b""
                        else:
                            v = self.strval(); self.string(v)
                        rfc = hx(v)
                    elif it in ("RT", "RH"):
                        self.kw("RFC822." + ("TEXT" if it == "RT" else "HEADER")); self.w(" "); self.ign(); self.sloppy = True
                    elif it == "RS":
                        self.kw("RFC822.SIZE"); self.w(" "); self.num(); self.sloppy = True
                    elif it == "E":
                        self.sloppy = True
                        self.kw("ENVELOPE"); self.w(" (")
                        for j in range(10):
                            if j:
                                self.w(" ")
                            if j in (2, 3, 4, 5, 6, 7) and r.random() < .6:
                                self.w("(")
                                for _ in range(r.randint(1, 2)):
                                    self.w("("); self.ign(); self.w(" "); self.ign(); self.w(" "); self.ign(); self.w(" "); self.ign(); self.w(")")
                                self.w(")")
                            elif j in (2, 3, 4, 5, 6, 7):
                                self.kw("NIL")
                            else:
                                self.ign()
                        self.w(")")
                self.w(")")
                res = [k, n, fl, uid, t, rfc, None, None, -1, ms, ex]
            elif k == "VANISHED":
                self.need.add("qresync")
                self.kw(k); self.w(" ")
                e = r.random() < .5
                if e:
                    self.w("("); self.kw("EARLIER"); self.w(") ")
                res = [k, int(e), self.seqset(False)]
            elif k == "XKEYSYNC":
                self.need.add("xkey")
                self.kw(k); self.w(" ")
                j = r.randrange(3)
                if j == 0:
                    self.kw("OK"); res = [k, "OK"]
                elif j == 1:
                    self.kw("CREATED"); self.w(" "); res = [k, "CREATED", self.astring()]
                else:
                    self.kw("DELETED"); self.w(" "); a = self.atomval(); self.w(a); res = [k, "DELETED", hx(a)]
        self.w(r.choice(["\r\n", "\r\n", "\n"]))
        return [res]

    def wire(self):
        b = b""
        self.nlit = 0
        for p in self.out:
            if isinstance(p, Lit):
                b += b"{%d}" % len(p.data) + self.r.choice([b"\r\n", b"\r\n", b"\n"]) + p.data
                self.nlit += 1
            else:
                b += p
        return b

def make_cmd(rng, kinds=None):
    g = G(rng, True)
    exp = g.command(kinds)
    w = g.wire()
    plus = [[None, "PLUS_REQ", None]] * g.nlit
    return g, w, plus + exp

def make_resp(rng, kinds=None):
    g = G(rng, False)
    exp = g.response(kinds)
    return g, g.wire(), exp
