"""Case generators. They only produce inputs; what the outcome has to be is decided by the TLA+
specification (spec/Judge.tla)."""
import random

BASE = [1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 28, 29, 33, 35, 41, 42, 44, 45, 49, 52, 55, 61, 62, 64, 108, 109,
        249, 250, 256, 257]
DNSSEC = [43, 46, 47, 48, 59, 60]
ALL = BASE + DNSSEC
DSALG = [1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254]
DIGEST = [1, 2, 4, 5]
NAMETYPES = [2, 5, 6, 12, 14, 15, 33, 35]
PLAINTYPES = [45, 55, 64, 249, 250]


def w16(n):
    return [n >> 8 & 255, n & 255]


def w32(n):
    return [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255]


def txt(s):
    return list(s.encode())


def types_for(cf):
    return ALL if cf["d"] else BASE


class G:
    """Random values, biased to the edges."""

    def __init__(self, seed, cf):
        self.r = random.Random(seed)
        self.cf = cf
        self.pool = []
        self.fresh_pool()

    def c(self, *xs):
        return self.r.choice(xs)

    def pick(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def n16(self):
        r = self.r
        return self.pick([0, 1, 2, 127, 128, 255, 256, 257, 0x1234, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF,
                          r.randrange(65536), r.randrange(65536), r.randrange(65536)])

    def u16(self):
        return w16(self.n16())

    def u32(self):
        r = self.r
        return w32(self.pick([0, 1, 255, 256, 65535, 65536, 0x01020304, 0x7FFFFFFF, 0x80000000, 0xFF000000, 0xFFFFFFFF,
                              r.randrange(2**32), r.randrange(2**32), r.randrange(2**32)]))

    def u8(self):
        return [self.pick([0, 1, 2, 127, 128, 254, 255, self.r.randrange(256), self.r.randrange(256)])]

    def raw(self, n):
        return [self.r.randrange(256) for _ in range(n)]

    def blob(self, big=40, lo=0):
        n = self.pick([0, 1, 2, 3, 8, 20, 32, self.r.randrange(big + 1)])
        return self.shaped(max(lo, min(n, max(big, lo))))

    def shaped(self, n):
        """n octets, now and then with some regularity"""
        b = self.raw(n)
        k = self.r.randrange(24)
        if not n or k > 8:
            return b
        if k == 0:
            return [b[0]] * n
        if k == 1:
            return [self.pick([0, 255, 128, 1])] * n
        if k == 2:
            return b[:(n + 1) // 2] + b[:n // 2][::-1]
        if k == 3:
            b[-1] = b[0]
        elif k == 4:
            b[0] = 0
        elif k == 5:
            b[-1] = 0
        elif k == 6:
            b = [(b[0] + i) % 256 for i in range(n)]
        elif k == 7:
            b = [i & 1 and b[0] or b[-1] for i in range(n)]
        else:
            b = self.ascii(n)
        return b

    def ascii(self, n):
        return [self.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_ .") for _ in range(n)]

    def utf8(self, n):
        """UTF-8 text of at most n bytes"""
        if self.p(0.6):
            out = self.ascii(n)
            if n and self.p(0.15):
                out[self.pick([0, -1])] = self.pick([32, 9, 0, 10, 46, 34, 59])
            return out
        out = []
        while len(out) < n:
            ch = self.pick(["é", "ß", "日", "𝄞", "a", "\0", "~", "\x7f", "\u0080", "\u07ff", "\u0800", "\uffff", "\U0010ffff"]).encode()
            if len(out) + len(ch) > n:
                break
            out += ch
        return out

    def cs(self, n=None):
        if n is None:
            n = self.pick([0, 1, 2, 5, 17, 254, 255, self.r.randrange(256)]) if self.p(0.25) else self.r.randrange(12)
        return self.raw(n)

    # ---- names ----
    def label(self):
        x = self.r.random()
        if x < 0.62:
            n = self.pick([1, 1, 1, 2, 2, 3])
            return [self.pick(b"abc") for _ in range(n)]
        if x < 0.74:
            return [self.pick(b"abABzZ09-_") for _ in range(self.r.randrange(1, 5))]
        if x < 0.80:
            return txt(self.c("local", "Local", "www", "com", "example", "arpa"))
        if x < 0.86:
            return self.raw(self.r.randrange(1, 6))
        if x < 0.91:
            return [self.pick([0, 46, 255, 192, 12, 0xC3, 0x28, 97, 128]) for _ in range(self.r.randrange(1, 4))]
        if x < 0.95:
            return self.raw(self.pick([62, 63, 63]))
        return [self.pick(b"abc")] * self.r.randrange(4, 20)

    def fit(self, n):
        n = [l for l in n if l]
        while 1 + sum(len(l) + 1 for l in n) > 255:
            n = n[1:]
        return n

    def fresh_pool(self):
        self.pool = [[], [[97]], [[97], [98]], [[97, 98]], [[97], [98], [99]], [[97, 98], [99]], [[97], [98, 99]],
                     [[65], [98]], [[98], [97]], [txt("local")], [txt("x"), txt("local")], [[97, 46, 98]]]

    def name(self):
        x = self.r.random()
        if x < 0.05:
            return []
        if x < 0.35 and self.pool:
            return self.pick(self.pool)
        if x < 0.72 and self.pool:
            n = self.pick(self.pool)
            n = n[self.r.randrange(len(n) + 1):]
            n = self.fit([self.label() for _ in range(self.r.randrange(1, 3))] + n)
        elif x < 0.80 and self.pool:
            # variants of an earlier name that must not be confused with it
            n = [list(l) for l in self.pick(self.pool)]
            if n:
                k = self.r.randrange(6)
                i = self.r.randrange(len(n))
                if k == 0:
                    self.r.shuffle(n)
                elif k == 1:
                    n[i] = [b ^ 32 if 65 <= b & 0xDF <= 90 else b for b in n[i]]
                elif k == 2 and i + 1 < len(n) and len(n[i]) + len(n[i + 1]) < 60:
                    n[i:i + 2] = [n[i] + n[i + 1]]
                elif k == 3 and len(n[i]) > 1:
                    j = self.r.randrange(1, len(n[i]))
                    n[i:i + 1] = [n[i][:j], n[i][j:]]
                elif k == 4:
                    n = n[:i] + n[i + 1:]
                elif i + 1 < len(n) and len(n[i]) + len(n[i + 1]) < 60:
                    n[i:i + 2] = [n[i] + [46] + n[i + 1]]
                n = self.fit(n)
        elif x < 0.84:
            n = self.longname()
        else:
            n = self.fit([self.label() for _ in range(self.r.randrange(1, 5))])
        self.pool.append(n)
        if len(self.pool) > 40:
            self.pool.pop(self.r.randrange(len(self.pool)))
        return n

    def longname(self):
        """a name close to or at 255 bytes"""
        total = self.pick([255, 255, 254, 253, 200])
        n, used = [], 1
        k = self.pick([1, 7, 31, 62, 63])
        while used + 2 <= total:
            l = min(k, total - used - 1, 63)
            n.append([self.pick(b"abcxyz")] * l)
            used += l + 1
        return n

    # ---- record data ----
    def alg(self):
        return [self.r.randrange(6)]

    def bits(self, empty=True):
        ts = types_for(self.cf)
        k = self.pick([0 if empty else 1, 1, 1, 2, 3, 6, len(ts)])
        return sorted(self.r.sample(ts, k))

    def params(self):
        ps, keys = [], set()
        for _ in range(self.pick([0, 1, 1, 2, 3, 4, 6, 9])):
            k = self.pick([0, 1, 2, 3, 4, 5, 6, 65280, 65281, 65400, 65534, self.r.randrange(65280, 65535)])
            if k in keys:
                continue
            keys.add(k)
            if k == 0:
                ks = sorted(self.r.sample([1, 2, 3, 4, 5, 6, 65280, 65281, 65534], self.r.randrange(1, 5)))
                v = [w16(x) for x in ks]
            elif k == 1:
                v = [self.raw(self.pick([1, 2, 2, 5, 255])) for _ in range(self.r.randrange(1, 4))]
            elif k == 2:
                v = []
            elif k == 3:
                v = [self.u16()]
            elif k == 4:
                v = [self.raw(4)]
            elif k == 6:
                v = [self.raw(16)]
            elif k == 5:
                v = [self.blob(60, 1)]
            else:
                v = [self.blob(300 if self.p(0.1) else 20)]
            ps.append([w16(k), v])
        self.r.shuffle(ps)
        return ps

    def opts(self):
        os, keys = [], set()
        for _ in range(self.pick([0, 1, 1, 2, 3, 5])):
            k = self.n16()
            if k not in keys:
                keys.add(k)
                os.append([w16(k), self.blob(300 if self.p(0.1) else 20)])
        return sorted(os)

    def ip4(self):
        return self.pick([self.raw(4), [0, 0, 0, 0], [255] * 4, [127, 0, 0, 1], [10, 0, 0, 0], [1, 2, 3, 4], [0, 0, 0, 9]])

    def ip6(self):
        return self.pick([self.raw(16), [0] * 16, [255] * 16, [0] * 15 + [1], [0x20, 1, 13, 184] + [0] * 12, [0] * 10 + [255, 255, 1, 2, 3, 4],
                          list(range(1, 17))])

    def rdata(self, t):
        r = self.r
        nm, u16, u32, u8 = self.name, self.u16, self.u32, self.u8
        if t == 1:
            f = [self.ip4()]
        elif t in (2, 5, 12):
            f = [nm()]
        elif t == 6:
            f = [nm(), nm(), u32(), u32(), u32(), u32(), u32()]
        elif t in (10, 61):
            f = [self.blob(300 if self.p(0.1) else 40)]
        elif t == 11:
            f = [self.ip4(), u8(), self.blob()]
        elif t == 13:
            f = [self.cs(), self.cs()]
        elif t == 14:
            f = [nm(), nm()]
        elif t == 15:
            f = [u16(), nm()]
        elif t == 16:
            f = [[self.utf8(self.pick([0, 1, 3, 9, 30]) if self.p(0.85) else self.pick([254, 255, 255])) for _ in range(self.pick([1, 1, 2, 3, 5]))]]
        elif t == 28:
            f = [self.ip6()]
        elif t == 29:
            f = [[0], u8(), u8(), u8(), u32(), u32(), u32()]
        elif t == 33:
            f = [u16(), u16(), u16(), nm()]
        elif t == 35:
            f = [u16(), u16(), [self.pick(b"SAUP") for _ in range(r.randrange(5))], self.cs(), self.utf8(self.pick([0, 3, 12, 255])), nm()]
        elif t == 41:
            f = [self.opts()]
        elif t == 42:
            if self.p(0.5):
                f = [[0, 1], [r.randrange(33)], [r.randrange(2)], self.ip4()]
            else:
                f = [[0, 2], [r.randrange(129)], [r.randrange(2)], self.ip6()]
        elif t in (43, 59):
            f = [u16(), [self.pick(DSALG)], [self.pick(DIGEST)], self.blob()]
        elif t == 44:
            f = [self.alg(), [r.randrange(2)], self.blob()]
        elif t == 45:
            g = r.randrange(4)
            f = [u8(), [g], self.alg(), self.ip4() if g == 1 else self.ip6() if g == 2 else [], nm() if g == 3 else [], self.blob()]
        elif t == 46:
            f = [w16(self.pick(types_for(self.cf))), [self.pick(DSALG)], u8(), u32(), u32(), u32(), u16(), nm(), self.blob(70)]
        elif t == 47:
            f = [nm(), self.bits()]
        elif t in (48, 60):
            f = [[r.randrange(2)], [r.randrange(2)], self.pick([[3], [3], u8()]), [self.pick(DSALG)], self.blob(70)]
        elif t == 49:
            f = [w16(r.randrange(3)), self.blob()]
        elif t == 52:
            f = [[r.randrange(4)], [r.randrange(2)], [r.randrange(3)], self.blob()]
        elif t == 55:
            f = [self.alg(), self.raw(self.pick([0, 1, 16, 255])), self.blob(300 if self.p(0.1) else 30), [nm() for _ in range(self.pick([0, 0, 1, 2, 3]))]]
        elif t == 62:
            f = [u32(), w16(r.randrange(4)), self.bits()]
        elif t == 64:
            f = [u16(), nm(), self.params()]
        elif t == 108:
            f = [self.raw(6)]
        elif t == 109:
            f = [self.raw(8)]
        elif t == 249:
            f = [nm(), u32(), u32(), w16(self.pick([1, 2, 3, 4, 5, 6, 255, 256, 65280, 65534, 1 + r.randrange(65534)])), w16(r.randrange(22)), self.blob(), self.blob()]
        elif t == 250:
            f = [nm(), self.raw(6), u16(), self.blob(), u16(), w16(self.pick([0, 16, 17, 18, 22])), self.blob()]
        elif t == 256:
            f = [u16(), u16(), self.blob(300 if self.p(0.1) else 40, 1)]
        elif t == 257:
            tag = [self.pick(b"abcXYZ019") for _ in range(self.pick([1, 2, 5, 5, 15, 255]) if self.p(0.3) else 5)]
            if self.p(0.2):
                # not what a tag should be, but one that can be built
                tag[self.pick([0, -1, -1])] = self.pick([32, 9, 10, 45, 0, 46])
            f = [[r.randrange(2)], tag, self.blob()]
        else:
            raise ValueError(t)
        return {"t": t, "f": f}

    def rec(self, t=None, name=None):
        if t is None:
            t = self.pick(types_for(self.cf))
        c = self.pick([1, 1, 1, 2, 3, 4, 254, 255])
        if t == 41 and self.p(0.8):
            c = self.pick([512, 1232, 4096, 5, 32767, 256, 255])
        u = self.r.randrange(2) if self.cf["m"] else 0
        return {"n": self.name() if name is None else name, "t": t, "c": c, "u": u, "ttl": self.u32(), "d": self.rdata(t)}

    def q(self, name=None):
        return {"n": self.name() if name is None else name, "t": self.pick(types_for(self.cf) + [252, 253, 254, 255]),
                "c": self.pick([1, 1, 2, 3, 4, 254, 255]), "u": self.r.randrange(2) if self.cf["m"] else 0}

    def flags(self):
        r = self.r
        qr = r.randrange(2)
        return [qr, r.randrange(4), r.randrange(2), r.randrange(2), r.randrange(2), r.randrange(2) if qr else 0, r.randrange(11) if qr else 0]

    def packet(self, nq=None, nr=None, types=None):
        self.fresh_pool()
        k = lambda: self.pick([0, 0, 1, 1, 2, 3])
        rec = lambda: self.rec(self.pick(types) if types else None)
        return {"id": self.u16(), "fl": self.flags(), "qd": [self.q() for _ in range(k() if nq is None else nq)],
                "an": [rec() for _ in range(k() if nr is None else nr[0])],
                "ns": [rec() for _ in range(k() if nr is None else nr[1])],
                "ar": [rec() for _ in range(k() if nr is None else nr[2])]}


# ---- wire encoder used to make parser inputs -------------------------------------------------

def name_wire(n):
    out = []
    for l in n:
        if l:
            out += [len(l)] + l
    return out + [0]


class Enc:
    """Encodes messages, choosing compression pointers at random. Keeps the positions of interesting
    fields (marks) for mutation."""

    def __init__(self, g, comp=0.7):
        self.g, self.b, self.comp = g, [], comp
        self.at = {}        # suffix -> offsets
        self.marks = []     # (kind, offset, width)

    def name(self, n, comp=True):
        n = [l for l in n if l]
        i = 0
        while i < len(n):
            key = tuple(bytes(l) for l in n[i:])
            if comp and key in self.at and self.g.p(self.comp):
                o = self.g.pick(self.at[key])
                self.marks.append(("ptr", len(self.b), 2))
                # a pointer is a place to point at, too
                if len(self.b) < 16384:
                    self.at[key].append(len(self.b))
                self.b += [0xC0 | o >> 8, o & 255]
                return
            if len(self.b) < 16384:
                self.at.setdefault(key, []).append(len(self.b))
            self.marks.append(("lab", len(self.b), 1))
            self.b += [len(n[i])] + n[i]
            i += 1
        self.marks.append(("end", len(self.b), 1))
        self.b += [0]

    def put(self, kind, v):
        self.marks.append((kind, len(self.b), len(v)))
        self.b += v

    def rdata(self, d):
        t, f = d["t"], d["f"]
        nm = self.name
        put = self.put
        if t in (1, 10, 61, 28, 108, 109):
            put("f", f[0])
        elif t in (2, 5, 12):
            nm(f[0])
        elif t == 6:
            nm(f[0]); nm(f[1])
            for x in f[2:]:
                put("f", x)
        elif t == 13:
            for x in f:
                put("len", [len(x)]); put("f", x)
        elif t == 14:
            nm(f[0]); nm(f[1])
        elif t == 15:
            put("f", f[0]); nm(f[1])
        elif t == 16:
            for x in f[0]:
                put("len", [len(x)]); put("f", x)
        elif t == 33:
            for x in f[:3]:
                put("f", x)
            nm(f[3])
        elif t == 35:
            put("f", f[0]); put("f", f[1])
            put("len", [len(f[2])]); put("code", f[2])
            put("len", [len(f[3])]); put("f", f[3])
            put("len", [len(f[4])]); put("f", f[4])
            nm(f[5])
        elif t == 41:
            os = list(f[0])
            self.g.r.shuffle(os)
            for k, v in os:
                put("code", k); put("len2", w16(len(v))); put("f", v)
        elif t == 42:
            a = list(f[3])
            while a and a[-1] == 0:
                a.pop()
            put("code", f[0]); put("f", f[1]); put("len", [128 * f[2][0] + len(a)]); put("f", a)
        elif t in (11, 29, 43, 59, 44, 49, 52):
            for i, x in enumerate(f):
                put("code" if len(x) <= 2 else "f", x)
                if t == 49 and i == 0:
                    put("code", [1])
        elif t in (48, 60):
            put("f", f[0]); put("f", f[1]); put("f", f[2]); put("code", f[3]); put("f", f[4])
        elif t == 45:
            put("f", f[0]); put("code", f[1]); put("code", f[2])
            if f[1] == [3]:
                nm(f[4], False)
            else:
                put("f", f[3])
            put("f", f[5])
        elif t == 46:
            put("code", f[0]); put("code", f[1])
            for x in f[2:7]:
                put("f", x)
            nm(f[7], False); put("f", f[8])
        elif t in (47, 62):
            if t == 47:
                nm(f[0])
            else:
                put("f", f[0]); put("code", f[1])
            self.bitmap(f[-1])
        elif t == 55:
            put("len", [len(f[1])]); put("code", f[0]); put("len2", w16(len(f[2]))); put("f", f[1]); put("f", f[2])
            for n in f[3]:
                nm(n, False)
        elif t == 64:
            put("f", f[0]); nm(f[1], False)
            ps = list(f[2])
            if self.g.p(0.6):
                ps.sort()
            for k, v in ps:
                if k == [0, 1]:
                    w = sum(([len(x)] + x for x in v), [])
                else:
                    w = sum(v, [])
                put("code", k); put("len2", w16(len(w))); put("f", w)
        elif t == 249:
            nm(f[0], False)
            put("f", f[1]); put("f", f[2]); put("code", f[3]); put("code", f[4])
            for x in f[5:]:
                put("len2", w16(len(x))); put("f", x)
        elif t == 250:
            nm(f[0], False)
            put("f", f[1]); put("f", f[2]); put("len2", w16(len(f[3]))); put("f", f[3]); put("f", f[4]); put("code", f[5])
            put("len2", w16(len(f[6]))); put("f", f[6])
        elif t == 256:
            for x in f:
                put("f", x)
        elif t == 257:
            put("f", [128 * f[0][0]]); put("len", [len(f[1])]); put("f", f[1]); put("f", f[2])
        else:
            raise ValueError(t)

    def bitmap(self, ts):
        ws = sorted({t // 256 for t in ts})
        for w in ws:
            here = [t % 256 for t in ts if t // 256 == w]
            o = [0] * (max(here) // 8 + 1)
            for x in here:
                o[x // 8] |= 128 >> x % 8
            self.put("f", [w]); self.put("len", [len(o)]); self.put("f", o)

    def rec(self, r):
        self.name(r["n"])
        self.put("type", w16(r["t"]))
        self.put("class", w16(r["c"] + 32768 * r["u"]))
        self.put("f", r["ttl"])
        at = len(self.b)
        self.put("rdlen", [0, 0])
        self.rdata(r["d"])
        n = len(self.b) - at - 2
        self.b[at:at + 2] = w16(n)

    def packet(self, p):
        fl = p["fl"]
        self.put("f", p["id"])
        self.put("flags", [128 * fl[0] + 8 * fl[1] + 4 * fl[2] + 2 * fl[3] + fl[4], 128 * fl[5] + fl[6]])
        for s in ("qd", "an", "ns", "ar"):
            self.put("count", w16(len(p[s])))
        for q in p["qd"]:
            self.name(q["n"])
            self.put("type", w16(q["t"]))
            self.put("class", w16(q["c"] + 32768 * q["u"]))
        for s in ("an", "ns", "ar"):
            for r in p[s]:
                self.rec(r)
        return self.b


def mutate(g, b, marks, kinds=None):
    """One change to a message; returns (bytes, group)."""
    b = list(b)
    if not b:
        return g.raw(1), ""
    r = g.r
    ms = [m for m in marks if kinds is None or m[0] in kinds] or marks
    k, o, w = g.pick(ms)
    grp = {"ptr": "C06", "lab": "C06", "end": "C06", "rdlen": "C10", "count": "C11", "type": "C13", "class": "C15", "code": "C13"}.get(k, "")
    x = r.random()
    if k in ("rdlen", "count", "len2") and w == 2:
        v = b[o] * 256 + b[o + 1]
        v = g.pick([v + 1, v - 1, v + 2, v - 2, 0, v + 256, 65535, len(b), v * 2, r.randrange(30)]) & 65535
        b[o:o + 2] = w16(v)
    elif k in ("len", "lab"):
        v = b[o]
        b[o] = g.pick([v + 1, v - 1, 0, 255, 63, 64, v | 192, v ^ 128, r.randrange(256)]) & 255
    elif k == "ptr":
        v = (b[o] & 63) * 256 + b[o + 1]
        v = g.pick([o, o + 2, v + 1, v - 1, 0, 11, 12, len(b) - 1, len(b), 16383, r.randrange(max(1, len(b)))]) & 16383
        b[o:o + 2] = [192 | v >> 8, v & 255]
    elif k == "type":
        b[o:o + 2] = w16(g.pick(ALL + [0, 3, 252, 255, 41, 65535, 258, r.randrange(65536)]))
    elif k == "class":
        b[o:o + 2] = w16(g.pick([0, 1, 2, 3, 4, 5, 254, 255, 256, 32768, 32769, 33022, 33023, 65535, r.randrange(65536)]))
    elif w == 0:
        i = r.randrange(len(b))
        b[i] = r.randrange(256)
        grp = ""
    elif x < 0.5:
        i = o + r.randrange(w)
        b[i] = g.pick([0, 1, 255, 128, 192, b[i] ^ 1, b[i] ^ 128, r.randrange(256)])
    elif x < 0.75:
        i = o + r.randrange(w)
        b[i] ^= 1 << r.randrange(8)
    elif x < 0.88:
        b.insert(o, r.randrange(256))
        grp = ""
    else:
        del b[o]
        grp = ""
    return b, grp
