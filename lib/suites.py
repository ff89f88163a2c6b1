"""Suites of cases. A suite is a function of (x, n): x.g is the value generator, x.cf the feature
configuration, x.tlc(cfg) what the specification generated, n the size. Suites choose inputs only; all
judging is done by the specification."""
import json
import os
import random
import resource
import shutil
import subprocess
import tempfile
from collections import deque

from gen import ALL, BASE, DIGEST, DNSSEC, DSALG, Enc, G, NAMETYPES, mutate, name_wire, txt, types_for, w16, w32

HERE = os.path.dirname(os.path.abspath(__file__))


class X:
    def __init__(self, cfname, cf, seed, gen, tier, binary=None):
        self.bin = binary         # harness, for suites that look for inputs with it
        self.name, self.cf, self.seed, self.tier = cfname, cf, seed, tier
        self.gen = gen            # config -> list of generated values
        self.g = G(seed, cf)

    def tlc(self, c):
        return self.gen[c]

    def sample(self, xs, n):
        return list(xs) if len(xs) <= n else self.g.r.sample(xs, n)


def case(k, c, g=""):
    return {"k": k, "g": g, "c": c}


def enc(p, how=0, px=0, g=""):
    return case("enc", {"p": p, "how": how % 4, "px": px}, g)


def dec(b, g=""):
    return case("dec", {"b": b}, g)


def pkt(qd=(), an=(), ns=(), ar=(), id=(18, 52), fl=(1, 0, 0, 0, 1, 1, 0)):
    return {"id": list(id), "fl": list(fl), "qd": list(qd), "an": list(an), "ns": list(ns), "ar": list(ar)}


def rec(n, d, c=1, u=0, ttl=(0, 0, 1, 44)):
    return {"n": n, "t": d["t"], "c": c, "u": u, "ttl": list(ttl), "d": d}


def q(n, t=1, c=1, u=0):
    return {"n": n, "t": t, "c": c, "u": u}


# ---- packets that are built and written -------------------------------------------------------

def enc_rand(x, n):
    return [enc(x.g.packet(), i, 1 if i % 2 else 0) for i in range(n)]


def enc_types(x, n):
    """n packets around every record type"""
    out, g = [], x.g
    for t in types_for(x.cf):
        for i in range(n):
            p = g.packet(nq=g.r.randrange(2), nr=(1 + g.r.randrange(2), g.r.randrange(2), g.r.randrange(2)), types=[t, t, t, g.pick(types_for(x.cf))])
            p["an"][0] = g.rec(t)
            out.append(enc(p, i, 1 if i % 3 == 0 else 0))
    return out


def enc_small(x, n):
    """the values of the specification's value set"""
    ok = set(types_for(x.cf))
    vs = [v for v in x.tlc("Gen_Rdata") if v["t"] in ok and (v["t"] != 62 or set(v["f"][2]) <= ok)]
    x.g.r.shuffle(vs)
    out, g = [], x.g
    for i in range(0, len(vs), 3):
        g.fresh_pool()
        rs = [rec(g.name(), {"t": v["t"], "f": v["f"]}, ttl=g.u32(), u=g.r.randrange(2) if x.cf["m"] else 0) for v in vs[i:i + 3]]
        k = g.r.randrange(3)
        secs = [rs[:1], rs[1:2], rs[2:]]
        secs = secs[k:] + secs[:k]
        out.append(enc(pkt([g.q()] if i % 2 else [], *secs, id=g.u16(), fl=g.flags()), i // 3, i % 2))
        if len(out) >= n:
            break
    return out


def name_rec(g, n, owner):
    t = g.pick(NAMETYPES + ([47] if g.cf["d"] else []))
    d = g.rdata(t)
    for i, f in enumerate(d["f"]):
        if t in (2, 5, 12) or (t in (6, 14) and i < 2) or (t == 15 and i == 1) or (t == 33 and i == 3) or (t == 35 and i == 5) or (t == 47 and i == 0):
            d["f"][i] = n
    return rec(owner, d)


def enc_comp(x, n):
    """name plans of the specification: the names appear as question, owner and data names"""
    plans = x.sample(x.tlc("Gen_Comp"), n)
    out, g = [], x.g
    for i, pl in enumerate(plans):
        pl = [list(a) for a in pl]
        k = i % 4
        if k == 0:
            p = pkt([q(a) for a in pl])
        elif k == 1:
            p = pkt([q(pl[0])], [rec(a, {"t": 1, "f": [[1, 2, 3, 4]]}) for a in pl[1:]])
        elif k == 2:
            p = pkt([], [name_rec(g, pl[1], pl[0]), name_rec(g, pl[-1], pl[2 % len(pl)])])
        else:
            p = pkt([q(pl[0])], [name_rec(g, pl[1], pl[0])], [name_rec(g, pl[2 % len(pl)], pl[1])], [name_rec(g, pl[0], pl[-1])])
        out.append(enc(p, i, 1))
    return out


def enc_names(x, n):
    """many near-colliding names in one packet"""
    out, g = [], x.g
    for i in range(n):
        g.fresh_pool()
        k = g.pick([2, 4, 6, 10])
        rs = []
        for _ in range(k):
            a = g.rec(g.pick(NAMETYPES + [1, 16]))
            rs.append(a)
        c = g.r.randrange(k + 1)
        d = g.r.randrange(c, k + 1)
        out.append(enc(pkt([g.q() for _ in range(g.r.randrange(4))], rs[:c], rs[c:d], rs[d:], id=g.u16(), fl=g.flags()), i, 0))
    return out


def enc_plainnames(x, n):
    """types whose names stay spelled out, behind names they could be compressed against"""
    out, g = [], x.g
    ts = [45, 55, 64, 249, 250] + ([46] if x.cf["d"] else [])
    for i in range(n):
        g.fresh_pool()
        a = g.name() or [[97], [98]]
        b = [[120]] + a if len(name_wire(a)) < 250 else a
        rs = []
        for _ in range(g.pick([1, 2, 3])):
            t = g.pick(ts)
            d = g.rdata(t)
            j = {45: 4, 46: 7, 55: 3, 64: 1, 249: 0, 250: 0}[t]
            nm = g.pick([a, b, b, g.name()])
            if t == 45:
                d["f"][1], d["f"][3], d["f"][4] = [3], [], nm
            elif t == 55:
                d["f"][3] = [nm, g.pick([a, b])]
            else:
                d["f"][j] = nm
            rs.append(rec(g.pick([a, b]), d))
        # and names written behind them, which may or may not point into them
        rs.append(name_rec(g, g.pick([a, b]), g.pick([a, b])))
        out.append(enc(pkt([q(a)] if g.p(0.7) else [], rs), i, 0))
    return out


def enc_big(x, n):
    """packets beyond 16 KiB: names right at, before and behind offset 16384"""
    out, g = [], x.g
    for i in range(n):
        g.fresh_pool()
        a, b, c = [txt("alpha"), txt("beta"), txt("gamma")], [txt("delta"), txt("beta"), txt("gamma")], [txt("z"), txt("y")]
        # header 12, question (name of 1 label) 5+4, record owner 5 + 10 + filler
        first = [[113, 113, 113]]
        qd = [q(first)]
        at = 12 + 5 + 4
        fill = []
        target = 16384 + [-40, -20, -12, -8, -7, -6, -2, -1, 0, 1, 2, 6, 40][i % 13]
        own = [[102]]
        need = target - at
        step = 9000
        k = 0
        while need > 0:
            head = (3 if k == 0 else 2) + 10     # owner spelled out first, then a pointer
            m = min(step, need - head)
            if m < 0:
                break
            if 0 < need - head - m < 12:
                m -= 12
            fill.append(rec(own, {"t": 10, "f": [[(k * 7 + j) % 256 for j in range(m)]]}))
            need -= head + m
            k += 1
        rs = fill + [name_rec(g, b, a), name_rec(g, a, b), rec(a, {"t": 1, "f": [[1, 2, 3, 4]]}), name_rec(g, c, first),
                     rec(c, {"t": 5, "f": [a]}), rec(b, {"t": 5, "f": [c]}), rec(own, {"t": 5, "f": [first]})]
        out.append(enc(pkt(qd, rs), i, 0))
    return out


def enc_many(x, n):
    """more than 255 entries in a section"""
    out, g = [], x.g
    for i in range(n):
        g.fresh_pool()
        k = [256, 257, 300, 511][i % 4]
        ns = [[[97 + j % 5, 97 + j // 5 % 26]] for j in range(12)]
        a = {"t": 1, "f": [[10, 0, 0, 1]]}
        s = [[], [], [], []]
        if i % 4 == 0:
            s[0] = [q(ns[j % 12]) for j in range(k)]
        else:
            s[i % 4] = [rec(ns[j % 12], a) for j in range(k)]
        s[(i + 1) % 4] = [q(ns[0])] if (i + 1) % 4 == 0 else [rec(ns[1], a)]
        out.append(enc(pkt(*s), i, 0))
    return out


def enc_count(x, n):
    """sections of very many minimal entries"""
    out, g = [], x.g
    cs = [(s, m) for m in (1025, 2049, 4097, 513) for s in range(4)]
    a = {"t": 10, "f": [[]]}
    for i in range(n):
        s, m = cs[(i + x.seed) % len(cs)]
        k = [g.pick([0, 1, 2]) for _ in range(4)]
        k[s] = m + g.pick([0, 0, 3])
        out.append(enc(pkt([q([]) for _ in range(k[0])], *[[rec([], a) for _ in range(v)] for v in k[1:]]), i, 0))
    return out


def enc_wide(x, n):
    """values that need the high byte of a length field"""
    out, g = [], x.g
    for i in range(n):
        g.fresh_pool()
        t = [10, 61, 256, 257, 16, 64, 41, 249, 250, 55, 44, 52, 11][i % 13]
        d = g.rdata(t)
        m = g.pick([256, 257, 511, 512, 1000, 4096])
        big = g.raw(m)
        f = d["f"]
        if t in (10, 61):
            f[0] = big
        elif t in (256, 257, 44, 11):
            f[2] = big
        elif t == 52:
            f[3] = big
        elif t == 16:
            f[0] = [g.ascii(g.pick([255, 254, 200])) for _ in range(g.pick([2, 3, 5]))]
        elif t == 64:
            f[2] = [[w16(65280 + g.r.randrange(200)), [big]]] + ([[w16(5), [g.raw(300)]]] if g.p(0.5) else [])
        elif t == 41:
            f[0] = [[w16(3), big], [w16(258), g.raw(5)]]
        elif t == 249:
            f[5 + i % 2] = big
        elif t == 250:
            f[3 if i % 2 else 6] = big
        elif t == 55:
            f[2] = big
        out.append(enc(pkt([g.q()], [rec(g.name(), d), g.rec(1)]), i, 0))
    return out


def enc_mdns(x, n):
    out, g = [], x.g
    us = [0, 1] if x.cf["m"] else [0]
    for i in range(n):
        g.fresh_pool()
        qs = [q(g.name(), g.q()["t"], c, u) for c in g.r.sample([1, 2, 3, 4, 254, 255], 3) for u in us]
        rs = []
        for c in g.r.sample([1, 2, 3, 4, 5, 512, 4096, 32767, 16384, 255, 254], 3):
            for u in us:
                r = g.rec(g.pick([1, 12, 16, 28, 33, 41] + types_for(x.cf)))
                r["c"], r["u"] = c, u
                rs.append(r)
        g.r.shuffle(rs)
        g.r.shuffle(qs)
        k = g.r.randrange(4)
        out.append(enc(pkt(qs[:3], rs[:k], rs[k:4], rs[4:], fl=g.flags()), i, 0, "C15"))
    return out


def enc_mdns_far(x, n):
    """flags of entries far behind the start, and of many entries"""
    out, g = [], x.g
    u = lambda: g.r.randrange(2) if x.cf["m"] else 0
    for i in range(n):
        g.fresh_pool()
        fill = {"t": 10, "f": [g.raw(g.pick([200, 500, 1000, 4000, 16300, 16384, 17000, 33000, 60000]))]}
        secs = [[], [], []]
        if i % 3 == 2:
            k = g.pick([20, 65, 130, 257])
            secs[g.r.randrange(3)] = [rec([[97 + j % 7]], {"t": 1, "f": [[1, 2, 3, j % 256]]}, 1, u()) for j in range(k)]
        else:
            secs[g.r.randrange(3)] = [rec([[97]], fill, 1, u())]
        for s in secs:
            for _ in range(g.pick([0, 1, 2])):
                r = g.rec(g.pick([1, 12, 16, 28, 33, 41] + types_for(x.cf)))
                r["u"] = u()
                s.append(r)
        qs = [q(g.name(), g.q()["t"], g.pick([1, 255]), u()) for _ in range(g.pick([1, 2, 9, 40]))]
        out.append(enc(pkt(qs, *secs, fl=g.flags()), i, 0, "C15"))
    return out


# ---- bytes that are read ------------------------------------------------------------------------

def wire(x, p, comp=0.7):
    e = Enc(x.g, comp)
    return e.packet(p), e.marks


def dec_valid(x, n):
    return [dec(wire(x, x.g.packet())[0]) for _ in range(n)]


def dec_types(x, n, g=""):
    """n messages around every type, followed by another record"""
    out = []
    for t in types_for(x.cf):
        for _ in range(n):
            gg = x.g
            p = gg.packet(nq=gg.r.randrange(2), nr=(1, 0, 1), types=[1, 5, 16])
            p["an"] = [gg.rec(t)]
            out.append(dec(wire(x, p, gg.pick([0, 0.7, 1]))[0], g))
    return out


def dec_mut(x, n, kinds=None, per=3):
    out, g = [], x.g
    while len(out) < n:
        p = g.packet()
        b, ms = wire(x, p)
        for _ in range(per):
            m, gr = mutate(g, b, ms, kinds)
            if g.p(0.15):
                m, gr = mutate(g, m, [z for z in ms if z[1] + z[2] <= len(m)] or [("f", 0, 2)], None)
            out.append(dec(m, gr))
    return out[:n]


def dec_frame(x, n):
    """every type with its length field shortened and lengthened, other records behind it"""
    out, g = [], x.g
    for t in types_for(x.cf):
        for _ in range(n):
            p = g.packet(nq=g.r.randrange(2), nr=(1, 0, 0), types=[t])
            tail = g.pick([[1, 1], [16], [1, 5, 10], []])
            p["ar"] = [g.rec(z) for z in tail]
            b, ms = wire(x, p, g.pick([0, 0.5]))
            o = next(m[1] for m in ms if m[0] == "rdlen")
            v = b[o] * 256 + b[o + 1]
            for dv in g.r.sample([-1, -2, -3, -v, 1, 2, 4, 11, 256, -v // 2], 3):
                if 0 <= v + dv < 65536:
                    c = list(b)
                    c[o:o + 2] = w16(v + dv)
                    out.append(dec(c, "C10"))
                    # the same with the bytes moved, so that the framing is consistent again
                    if g.p(0.5):
                        d = list(b)
                        d[o:o + 2] = w16(v + dv)
                        if dv > 0 and dv < 300:
                            d[o + 2 + v:o + 2 + v] = g.raw(dv)
                        elif dv < 0:
                            del d[o + 2 + v + dv:o + 2 + v]
                        out.append(dec(d, "C10"))
    return out


def dec_tail(x, n):
    """every type with many octets behind what the type defines, records of other types behind it"""
    out, g = [], x.g
    for i, t in enumerate(types_for(x.cf) * n):
        p = g.packet(nq=g.r.randrange(2), nr=(1, 0, 0), types=[t])
        p["an"] = [g.rec(z) for z in g.pick([[], [1], [15]])] + p["an"]
        k = len(p["an"]) - 1
        p["ns"], p["ar"] = [g.rec(1)], [g.rec(z) for z in g.pick([[2, 16], [28], [1, 1]])]
        b, ms = wire(x, p, g.pick([0, 0]))
        o = [m[1] for m in ms if m[0] == "rdlen"][k]
        v = b[o] * 256 + b[o + 1]
        # ones are the labels of a name from whatever place they are read, and that name goes on in the next record
        d = g.r.randrange(128, 350)
        for dv, fill in ((g.r.randrange(2, 128), 1), (d, 1), (d + 1, 1), (g.pick([256, 511, 512, 600]), g.pick([0, 1, 192]))):
            c = list(b)
            c[o:o + 2] = w16(v + dv)
            c[o + 2 + v:o + 2 + v] = [fill] * dv
            out.append(dec(c, "C10"))
    return out


def dec_counts(x, n):
    """messages whose counts do not match, prefixes and messages with trailing bytes"""
    out, g = [], x.g
    while len(out) < n:
        p = g.packet()
        b, ms = wire(x, p)
        for _ in range(3):
            s = g.r.randrange(4)
            c = list(b)
            v = c[4 + 2 * s] * 256 + c[5 + 2 * s]
            v = g.pick([v + 1, v - 1, 0, 256, 257, v + 256, 65535]) & 65535
            c[4 + 2 * s:6 + 2 * s] = w16(v)
            out.append(dec(c, "C11"))
        s, t = g.r.sample(range(4), 2)     # counts exchanged between two sections
        c = list(b)
        c[4 + 2 * s:6 + 2 * s], c[4 + 2 * t:6 + 2 * t] = b[4 + 2 * t:6 + 2 * t], b[4 + 2 * s:6 + 2 * s]
        out.append(dec(c, "C11"))
        for _ in range(4):
            out.append(dec(b[:g.r.randrange(len(b))], "C11"))
        out.append(dec(b[:-1], "C11"))
        out.append(dec(b + g.raw(g.pick([1, 2, 10, 30])), "C11"))
        # a second message behind the first
        out.append(dec(b + wire(x, g.packet())[0], "C11"))
    return out[:n]


def dec_prefix(x, n):
    """every prefix of valid messages"""
    out = []
    g = x.g
    ts = types_for(x.cf)
    i = 0
    while len(out) < n:
        p = g.packet(nq=1, nr=(1, 0, 0), types=[ts[i % len(ts)]])
        i += 1
        b = wire(x, p)[0]
        if len(b) < 160:
            out += [dec(b[:k], "C11") for k in range(len(b))]
    return out


def header(qd=0, an=0, ns=0, ar=0, w=(0, 0)):
    return [0, 7, *w, *w16(qd), *w16(an), *w16(ns), *w16(ar)]


def dec_adv(x, n):
    """hostile messages"""
    g, out = x.g, []
    P = lambda o: [192 | o >> 8, o & 255]
    # pointers to themselves, to each other, forward, to the header, to the end
    for ptr in ([12], [13], [14], [0], [2], [11], [16], [18], [16383], [22]):
        out.append(dec(header(1) + P(ptr[0]) + [0, 1, 0, 1], "C06"))
        out.append(dec(header(1) + [1, 97] + P(ptr[0]) + [0, 1, 0, 1], "C06"))
        out.append(dec(header(2) + [1, 97, 0, 0, 1, 0, 1] + P(ptr[0]) + [0, 1, 0, 1], "C06"))
    out.append(dec(header(2) + P(18) + [0, 1, 0, 1] + P(12) + [0, 1, 0, 1], "C06"))
    for k in (2, 10, 100, 120, 124, 127, 128, 200, 400):
        # a chain of k pointers, each to the one before
        b = header(0, 1) + [0, 0, 10, 0, 1, 0, 0, 0, 0] + w16(3 + 2 * k)
        at = len(b)
        b += [1, 97, 0]
        prev = at
        for j in range(k):
            here = len(b)
            b += P(prev)
            prev = here
        b[10:12] = w16(1)
        out.append(dec(b + P(prev) + [0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4], "C06"))
        # names that grow label by label
        b = header(k)
        prev = None
        for j in range(k):
            here = len(b)
            b += [1, 97] + (P(prev) if prev is not None else [0]) + [0, 1, 0, 1]
            prev = here
        out.append(dec(b, "C06"))
    # names of exactly 255 and of 256 bytes, in one piece and behind a pointer
    for tot in (253, 254, 255, 256, 257):
        for lab in (63, 7):
            n_, used = [], 1
            while used + 2 <= tot:
                l = min(lab, tot - used - 1)
                if tot - used - 1 - l == 1:
                    l -= 1
                n_.append([97] * l)
                used += l + 1
            w = name_wire(n_)
            out.append(dec(header(1) + w + [0, 1, 0, 1], "C06"))
            # last half first, then a pointer to it
            h = len(n_) // 2
            b = header(2) + name_wire(n_[h:]) + [0, 1, 0, 1] + name_wire(n_[:h])[:-1] + P(12) + [0, 1, 0, 1]
            out.append(dec(b, "C06"))
    # counts without entries
    for s in range(4):
        for v in (1, 255, 256, 65535):
            c = [0, 0, 0, 0]
            c[s] = v
            out.append(dec(header(*c), "C11"))
    out.append(dec(header(65535, 65535, 65535, 65535), "C11"))
    out.append(dec(header(65535, 65535, 65535, 65535) + [0] * 400, "C11"))
    # every type with hostile data
    for t in range(0, 262):
        out.append(dec(header(0, 1) + [0] + w16(t) + [0, 1, 0, 0, 0, 0] + w16(0), "C01"))
    for t in types_for(x.cf):
        for d in ([0], [255], [192, 12], [0] * 40, [255] * 40, [192] * 30, [0, 255] * 20, [63] * 70, [1] * 50):
            out.append(dec(header(0, 1) + [0] + w16(t) + [0, 1, 0, 0, 0, 0] + w16(len(d)) + d, "C01"))
    while len(out) < n:
        k = g.r.randrange(6)
        if k == 0:
            out.append(dec(g.raw(g.r.randrange(80)), "C01"))
        elif k == 1:
            out.append(dec(header(*[g.r.randrange(3) for _ in range(4)]) + g.raw(g.r.randrange(100)), "C01"))
        elif k == 2:
            out.append(dec(header(*[g.r.randrange(3) for _ in range(4)]) + [g.pick([0, 0, 1, 2, 12, 63, 64, 128, 191, 192, 193, 255, 16]) for _ in range(g.r.randrange(80))], "C01"))
        elif k == 3:
            t = g.pick(types_for(x.cf))
            d = g.raw(g.r.randrange(60))
            out.append(dec(header(0, 1) + [0] + w16(t) + [0, 1, 0, 0, 0, 0] + w16(len(d)) + d, "C01"))
        elif k == 4:
            b, ms = wire(x, g.packet())
            for _ in range(g.pick([2, 4, 8])):
                b, _ = mutate(g, b, [m for m in ms if m[1] + m[2] <= len(b)] or [("f", 0, 1)])
            out.append(dec(b, "C01"))
        else:
            b = header(1, 1, 1, 1) + g.raw(3)
            while len(b) < 200:
                b += g.pick([[0], [192, 12], [192, g.r.randrange(200)], [1, 97], [0, 1, 0, 1], g.raw(3), w16(g.pick(ALL)), [0, 0, 0, 5]])
            out.append(dec(b, "C01"))
    return out[:max(n, 0)] if n < len(out) else out


def dec_count(x, n):
    """a section of very many minimal entries, exactly as announced, one less, one more, or one byte short"""
    out, g = [], x.g
    one = [0, 0, 10, 0, 1, 0, 0, 0, 0, 0, 0]
    cs = [(s, m) for m in (1025, 2049, 513, 4097, 257, 5900) for s in range(4)]
    for i in range(n):
        s, m = cs[i % len(cs)]
        k = [g.pick([0, 1, 3]) for _ in range(4)]
        k[s] = m + g.pick([0, 0, 1, 7])
        part = [[0, 0, 1, 0, 1] * k[0]] + [one * v for v in k[1:]]
        b = header(*k) + sum(part, [])
        out.append(dec(b, "C11"))
        if i < 4 or i % 3 == 0:
            out.append(dec(b[:-1], "C11"))
    return out


def dec_long(x, n):
    """large messages"""
    g, out = x.g, []
    for i in range(n):
        k = i % 4
        if k == 0:
            # thousands of minimal questions
            m = g.pick([1000, 2500])
            out.append(dec(header(m) + [0, 0, 1, 0, 1] * m, "C01"))
        elif k == 1:
            m = 400
            w = name_wire(g.longname())
            out.append(dec(header(m) + w + [0, 1, 0, 1] + ([192, 12] + [0, 1, 0, 1]) * (m - 1), "C01"))
        elif k == 2:
            out.append(dec(header(0, 1) + [0, 0, 10, 0, 1, 0, 0, 0, 0, 255, 255] + [7] * (65535 - g.pick([0, 0, 1, 300])), "C10"))
        else:
            # a pointer target beyond one byte of offset, and at the top of the range
            pad = g.pick([300, 5000, 16384 - 12 - 11 - 1 - 12, 16384, g.r.randrange(16384), g.r.randrange(16384)])
            d = [3] * pad
            b = header(1, 2) + [0, 0, 1, 0, 1] + [0, 0, 10, 0, 1, 0, 0, 0, 0] + w16(pad) + d
            at = len(b)
            b += [1, 98, 0, 0, 5, 0, 1, 0, 0, 0, 0]
            if at < 16384:
                b += [0, 4, 1, 99] + [192 | at >> 8, at & 255]
            else:
                b += [0, 5, 1, 99, 1, 98, 0]
            out.append(dec(b, "C06"))
    return out


def dec_mdns(x, n):
    """class fields with the top bit"""
    g, out = x.g, []
    for i in range(n):
        p = g.packet(nq=g.r.randrange(1, 3), nr=(1, 1, 1))
        for s in ("qd", "an", "ns", "ar"):
            for r in p[s]:
                r["u"] = g.r.randrange(2)
                if s != "qd" and g.p(0.5):
                    r["c"] = g.pick([1, 2, 3, 4, 254, 255, 0, 5, 512, 1232, 4096, 32767])
        out.append(dec(wire(x, p)[0], "C15"))
    for c in list(range(0, 8)) + [253, 254, 255, 256, 512, 32766, 32767]:
        for u in (0, 1):
            v = w16(c + 32768 * u)
            out.append(dec(header(1) + [1, 97, 0, 0, 1] + v, "C15"))
            out.append(dec(header(0, 1) + [1, 97, 0, 0, 1] + v + [0, 0, 0, 9, 0, 4, 1, 2, 3, 4], "C15"))
            out.append(dec(header(0, 0, 0, 1) + [0, 0, 41] + v + [0, 0, 0, 9, 0, 4, 0, 10, 0, 0], "C15"))
    return out


# ---- record data on its own -----------------------------------------------------------------------

def rd(t, d, pre=(), post=(), g=""):
    return case("rd", {"t": t, "pre": list(pre), "d": list(d), "post": list(post)}, g)


def rd_wire(x, d, comp=0):
    e = Enc(x.g, comp)
    e.rdata(d)
    return e.b, e.marks


def rd_small(x, n):
    """the specification's own values: read, and cut at every position with other bytes behind"""
    vs = [v for v in x.tlc("Gen_Rdata") if v["t"] in types_for(x.cf)]
    out, g = [], x.g
    for v in x.sample(vs, n):
        w = v["w"]
        out.append(rd(v["t"], w, g.raw(g.r.randrange(4)), g.raw(2)))
        ks = range(len(w)) if len(w) < 12 else sorted(g.r.sample(range(len(w)), 8))
        for k in ks:
            out.append(rd(v["t"], w[:k], [0], w[k:] + [0, 0, 0]))
        out.append(rd(v["t"], w + g.raw(g.pick([1, 2, 4])), [], []))
    return out


def rd_types(x, n):
    out, g = [], x.g
    for t in types_for(x.cf):
        for _ in range(n):
            g.fresh_pool()
            d = g.rdata(t)
            w, ms = rd_wire(x, d)
            if len(w) > 600:
                continue
            out.append(rd(t, w, g.raw(g.r.randrange(3)), g.raw(g.r.randrange(3))))
            if w:
                k = g.r.randrange(len(w))
                out.append(rd(t, w[:k], [], w[k:] + [0, 0]))
                out.append(rd(t, w[:-1], [], w[-1:] + [1, 97, 0]))
            out.append(rd(t, w + g.raw(g.pick([1, 2, 3, 5])), [0], [0]))
            if ms:
                for _ in range(2):
                    m, gr = mutate(g, w, ms)
                    out.append(rd(t, m, [], g.raw(3), gr))
    return out


def rd_octets(x, n):
    """n other values in each of the first octets of data of every type, also with more octets behind it"""
    out, g = [], x.g
    for t in types_for(x.cf):
        for _ in range(20):
            d = g.rdata(t)
            w = rd_wire(x, d)[0]
            if 4 <= len(w) <= 40 and not (t in (11, 55) and len(w) < 8):
                break
        at = list(range(min(len(w), 14))) + ([len(w) - 1] if len(w) > 14 else [])
        for i in at:
            for k in range(n):
                o = w[i]
                v = g.pick([o ^ 1, o ^ 2, o ^ 64, o ^ 128, o | 1, o | 128, o + 1, o - 1, o + 2, o + 16, 0, 1, 17, 127, 128, 129, 255, 254, g.r.randrange(256)]) & 255
                b = list(w)
                b[i] = v
                if k % 3 == 1:
                    b += g.raw(g.pick([1, 13, 20, 40]))
                if k % 3 == 2:
                    j = g.pick(at)
                    b[j] = g.pick([b[j] ^ 128, b[j] ^ 1, b[j] | 128, 255, 0])
                out.append(rd(t, b, [], g.raw(3)))
    return out


def rd_lengths(x, n):
    """lengths inside the data changed together with the octets they announce"""
    out, g = [], x.g
    for t in types_for(x.cf):
        done = 0
        for _ in range(6 * n):
            w, ms = rd_wire(x, g.rdata(t))
            ms = [m for m in ms if m[0] in ("len", "len2", "lab")]
            if not ms:
                continue
            k, o, wd = g.pick(ms)
            old = w[o] if wd == 1 else w[o] * 256 + w[o + 1]
            top = 127 if t == 42 else 255 if wd == 1 else 65535
            low = old % 128 if t == 42 else old
            v = g.pick([low + 1, low + 2, low + 4, 5, 6, 16, 17, 18, 32, 33, 63, 64, 127, 128, 254, 255, 256, low - 1, low - 2, 0, g.r.randrange(top + 1) % 400])
            if v < 0 or v > top or v == low or (k == "lab" and v > 63):
                continue
            b = list(w)
            if v > low:
                b[o + wd:o + wd] = g.shaped(v - low)
            else:
                del b[o + wd:o + wd + low - v]
            b[o:o + wd] = [v + old - low] if wd == 1 else w16(v)
            out.append(rd(t, b, [], g.raw(2)))
            done += 1
            if done >= n:
                break
    return out


def rd_codes(x, n):
    """every number in every code field of every type"""
    out, g = [], x.g
    for t in types_for(x.cf):
        d = g.rdata(t)
        if t == 35:
            d["f"][2] = [83]
        if t == 41:
            continue
        w, ms = rd_wire(x, d)
        if len(w) > 200:
            w, ms = rd_wire(x, g.rdata(t))
        for k, o, wd in ms:
            if k != "code" or wd == 0:
                continue
            vals = range(256) if wd == 1 else sorted(set(list(range(0, 30)) + [254, 255, 256, 257, 258, 511, 512, 513, 32768, 65279, 65280, 65281, 65534, 65535] + [g.r.randrange(65536) for _ in range(10)]))
            if n < 256 and wd == 1:
                vals = sorted(set(list(range(0, 20)) + [65, 80, 83, 85, 127, 128, 129, 250, 251, 252, 253, 254, 255] + [g.r.randrange(256) for _ in range(6)]))
            for v in vals:
                b = list(w)
                b[o:o + wd] = [v] if wd == 1 else w16(v)
                out.append(rd(t, b, [], [], "C13"))
    return out


def rd_names(x, n):
    """compressed names inside record data"""
    out, g = [], x.g
    ts = NAMETYPES + ([47] if x.cf["d"] else [])
    for i in range(n):
        g.fresh_pool()
        e = Enc(g, 0.8)
        for _ in range(g.pick([1, 2])):
            e.name(g.name())
        pre = list(e.b)
        e.marks = []
        t = ts[i % len(ts)]
        e.rdata(g.rdata(t))
        d = e.b[len(pre):]
        out.append(rd(t, d, pre, g.raw(2), "C06"))
        if d:
            k = g.r.randrange(len(d))
            out.append(rd(t, d[:k], pre, d[k:] + [0, 0], "C06"))
        ms = [(k, o - len(pre), w) for k, o, w in e.marks]
        ms = [m for m in ms if m[0] in ("ptr", "lab", "end")]
        if ms:
            m, gr = mutate(g, d, ms)
            out.append(rd(t, m, pre, g.raw(2), "C06"))
    return out


def rd_bitmap(x, n):
    out, g = [], x.g
    ok = set(types_for(x.cf))
    vs = [v for v in x.tlc("Gen_Bitmap")]
    for v in x.sample(vs, n):
        for form in (v["w"], v["p"]):
            if x.cf["d"]:
                out.append(rd(47, [1, 97, 0] + form, [], [0, 1, 64], "C14"))
            out.append(rd(62, [0, 0, 0, 9, 0, 1] + form, [], [0, 1, 64], "C14"))
    for _ in range(n):
        t = 62 if not x.cf["d"] or g.p(0.5) else 47
        head = [0, 0, 0, 9, 0, 2] if t == 62 else [1, 97, 0]
        k = g.r.randrange(8)
        bm = []
        if k < 3:
            # arbitrary blocks
            for w in g.r.sample([0, 0, 1, 2, 255], g.pick([1, 1, 2])):
                m = g.pick([0, 1, 1, 2, 8, 31, 32, 32, 33, 34, 255])
                bits = [0] * m
                for ty in g.r.sample(sorted(ok) + [3, 4, 0, 255, 254], g.pick([1, 2, 4])):
                    if ty // 256 == w and ty % 256 // 8 < m:
                        bits[ty % 256 // 8] |= 128 >> ty % 8
                bm += [w, m] + bits
        elif k < 5:
            e = Enc(g)
            e.bitmap(sorted(g.r.sample(sorted(ok), g.pick([1, 2, 5, len(ok)]))))
            bm = e.b
            if k == 4 and bm:
                i = g.r.randrange(len(bm))
                bm[i] = g.pick([bm[i] + 1 & 255, 0, 255, bm[i] ^ 1 << g.r.randrange(8)])
        elif k == 5:
            e = Enc(g)
            e.bitmap(sorted(g.r.sample(sorted(ok), 3)))
            bm = e.b[:g.r.randrange(len(e.b))]
        elif k == 6:
            # single types, window and octet edges
            ty = g.pick(sorted(ok))
            e = Enc(g)
            e.bitmap([ty])
            bm = e.b
        else:
            bm = [g.pick([0, 1]), g.r.randrange(40)] + [g.pick([0, 64, 1, 128]) for _ in range(g.r.randrange(40))]
        out.append(rd(t, head + bm, [], g.pick([[], [0, 1, 64], [0] * 40]), "C14"))
    # every single bit of the first two windows
    for w in (0, 1):
        for b in range(256):
            t = 62 if not x.cf["d"] or b % 2 else 47
            head = [0, 0, 0, 9, 0, 2] if t == 62 else [1, 97, 0]
            bm = [w, b // 8 + 1] + [0] * (b // 8) + [128 >> b % 8]
            out.append(rd(t, head + bm, [], [], "C14"))
    return out


def enc_bitmap(x, n):
    out, g = [], x.g
    ok = set(types_for(x.cf))
    sets = [v["T"] for v in x.sample(x.tlc("Gen_Bitmap"), n) if set(v["T"]) <= ok]
    sets += [[t] for t in sorted(ok)] + [[t, u] for t in sorted(ok) for u in (1, 256, 257) if t < u]
    sets += [sorted(g.r.sample(sorted(ok), g.r.randrange(1, len(ok) + 1))) for _ in range(n)]
    for i in range(0, len(sets), 3):
        rs = []
        for s in sets[i:i + 3]:
            if x.cf["d"] and g.p(0.6):
                rs.append(rec(g.name(), {"t": 47, "f": [g.name(), s]}))
            else:
                rs.append(rec(g.name(), {"t": 62, "f": [g.u32(), w16(g.r.randrange(4)), s]}))
        out.append(enc(pkt([g.q()] if g.p(0.5) else [], rs), i, 0, "C14"))
    return out


def params_cases(x, n):
    """parameters and options in every order of the specification's pool"""
    out, g = [], x.g
    for i, v in enumerate(x.sample(x.tlc("Gen_Params"), n)):
        ps, os_ = v["ps"], v["os"]
        if os_:
            d = {"t": 41, "f": [sorted(os_)]}
            w = sum((list(k) + w16(len(b)) + list(b) for k, b in os_), [])
            if i % 3 == 0:
                out.append(enc(pkt([], [], [], [rec([], d, c=1232)]), i, 0, "C21"))
            out.append(rd(41, w, [], [0, 0], "C21"))
            body, t, base = w, 41, 0
        else:
            d = {"t": 64, "f": [[0, 1], [[97]], ps]}
            if i % 3 == 0:
                out.append(enc(pkt([], [rec([[97]], d)]), i, 0, "C21"))
            e = Enc(g)
            for k, b in ps:
                val = sum(([len(z)] + list(z) for z in b), []) if list(k) == [0, 1] else sum((list(z) for z in b), [])
                e.b += list(k) + w16(len(val)) + val
            body, t, base = [0, 1, 1, 97, 0] + e.b, 64, 5
            out.append(rd(64, body, [], [0, 0], "C21"))
        # a length changed, the value cut
        p, offs = base, []
        while p + 4 <= len(body):
            offs.append(p)
            p += 4 + body[p + 2] * 256 + body[p + 3]
        for o in offs[:3]:
            for dv in (1, -1, 256, -2):
                b = list(body)
                v2 = b[o + 2] * 256 + b[o + 3] + dv
                if v2 >= 0:
                    b[o + 2:o + 4] = w16(v2)
                    if g.p(0.4):
                        out.append(rd(t, b, [], [0] * 6, "C21"))
        if body:
            out.append(rd(t, body[:-1], [], body[-1:] + [0, 0], "C21"))
            out.append(rd(t, body[:g.r.randrange(len(body))], [], [0] * 4, "C21"))
    return out


def params_rand(x, n):
    out, g = [], x.g
    for i in range(n):
        t = 64 if g.p(0.7) else 41
        d = g.rdata(t)
        if i % 3 == 0:
            out.append(enc(pkt([g.q()], [g.rec(1), rec(g.name(), d)]), i, 0, "C21"))
            continue
        w, ms = rd_wire(x, d)
        if len(w) > 700:
            continue
        if i % 3 == 1:
            out.append(rd(t, w, g.raw(2), g.raw(3), "C21"))
        else:
            ks = [m for m in ms if m[0] in ("len2", "code")]
            if ks:
                m, _ = mutate(g, w, ks)
                out.append(rd(t, m, [], g.raw(4), "C21"))
    # values of every length for every key
    for k in [0, 1, 2, 3, 4, 5, 6, 7, 8, 65279, 65280, 65534, 65535]:
        for m in list(range(0, 10)) + [15, 16, 17, 31, 32, 33]:
            v = ([0, 1, 0, 4] * 9)[:m] if k == 0 else ([2, 104, 50, 1, 104] * 8)[:m] if k == 1 else [7] * m
            out.append(rd(64, [0, 1, 0] + w16(k) + w16(m) + v, [], [], "C21"))
            out.append(rd(64, [0, 1, 0] + w16(k) + w16(m) + v + w16(65400) + [0, 1, 5], [], [], "C21"))
    return out


# ---- names ------------------------------------------------------------------------------------------

def name_case(b, s):
    return case("name", {"b": b, "s": s}, "C06")


def names_ex(x, n):
    return x.sample([c for c in x.tlc("Gen_Name")], n)


def names_rand(x, n):
    g, out = x.g, []
    for i in range(n):
        k = i % 5
        if k == 0:
            e = Enc(g, 0.8)
            st = []
            g.fresh_pool()
            for _ in range(g.pick([2, 4, 8])):
                st.append(len(e.b))
                e.name(g.name())
            b = e.b + g.raw(g.r.randrange(3))
            st = sorted(set(st + [g.r.randrange(len(b) + 1) for _ in range(4)]))
            if g.p(0.4):
                b, _ = mutate(g, b, e.marks, ("ptr", "lab", "end"))
                st = [s for s in st if s <= len(b)]
            out.append(name_case(b, st))
        elif k == 1:
            b = [g.pick([0, 1, 1, 2, 3, 192, 192, 193, 63, 64, 97, 5, g.r.randrange(256)]) for _ in range(g.r.randrange(1, 40))]
            out.append(name_case(b, list(range(min(len(b) + 1, 20)))))
        elif k == 2:
            # long chains around the limit of 255 bytes
            b, prev = [], None
            sts = []
            while len(b) < 500:
                sts.append(len(b))
                m = g.pick([1, 3, 20, 60, 63, 30])
                b += [m] + [97] * m
                b += [0] if prev is None else [192 | prev >> 8, prev & 255]
                prev = sts[-1]
            out.append(name_case(b, sts[-8:] + [len(b)]))
        elif k == 3:
            tot = g.pick([250, 253, 254, 255, 256, 257, 260])
            m = g.pick([1, 5, 31, 63])
            b, used = [], 1
            while used + 2 <= tot:
                l = min(m, tot - used - 1)
                if tot - used - 1 - l == 1 and l > 1:
                    l -= 1
                b += [l] + g.raw(l)
                used += l + 1
            b += [0]
            at = len(b)
            b += [192, g.pick([0, 0, 0, m + 1 if m + 1 < len(b) else 0])] + [2, 65, 66, 192, 0]
            out.append(name_case(b, [0, at, at + 2]))
        else:
            # far offsets
            pad = g.pick([250, 256, 300, 4000, 16370, 16383, g.r.randrange(16384), g.r.randrange(16384)])
            e = [7] * pad + [1, 98, 1, 99, 0]
            at = len(e)
            e += [1, 97, 192 | pad >> 8, pad & 255] + [192 | (pad + 2) >> 8 & 63 | 192, (pad + 2) & 255]
            out.append(name_case(e, [pad, at, at + 4, len(e) - 1]))
    return out


# ---- cursor ------------------------------------------------------------------------------------------

def tour(edges, inits, budget, limit=60, back=None):
    """Walks that cover every edge (a, label, b) of the graph; b None: the edge returns to a by back(a)."""
    adj, want = {}, {}
    for a, l, b in edges:
        adj.setdefault(a, []).append((l, b))
    for a in adj:
        want[a] = list(range(len(adj[a])))
    walks = []
    left = sum(len(v) for v in want.values())
    starts = list(inits)

    def path(a):
        """shortest way from a to a node with an unused edge"""
        seen, qd = {a: None}, deque([a])
        while qd:
            u = qd.popleft()
            if want.get(u):
                p = []
                while seen[u] is not None:
                    u, i = seen[u]
                    p.append((u, i))
                return p[::-1]
            for i, (l, b) in enumerate(adj.get(u, [])):
                if b is not None and b not in seen:
                    seen[b] = (u, i)
                    qd.append(b)
        return None

    si = 0
    while left and len(walks) < budget:
        a0 = starts[si % len(starts)]
        si += 1
        a, ops = a0[1], []
        while len(ops) < limit and left:
            if want.get(a):
                i = want[a].pop()
                left -= 1
            else:
                p = path(a)
                if p is None:
                    break
                for u, j in p[:-1] if p else []:
                    ops.append(adj[u][j][0])
                    a = adj[u][j][1]
                if p:
                    u, j = p[-1]
                    ops.append(adj[u][j][0])
                    a = adj[u][j][1]
                continue
            l, b = adj[a][i]
            ops.append(l)
            if b is None:
                ops += back(a)
            else:
                a = b
        walks.append((a0[0], ops))
        if not ops and si > 3 * len(starts):
            break
    return walks, left


def cursor_tour(x, n):
    out = []
    bufs = {"Gen_Cursor1": [2, 0, 1, 195, 40], "Gen_Cursor2": [1, 255, 4, 0, 2, 97, 0]}
    for cfgname, buf in bufs.items():
        edges = []
        for st, op, st2 in x.tlc(cfgname):
            edges.append((json.dumps(st), op, json.dumps(st2) if st2 else None))
        if not x.cf["d"]:
            pass
        back = lambda a: [["seek", json.loads(a)[-1][0]]]
        random.Random(x.seed).shuffle(edges)
        walks, left = tour(edges, [(None, json.dumps([[0, len(buf)]]))], n, 80, back)
        for _, ops in walks:
            out.append(case("cur", {"b": buf, "ops": ops}, "C12"))
    return out


def cursor_rand(x, n):
    g, out = x.g, []
    for _ in range(n):
        m = g.pick([0, 1, 3, 8, 20, 60, 300, 700])
        b = [g.pick([0, 1, 2, 3, 5, 97, 195, 169, 255, g.r.randrange(256)]) for _ in range(m)]
        if m >= 20 and g.p(0.5):
            e = Enc(g, 0.8)
            g.fresh_pool()
            while len(e.b) < m:
                e.name(g.name())
                if g.p(0.3):
                    e.put("f", g.raw(g.r.randrange(4)))
            b = e.b[:m]
        ops = []
        for _ in range(g.pick([5, 15, 40])):
            k = g.pick(["u8", "u16", "u32", "u16as", "take", "peek", "adv", "seek", "seek", "cstr", "str", "sub", "pop", "name", "name"])
            a = 0
            if k in ("take", "peek", "adv", "seek", "sub"):
                a = g.pick([0, 1, 2, 3, g.r.randrange(m + 1), g.r.randrange(m + 1), m, m + 1, 65535, -1, -2, -(m + 1), -(g.r.randrange(m + 1) + 1)])
            ops.append([k, a])
        out.append(case("cur", {"b": b, "ops": ops}, "C12"))
    return out


# ---- header --------------------------------------------------------------------------------------------

def hdr_t(x, n):
    return x.sample(x.tlc("Gen_Header"), n)


def hdr_w(x, n):
    return [case("hdrw", {"hi": h, "id": x.g.u16()}, "C05") for h in x.sample(range(256), n)]


def hdr_rand(x, n):
    g, out = x.g, []
    for i in range(n):
        on = g.pick(["p", "h"])
        init = g.pick([["q", g.n16(), g.r.randrange(2)], ["r", g.n16(), g.r.randrange(4)], ["d", 0, 0]] + ([["w", g.n16(), g.r.randrange(2)]] if on == "p" else []))
        ops = []
        for _ in range(g.pick([3, 8, 20])):
            k = g.pick(["qr", "op", "aa", "tc", "rd", "ra", "rc"] + (["id"] if on == "p" else []))
            ops.append([k, g.n16() if k == "id" else g.r.randrange(4) if k == "op" else g.r.randrange(11) if k == "rc" else g.r.randrange(2)])
        out.append(case("hdr", {"on": on, "init": init, "ops": ops}, "C05"))
    return out


# ---- histories --------------------------------------------------------------------------------------------

def hist_tour(x, n):
    edges = [(json.dumps(a), op, json.dumps(b)) for a, op, b in x.tlc("Gen_Builder")]
    random.Random(x.seed).shuffle(edges)
    e = [[], [], [], []]
    inits = [(["q", 1, 1, []], json.dumps([e, [False] * 4])), (["r", 2, 0, []], json.dumps([e, [False] * 4])), (["d", 0, 0, []], json.dumps([e, [False] * 4]))]
    walks, left = tour(edges, inits, n, 60)
    return [case("hist", dict({"init": i, "ops": ops}, **({"pool": hist_pool(x.g)} if k % 2 else {})), "C20") for k, (i, ops) in enumerate(walks)]


def view(d, ops=(), texts=()):
    return case("view", {"t": d["t"], "f": d["f"], "ops": list(ops), "txt": [list(t) for t in texts]}, "C23")


def view_all(x, n):
    """Views of small values of every type, as the specification generates them."""
    out = []
    for v in x.sample([v for v in x.tlc("Gen_Rdata") if v["t"] in types_for(x.cf)], n):
        out.append(view(v, [["i", 1], ["s", 1], ["i", 0], ["s", 0], ["s", 1], ["i", 1], ["s", 0], ["i", 0]]))
    return out


def view_rand(x, n):
    g, out = x.g, []
    ts = types_for(x.cf)
    rich = [1, 28, 62, 64, 12, 45] + ([43, 46, 48, 59, 60] if x.cf["d"] else [])
    for i in range(n):
        t = rich[(i // 2) % len(rich)] if i % 2 else ts[(i // 2) % len(ts)]
        d = g.rdata(t)
        texts, ops = [], []
        if t == 1:
            texts = [addr4(g) for _ in range(12)]
        elif t == 28:
            texts = [addr6(g) for _ in range(16)]
        elif t == 62:
            ops = [[g.pick("is"), g.r.randrange(2)] for _ in range(g.pick([3, 12]))]
        elif t == 64 and g.p(0.4):
            d["f"][0] = g.pick([[0, 0], [0, 1], [1, 0], [255, 255], [128, 0]])
        elif t in (43, 59, 46, 48, 60) and g.p(0.7):
            d["f"][-1] = g.raw(g.pick([0, 1, 2, 3, 4, 5, 31, 32, 33, 47, 48, 57, 63, 64, 65, 76, 77, 128, 255, 256, 257, 1000]))
        out.append(view(d, ops, texts))
    return out


def addr4(g):
    p = [str(g.pick([0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255])) for _ in range(4)]
    m = g.r.randrange(16)
    s = ".".join(p)
    if m > 13:
        return addr6(g)
    if m == 0:
        s = ".".join(p[:3])
    elif m == 1:
        s += ".1"
    elif m == 2:
        p[g.r.randrange(4)] = g.pick(["256", "300", "999", "1000", "00", "01", "007", "-1", "", "a", "0x1", "+1"])
        s = ".".join(p)
    elif m == 3:
        s = g.pick([" ", "", ".", "..", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4.", ".1.2.3.4", "1,2,3,4", "16909060"])
    return txt(s)


def addr6(g):
    p = ["%x" % g.pick([0, 0, 1, 15, 16, 255, 256, 4095, 4096, 32768, 65535]) for _ in range(8)]
    m = g.r.randrange(15)
    if m >= 12:
        # with an IPv4 address at the end, or nothing but one
        q = ".".join(str(g.pick([0, 1, 9, 10, 99, 127, 192, 255])) for _ in range(4))
        a = g.r.randrange(7)
        s = g.pick([q, ":".join(p[:6]) + ":" + q, ":".join(p[:a]) + "::" + q, "::ffff:" + q, "::" + q, ":" + q, ":".join(p[:7]) + ":" + q, ":".join(p[:5]) + ":" + q,
                    q + "::", "::" + q + ":1", "::" + q + ".1", "::" + q[1:], "::0" + q, "::1.2.3", "::256.1.1.1"])
    elif m < 3:
        s = ":".join(p)
    elif m < 8:
        a = g.r.randrange(9)
        b = g.r.randrange(a, 9)
        s = ":".join(p[:a]) + "::" + ":".join(p[b:])
    elif m == 8:
        s = g.pick(["", ":", "::", ":::", "::1", "1::", "1::2::3", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:", "1:2:3:4:5:6:7::", "::1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "g::", "12345::", "1:2", " ::1", "[::1]", "::%1"])
    elif m == 9:
        s = ":".join(p).upper()
    elif m == 10:
        s = ":".join(x.rjust(4, "0") for x in p)
    else:
        p[g.r.randrange(8)] = g.pick(["", "00000", "fffff", "g", "-1"])
        s = ":".join(p)
    return txt(s)


def near_name(g, n):
    """a name that differs a little: letters, one octet, one label"""
    n = [list(l) for l in n]
    k = g.r.randrange(7)
    if k <= 1:
        m = recase(g, n, 1 if k else 0.3)
    elif k == 2 and n:
        l = g.pick(n)
        l[g.r.randrange(len(l))] ^= 1 << g.r.randrange(8)
        m = n
    elif k == 3:
        m = n[1:]
    elif k == 4:
        m = n[:-1]
    elif k == 5:
        m = [g.pick(n + [[97]])] + n
    else:
        m = n + [g.pick(n + [[97]])]
    while sum(len(l) + 1 for l in m) + 1 > 255 or len(m) > 120:
        m = m[1:]
    return m


BYTES_AT = {1: [0], 28: [0], 10: [0], 61: [0], 108: [0], 109: [0], 49: [2], 44: [2], 52: [3], 11: [0, 1, 2], 6: [2, 3, 4, 5, 6], 15: [0], 33: [0, 1, 2], 29: [1, 2, 3, 4, 5, 6],
            35: [0, 1], 249: [1, 2, 5, 6], 250: [3], 43: [0, 3], 46: [2, 3, 4, 5, 6, 8], 48: [4], 55: [1, 2], 62: [0]}


def near_data(g, d):
    """data that differs a little: letters of names, one bit, one octet more or less where that is free"""
    d = json.loads(json.dumps(d))
    at = [("n", i) for i in NAMED.get(d["t"], [])] + [("b", i) for i in BYTES_AT.get(d["t"], []) if i < len(d["f"]) and d["f"][i] and all(isinstance(v, int) for v in d["f"][i])]
    if not at:
        return recased(g, d)
    k, i = g.pick(at)
    if k == "n":
        d["f"][i] = near_name(g, d["f"][i]) if d["t"] not in (55, 45) and all(isinstance(l, list) and all(isinstance(b, int) for b in l) for l in d["f"][i]) else d["f"][i]
    else:
        f = d["f"][i]
        f[g.r.randrange(len(f))] ^= 1 << g.r.randrange(8)
    return d


def near_ttl(g, v):
    v = list(v)
    v[g.r.randrange(4)] ^= 1 << g.r.randrange(8)
    return v


def near_entry(g, e, cf):
    """an entry that differs a little from another"""
    e = json.loads(json.dumps(e))
    k = g.pick(["n", "n"] + ["ttl", "d", "d"] * ("d" in e) + ["u"] * cf["m"])
    if k == "n":
        e["n"] = near_name(g, e["n"])
    elif k == "ttl":
        e["ttl"] = near_ttl(g, e["ttl"])
    elif k == "d":
        e["d"] = near_data(g, e["d"])
    else:
        e["u"] ^= 1
    return e


def enc_near(x, n):
    """entries that differ a little from the ones before, next to equal ones"""
    g, out = x.g, []
    ts = types_for(x.cf)
    for i in range(n):
        g.fresh_pool()
        secs = [[], [], [], []]
        last = None
        for j in range(g.pick([3, 5, 8])):
            s = g.r.randrange(1, 4) if last is None or g.p(0.3) else last[0]
            if last is None or g.p(0.15):
                r = g.rec(ts[(i + j) % len(ts)])
                while len(json.dumps(r)) > 2500:
                    r = g.rec(g.pick(ts))
            else:
                r = near_entry(g, last[1], x.cf) if g.p(0.8) else last[1]
            secs[s].append(r)
            last = (s, r)
        qs = [g.q()]
        if g.p(0.5):
            qs[0]["n"] = near_name(g, last[1]["n"])
        for _ in range(g.pick([0, 1, 3])):
            qs.append(near_entry(g, qs[-1], x.cf) if g.p(0.8) else qs[-1])
        out.append(enc(pkt(qs, *secs[1:], fl=g.flags()), i, 0))
    return out


def edit_tour(x, n):
    """Every edit from every state of the entry machine."""
    m = x.cf["m"]
    ok = lambda e, op: m or (e["u"] == 0 and op[0] != "u")
    edges = [(json.dumps(a, sort_keys=True), op, json.dumps(b, sort_keys=True)) for a, op, b in x.tlc("Gen_Entry") if ok(a, op) and b["u"] in (0, m)]
    random.Random(x.seed).shuffle(edges)
    q0 = {"k": "q", "n": [[97]], "t": 1, "c": 1, "u": 0}
    r0 = {"k": "r", "n": [[97]], "t": 1, "c": 1, "u": 0, "ttl": [0] * 4, "d": {"t": 1, "f": [[1, 2, 3, 4]]}}
    out = []
    for e, share in ((q0, 3), (r0, 1)):
        mine = [t for t in edges if json.loads(t[0])["k"] == e["k"]]
        walks, left = tour(mine, [(e, json.dumps(e, sort_keys=True))], max(1, n // (4 if e["k"] == "q" else 1)), 50)
        init = {k: v for k, v in e.items() if k != "k"}
        out += [case("edit", {"kind": e["k"], "init": init, "ops": ops}, "C22") for _, ops in walks]
    return out[:n] if len(out) > n else out


def eq_gen(x, n):
    """Pairs that differ in at most one part."""
    m = x.cf["m"]
    ps = [(a, b) for a, b in x.tlc("Gen_Equal") if m or a["u"] == b["u"] == 0]
    out = []
    for a, b in x.sample(ps, n):
        k = a["k"]
        strip = lambda e: {p: v for p, v in e.items() if p != "k"}
        out.append(case("eq", {"kind": k, "a": strip(a), "b": strip(b)}, "C24"))
    return out


def plain_data(g, t):
    """data without the addresses hints and the empty gateway of the known findings"""
    while True:
        d = g.rdata(t)
        if not (t == 45 and d["f"][1] == [0] or t == 64 and any(p[0] in ([0, 4], [0, 6]) for p in d["f"][2])):
            return d


def other_data(g, d):
    """the same data, or data that differs in one part"""
    d = json.loads(json.dumps(d))
    t, k = d["t"], g.r.randrange(6)
    if k == 0:
        return d
    if t in (41, 64):
        l = d["f"][-1]
        if k == 1 and len(l) > 1:
            g.r.shuffle(l)
        elif k == 2 and l:
            l.pop(g.r.randrange(len(l)))
        elif k == 3 and t == 64:
            d["f"][0] = g.u16()
            if d["f"][0] == [0, 0]:
                d["f"][0] = [0, 1]
        elif k == 4:
            d["f"][-1] = plain_data(g, t)["f"][-1]
        elif k == 5 and l:
            o = g.pick(l)
            for v in [o[1]] if t == 41 else o[1]:
                if v and all(isinstance(b, int) for b in v) and o[0] not in ([0, 0], [0, 1]):
                    v[g.r.randrange(len(v))] ^= 1 << g.r.randrange(8)
        return d
    if k == 1 and t not in (42, 45):
        e = plain_data(g, t)
        i = g.r.randrange(len(d["f"]))
        if i < len(e["f"]):
            d["f"][i] = e["f"][i]
        return d
    if k == 2 and t == 16:
        g.r.shuffle(d["f"][-1])
        return d
    if k == 3:
        return plain_data(g, t)
    if k == 4:
        return other_case(g, d)
    return near_data(g, d)


def other_case(g, d):
    """the same data with one letter in the other case"""
    at = []

    def walk(v, top):
        if v and all(isinstance(b, int) for b in v):
            if len(v) >= 3 or top == (257, 1) or d["t"] == 16:
                at.extend((v, i) for i, b in enumerate(v) if 65 <= b & 0xDF <= 90)
        else:
            for j, w in enumerate(v):
                if isinstance(w, list) and not (top is None and (d["t"], j) in ((35, 2), (47, 1), (62, 2))):
                    walk(w, (d["t"], j) if top is None else top)

    walk(d["f"], None)
    if at:
        v, i = g.pick(at)
        v[i] ^= 32
    return d


def eq_data(x, n):
    """Data of every type against data that differs in one part, and against the same octets as another type."""
    g, out = x.g, []
    ts = types_for(x.cf)
    for i in range(n):
        a = plain_data(g, ts[i % len(ts)])
        b = other_data(g, a)
        if g.p(0.04) and a["t"] in (2, 5, 12):
            b = {"t": g.pick([2, 5, 12]), "f": a["f"]}
        elif g.p(0.2) and a["t"] in (10, 61, 43, 59, 48, 60):
            b = {"t": {10: 61, 61: 10, 43: 59, 59: 43, 48: 60, 60: 48}[a["t"]], "f": a["f"]}
        if g.p(0.5):
            a, b = b, a
        if g.p(0.5):
            out.append(case("eq", {"kind": "d", "a": a, "b": b}, "C24"))
        else:
            r = g.rec(1)
            r["t"], r["d"] = a["t"], a
            s = json.loads(json.dumps(r))
            s["t"], s["d"] = b["t"], b
            out.append(case("eq", {"kind": "r", "a": r, "b": s}, "C24"))
    return out


def eq_rand(x, n):
    """Questions, records and messages against ones that differ a little."""
    g, out = x.g, []
    ts = types_for(x.cf)

    def entry(rec_):
        if not rec_:
            return g.q()
        t = g.pick(ts)
        r = g.rec(t)
        r["d"] = plain_data(g, t)
        return r

    def other(e):
        e = json.loads(json.dumps(e))
        k = g.pick(["same", "near", "near", "t", "c", "d"])
        if k == "near":
            return near_entry(g, e, x.cf)
        if k == "t":
            o = entry("d" in e)
            e["t"] = o["t"]
            if "d" in e:
                e["d"] = o["d"]
        elif k == "c":
            e["c"] = entry("d" in e)["c"]
        elif k == "d" and "d" in e:
            e["d"] = other_data(g, e["d"])
        return e

    for i in range(n):
        k = i % 3
        if k < 2:
            a = entry(k == 1)
            out.append(case("eq", {"kind": "qr"[k], "a": a, "b": other(a)}, "C24"))
            continue
        a = g.packet(0)
        for s in ("an", "ns", "ar"):
            a[s] = [entry(True) for _ in range(g.r.randrange(3))]
        if g.p(0.7):
            a["qd"] = a["qd"][:2]
        b = json.loads(json.dumps(a))
        m = g.r.randrange(7)
        secs = [s for s in ("qd", "an", "ns", "ar") if b[s]]
        if m == 0:
            b["id"][g.r.randrange(2)] ^= 1 << g.r.randrange(8)
        elif m == 1:
            j = g.r.randrange(7)
            if j == 0:
                b["fl"][0] ^= 1
                a["fl"][5:] = b["fl"][5:] = [0, 0]
            elif j < 5 or b["fl"][0]:
                b["fl"][j] = (b["fl"][j] + 1) % (4 if j == 1 else 11 if j == 6 else 2)
        elif m == 2 and secs:
            s = g.pick(secs)
            j = g.r.randrange(len(b[s]))
            b[s][j] = other(b[s][j])
        elif m == 3 and secs:
            s = g.pick(secs)
            b[s].pop(g.r.randrange(len(b[s])))
        elif m == 4 and secs:
            s = g.pick(secs)
            g.r.shuffle(b[s])
        elif m == 5 and [s for s in secs if s != "qd"]:
            s, r = g.pick([s for s in secs if s != "qd"]), g.pick(["an", "ns", "ar"])
            b[r].append(b[s].pop())
        out.append(case("eq", {"kind": "p", "how": g.r.randrange(4), "a": a, "b": b}, "C24"))
    return out


def has_opt(v):
    """options have no order of their own"""
    if isinstance(v, dict):
        return v.get("t") == 41 or any(has_opt(w) for w in v.values())
    return isinstance(v, list) and any(has_opt(w) for w in v if isinstance(w, (list, dict)))


def call_themes(x):
    """theme -> function giving the calls of the kinds of Calls.tla: one, another one like it, a failing one, a long one"""
    g = x.g
    ts = [t for t in types_for(x.cf) if t != 41]
    copy = lambda v: json.loads(json.dumps(v))

    def near_packet(p):
        p = copy(p)
        ss = [(s, i) for s in ("qd", "an", "ns", "ar") for i in range(len(p[s]))]
        for s, i in g.r.sample(ss, min(len(ss), g.pick([1, 1, 2, 8]))):
            p[s][i] = near_entry(g, p[s][i], x.cf)
        return p

    def packets():
        g.fresh_pool()
        p = g.packet(types=ts)
        if not p["qd"] and not p["an"]:
            p["an"] = [g.rec(g.pick([5, 12, 15, 33, 6]))]
        long = g.packet(nq=g.pick([1, 2]), nr=(4, 3, 5), types=g.pick([ts, [1, 5, 12, 15, 33]]))
        return p, near_packet(p), long

    def failing(p):
        b = wire(x, p)[0]
        if g.p(0.6) or len(b) < 20:
            return dec(b[:g.r.randrange(len(b))])
        k = g.r.randrange(3)
        if k == 0:
            return dec(b[:12] + [192, 255] + b[12:])
        if k == 1:
            return dec(b[:12] + [1, 97, 1, 98, 192, 12] + b[12:])
        return dec(b + [1, 97], "") if g.p(0.2) else dec(b[:-1])

    def t_enc():
        p, o, l = packets()
        return [enc(p, g.r.randrange(4)), enc(o, g.r.randrange(4)), failing(p), enc(l, g.r.randrange(4))]

    def t_dec():
        p, o, l = packets()
        return [dec(wire(x, p)[0]), dec(wire(x, o)[0]), failing(p), dec(wire(x, l)[0])]

    def t_both():
        p, o, l = packets()
        return [enc(p), dec(wire(x, p)[0]), failing(o), g.pick([enc, lambda v: dec(wire(x, v)[0])])(l)]

    def t_rd():
        t = g.pick(ts)
        d = plain_data(g, t)
        w = lambda v: (lambda e: (e.rdata(v), e.b)[1])(Enc(g, 0))
        b = w(d)
        return [rd(t, b, g.raw(2), []), rd(t, w(near_data(g, d)), g.raw(2), []), rd(t, b[:g.r.randrange(len(b))] if b else [], [], []), rd(t, w(plain_data(g, t)), [], g.raw(3))]

    def pooled(l):
        l = [c for c in l if (c["k"] == "hist" or not has_opt(c["c"])) and len(json.dumps(c)) < 20000 and not (c["k"] == "hist" and any(o[0] == "add" and o[3] > 20 for o in c["c"]["ops"]))]
        if not l:
            return t_enc
        return lambda: [g.pick(l) for _ in range(4)]

    th = [t_enc, t_enc, t_dec, t_dec, t_both, t_rd]
    th += [pooled(names_rand(x, 40)), pooled(rrset_rand(x, 30)), pooled(fq_rand(x, 60)), pooled(fcmp_rand(x, 30)), pooled(view_rand(x, 60)), pooled(edit_rand(x, 20)),
           pooled(hist_rand(x, 20)), pooled(cursor_rand(x, 20)), pooled(hdr_rand(x, 20)), pooled(dhcid_cases(x, 20))]
    if x.cf["d"]:
        th += [pooled(ds_cases(x, 20)), pooled([c for c in sign_cases(x, 2) if c["c"]["alg"] in (5, 7, 8, 10, 15)])]
    return th


def calls_mix(x, n):
    """Plans of two callers, over calls of all kinds."""
    g, out = x.g, []
    th = call_themes(x)
    for i, plan in enumerate(x.sample(x.tlc("Gen_Calls"), n)):
        cs = th[i % len(th)]()
        if g.p(0.2):
            cs[g.r.randrange(4)] = g.pick(th)()[0]
        if any(c["k"] != "hist" and has_opt(c["c"]) for c in cs):
            continue
        seqs = plan if g.p(0.6) else plan * 2
        out.append(case("mix", {"calls": [{"k": c["k"], "c": c["c"]} for c in cs], "seqs": seqs, "rounds": g.pick([1, 3, 8]) if cs[0]["k"] != "sign" else 1}, "C25"))
    return out


def obs_rand(x, n):
    """Reading operations in random order, each several times."""
    g, out = x.g, []
    ts = [t for t in types_for(x.cf) if t != 41]
    for i in range(n):
        g.fresh_pool()
        p = g.packet(types=[ts[i % len(ts)]] * 2 + ts)
        ops = [g.pick(["plain", "zip", "size", "debug", "read", "copy", "raw", "one", "names", "head"]) for _ in range(g.pick([6, 12, 20]))]
        out.append(case("obs", {"p": p, "how": i % 4, "ops": ops}, "C25"))
    return out


def edit_rand(x, n):
    """Edits of entries with data of every type, names of any shape."""
    g, out = x.g, []
    m = x.cf["m"]
    ts = [t for t in types_for(x.cf)]

    def data(t):
        while True:
            d = g.rdata(t)
            if not (t == 45 and d["f"][1] == [0] or t == 64 and any(p[0] in ([0, 4], [0, 6]) for p in d["f"][2])):
                return d

    def lab():
        return [g.pick([97, 98, 48, 122]) for _ in range(g.pick([1, 2, 5, 20]))]

    for i in range(n):
        rec_ = i % 4 != 0
        e = g.rec(ts[i % len(ts)]) if rec_ else g.q()
        if rec_:
            e["d"] = data(e["t"])
        init, cur, ops = json.loads(json.dumps(e)), e, []
        for _ in range(g.pick([3, 8, 20])):
            ks = ["n", "t", "c", "clone", "rt", "app", "lab"] + ["u"] * 2 * int(m) + (["ttl", "ttl", "d", "d", "dm", "dm", "im", "im", "dt", "dup"] if rec_ else [])
            k = g.pick(ks)
            if k == "n":
                o = [k, near_name(g, cur["n"]) if g.p(0.5) else g.name()]
            elif k == "t":
                o = [k, g.rec()["t"] if rec_ else g.q()["t"]]
            elif k == "c":
                o = [k, g.rec(1)["c"] if rec_ else g.q()["c"]]
            elif k == "u":
                o = [k, g.r.randrange(2)]
            elif k == "ttl":
                o = [k, near_ttl(g, cur["ttl"]) if g.p(0.4) else g.u32()]
            elif k in ("d", "dm"):
                o = [k, near_data(g, cur["d"]) if g.p(0.3) else data(g.pick([cur["d"]["t"], g.pick(ts)]))]
            elif k == "dt":
                t = g.pick(ts)
                ops.append(["t", t])
                cur["t"] = t
                o = ["dm", data(t)]
            elif k == "im":
                if cur["d"]["t"] not in (1, 12, 28):
                    o = ["d", data(g.pick([1, 12, 28]))]
                else:
                    o = [k, near_data(g, cur["d"]) if g.p(0.4) else data(cur["d"]["t"])]
            elif k == "app":
                o = [k, lab()]
                if sum(len(l) + 1 for l in cur["n"]) + len(o[1]) + 2 > 255 or len(cur["n"]) > 100:
                    continue
            elif k == "lab":
                if not cur["n"]:
                    continue
                o = [k, g.r.randrange(len(cur["n"])), lab()]
                if sum(len(l) + 1 for l in cur["n"]) + 22 > 255:
                    continue
            elif k == "rt":
                if rec_ and cur["t"] != cur["d"]["t"]:
                    continue
                o = [k]
            else:
                o = [k]
            if o[0] in ("n", "t", "c", "u", "ttl"):
                cur[o[0]] = o[1]
            elif o[0] in ("d", "dm", "im"):
                cur["d"] = o[1]
            elif o[0] == "app":
                cur["n"] = cur["n"] + [o[1]]
            elif o[0] == "lab":
                cur["n"] = [o[2] if j == o[1] else l for j, l in enumerate(cur["n"])]
            ops.append(o)
        out.append(case("edit", {"kind": "r" if rec_ else "q", "init": init, "ops": ops}, "C22"))
    return out


def edit_sweep(x, n):
    """every type of record and of question with every setter given its special values"""
    g, out = x.g, []
    m = x.cf["m"]
    deep = [[97]] * 127
    long_ = [[97] * 63, [98] * 63, [99] * 63, [100] * 61]
    for k in range(n):
        for kind in ("r", "q"):
            for t in types_for(x.cf) + ([252, 253, 254, 255] if kind == "q" else []):
                g.fresh_pool()
                e = g.rec(t) if kind == "r" else dict(g.q(), t=t)
                while t == 45 and kind == "r" and e["d"]["f"][1] == [0] or t == 64 and kind == "r" and any(p[0] in ([0, 4], [0, 6]) for p in e["d"]["f"][2]):
                    e = g.rec(t)
                if not e["n"]:
                    e["n"] = [[97]]
                a = g.name()
                ops = [["n", []], ["n", a], ["n", near_name(g, a)], ["n", deep], ["n", long_], ["n", []], ["n", [[42]] + a[:3]], ["n", a]]
                ops += [["c", c] for c in (3, 255, 254, 4, 2, 1)] + ([["u", 1], ["u", 0], ["u", 1]] if m else [])
                if kind == "r":
                    ops += [["ttl", v] for v in ([0, 0, 0, 0], [0, 0, 0, 1], [255] * 4, [128, 0, 0, 0], [127, 255, 255, 255], [0, 0, 0, 120], [0, 1, 0, 0])]
                ops = [o for _, o in sorted((i + g.r.random() * 6, o) for i, o in enumerate(ops))]
                at = g.r.randrange(len(ops))
                ops[at:at] = [g.pick([["clone"], ["rt"]] + ([["dup"]] if kind == "r" else []))]
                out.append(case("edit", {"kind": kind, "init": e, "ops": ops}, "C22"))
    return out


def edit_pairs(x, n):
    """Every type set in every class and every class set for every type, for questions and for records."""
    g, out = x.g, []
    flip = [["u", 0], ["u", 1]] if x.cf["m"] else []
    for kind, ts, cs in (("q", types_for(x.cf) + [252, 253, 254, 255], [1, 2, 3, 4, 254, 255]), ("r", types_for(x.cf), [1, 2, 3, 4, 5, 255, 512, 1232])):
        e = {"n": [[97]], "t": 1, "c": 1, "u": 0}
        if kind == "r":
            e = dict(e, ttl=g.u32(), d={"t": 1, "f": [g.raw(4)]})
        ops = []
        for a, b, ka, kb in ((ts, cs, "t", "c"), (cs, ts, "c", "t")):
            for v in g.r.sample(a, len(a)):
                ops.append([ka, v])
                for w in g.r.sample(b, len(b)):
                    ops.append([kb, w])
                    if flip and g.p(0.2):
                        ops.append(g.pick(flip))
                    if kind == "r" and g.p(0.1):
                        ops.append(["ttl", g.u32()])
        for k in range(0, len(ops), 40):
            # enough of what was set before to be in the same state
            pre = [[j for j in ops[:k] if j[0] == o][-1:] for o in ("t", "c", "u", "ttl")]
            out.append(case("edit", {"kind": kind, "init": e, "ops": [o for p in pre for o in p] + ops[k:k + 40]}, "C22"))
    return x.sample(out, n)


def rd_texts(x, n):
    """text that is not UTF-8 in one place, in every field that holds text"""
    g, out = x.g, []
    bad = [[0xC3], [0xE6], [0xE6, 0x97], [0xF0], [0xF0, 0x9D], [0xF0, 0x9D, 0x84], [0x80], [0xBF], [0xC0, 0x80], [0xC1, 0xBF], [0xE0, 0x80, 0x80], [0xE0, 0x9F, 0xBF], [0xED, 0xA0, 0x80],
           [0xED, 0xBF, 0xBF], [0xF0, 0x80, 0x80, 0x80], [0xF4, 0x90, 0x80, 0x80], [0xF5, 0x80, 0x80, 0x80], [0xFE], [0xFF], [0xC3, 0x28], [0xE6, 0x97, 0x28], [0xF0, 0x9D, 0x84, 0x28], [0xF8, 0x88, 0x80, 0x80, 0x80]]
    good = [[0xC2, 0x80], [0xDF, 0xBF], [0xE0, 0xA0, 0x80], [0xED, 0x9F, 0xBF], [0xEE, 0x80, 0x80], [0xEF, 0xBF, 0xBF], [0xEF, 0xBF, 0xBD], [0xF0, 0x90, 0x80, 0x80], [0xF4, 0x8F, 0xBF, 0xBF], [0], [0x7F], [0xEF, 0xBB, 0xBF]]
    for k in range(n):
        for s in bad + good:
            a, b = g.ascii(g.pick([0, 1, 5])), g.ascii(g.pick([0, 0, 1, 4]))
            t = g.pick([35, 35, 257])
            d = g.rdata(t)
            i = 4 if t == 35 else 1
            if t == 257:
                a, b = [97] * len(a), [98] * len(b)
            d["f"][i] = a + s + b
            out.append(rd(t, rd_wire(x, d)[0], g.raw(g.r.randrange(3)), g.raw(g.r.randrange(3))))
    return out


def hist_rand(x, n):
    g, out = x.g, []
    tok = lambda: g.r.randrange(8)
    lst = lambda: [tok() for _ in range(g.pick([0, 1, 2, 3, 5]))]
    for i in range(n):
        init = g.pick([["q", g.n16(), g.r.randrange(2), []], ["r", g.n16(), 0, []], ["d", 0, 0, []], ["w", g.n16(), g.r.randrange(2), lst()], ["w", g.n16(), 1, lst()]])
        ops = []
        for _ in range(g.pick([4, 12, 30])):
            k = g.pick(["addq", "setq", "takeq", "qpush", "qpop", "qclear", "qins", "add", "add", "add", "set", "set", "take", "take", "hq", "hr", "hp", "hx", "hw", "hw", "hf", "fl", "clone", "dup", "rt", "rz"])
            if k in ("addq", "qpush", "qins"):
                o = [k, tok()]
            elif k == "setq":
                o = [k, lst()]
            elif k == "add":
                o = [k, g.r.randrange(1, 4), tok(), g.pick([1, 1, 1, 2, 4])]
            elif k == "set":
                o = [k, g.r.randrange(1, 4), lst()]
            elif k == "take":
                o = [k, g.r.randrange(1, 4)]
            elif k in ("hq",):
                o = [k, g.n16(), g.r.randrange(2)]
            elif k == "hr":
                o = [k, g.n16(), g.r.randrange(4)]
            elif k == "hp":
                o = [k, g.n16(), g.r.randrange(1, 4)]
            elif k == "hx":
                o = [k, g.n16(), g.u16() + g.u16() + g.u16() + g.u16() + g.u16()]
            elif k == "hw":
                fl = [g.r.randrange(2), g.r.randrange(4)] + [g.r.randrange(2) for _ in range(4)] + [g.pick([0, g.r.randrange(11)])]
                o = [k, g.n16(), fl, g.pick([[0] * 8, g.u16() + g.u16() + g.u16() + g.u16()])]
            elif k in ("fl", "hf"):
                f = g.pick(["qr", "op", "aa", "tc", "rd", "ra", "rc"] + ["id"] * (k == "fl"))
                o = [k, f, g.n16() if f == "id" else g.r.randrange(4) if f == "op" else g.r.randrange(11) if f == "rc" else g.r.randrange(2)]
            else:
                o = [k]
            ops.append(o)
        if i % 25 == 7:
            # beyond one byte of count
            ops.insert(g.r.randrange(len(ops) + 1), ["add", g.r.randrange(1, 4), tok(), g.pick([254, 255, 256, 300, 513, 1030])])
            ops = ops[:10]
        c = {"init": init, "ops": ops}
        if i % 2:
            c["pool"] = hist_pool(g, i % 25 == 7)
        out.append(case("hist", c, "C20"))
    return out


def hist_over(x, n):
    """Histories of packets that grow beyond 512, 4096, 16383 and 65535 octets."""
    g, out = x.g, []
    base = hist_rand(x, n)
    for i, c in enumerate(base):
        c = json.loads(json.dumps(c["c"]))
        c["pool"] = hist_pool(g, True)
        lim = [512, 4096, 16384, 65536][i % 4] if g.p(0.3) else 65536
        k = g.pick([3, 7, 16])
        c["pool"]["r"][0] = {"n": [[98, 105, 103]], "t": 10, "c": 1, "u": 0, "ttl": [0, 0, 0, 9], "d": {"t": 10, "f": [[7] * (lim // k)]}}
        ops = [o for o in c["ops"] if not (o[0] == "add" and o[3] > 9)][:g.pick([3, 6, 9])]
        big = ["add", g.r.randrange(1, 4), 0, k + g.pick([-1, 0, 0, 1, 1])]
        at = g.r.randrange(len(ops) + 1)
        head = g.pick([["hq", g.n16(), g.r.randrange(2)], ["hr", g.n16(), 1], ["hp", g.n16(), 2], ["hw", g.n16(), [1, 0, 0, 1, 1, 0, 0], [0] * 8]])
        tail = [o for o in ops[at:] if o[0] not in ("takeq", "take", "set", "setq", "hx")] if g.p(0.7) else ops[at:]
        ops = ops[:at] + [big] + [head] * g.p(0.8) + tail
        c["ops"] = [list(o) for o in ops]
        out.append(case("hist", c, "C20"))
    return out


def hist_pool(g, small=False):
    """eight questions and eight records, some of them differing in one part only"""
    def some(make, parts):
        l = []
        while len(l) < 8:
            e = make()
            if l and g.p(0.4):
                o = json.loads(json.dumps(g.pick(l)))
                if g.p(0.5):
                    o = near_entry(g, o, g.cf)
                else:
                    for k in g.r.sample(parts, g.pick([1, 1, 2])):
                        o[k] = e[k]
                        if k == "d":
                            o["t"] = e["t"]
                e = o
            if not any(x["n"] == e["n"] and x == e for x in l):
                l.append(e)
        return l

    def record():
        t = g.pick([1, 41, 41, 250, 249, 6, 2, 5] + types_for(g.cf) * 2)
        while True:
            e = g.rec(t)
            f = e["d"]["f"]
            if t == 45 and f[1] == [0] or t in (41, 64, 55, 35, 62) and len(json.dumps(f)) > 60 or len(json.dumps(f)) > 2000 or small and len(json.dumps(f)) > 200:
                t = g.pick(types_for(g.cf))
                continue
            if t == 64 and f[2] or t == 55:
                t = g.pick([1, 5, 6, 15, 16, 33])
                continue
            return e

    g.fresh_pool()
    u = ["u"] * g.cf["m"]
    return {"q": some(g.q, ["n", "t", "c"] + u), "r": some(record, ["n", "d", "c", "ttl", "d"] + u)}


# ---- codes --------------------------------------------------------------------------------------------------

T8 = ["opcode", "rcode", "sshalg", "fptype", "naptr", "tlsause", "tlsasel", "tlsamat", "gw", "dhdig"]
T16 = ["rtype", "qtype", "qclass", "rclass", "ident", "tkmode", "tkerr", "tserr", "svckey", "csync", "aplfam"]


def codes(x, n):
    out = []
    for t in T8 + (["dsalg", "digest"] if x.cf["d"] else []):
        out.append(case("code", {"tab": t, "lo": 0, "hi": 255}, "C13"))
    for t in T16:
        step = 4096
        for lo in range(0, 65536, step):
            out.append(case("code", {"tab": t, "lo": lo, "hi": lo + step - 1}, "C13"))
    return out


def codes_q(x, n):
    """type and class numbers in questions and records"""
    g, out = x.g, []
    vals = sorted(set(list(range(0, 270)) + [32768, 32769, 33023, 65280, 65535, 512, 1024] + [g.r.randrange(65536) for _ in range(40)]))
    for v in x.sample(vals, n):
        out.append(dec(header(1) + [1, 97, 0] + w16(v) + [0, 1], "C13"))
        out.append(dec(header(1) + [1, 97, 0, 0, 1] + w16(v), "C13"))
        out.append(dec(header(0, 1) + [1, 97, 0] + w16(v) + [0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4], "C13"))
    return out


# ---- record sets ------------------------------------------------------------------------------------------------

def perms_of(g, m):
    ids = list(range(m))
    out = [ids, ids[::-1]]
    for _ in range(3):
        p = list(ids)
        g.r.shuffle(p)
        out.append(p)
    if m > 1:
        out.append(ids[1:])          # a member less
        out.append(ids + [g.r.randrange(m)])   # a member twice
    return out


def rrset_ex(x, n):
    g, out = x.g, []
    for l in x.sample(x.tlc("Gen_Rrset"), n):
        ds = [{"t": 10, "f": [list(d)]} for d in l]
        out.append(case("rrset", {"n": [[97], [98]], "t": 10, "c": 1, "ttl": [0, 0, 1, 44], "ds": ds, "perms": perms_of(g, len(ds))}, "C16"))
    return out


# fields with names whose letter case is dropped in the canonical form (RFC 4034, 6.2)
CANON = {2: [0], 5: [0], 12: [0], 6: [0, 1], 14: [0, 1], 15: [1], 33: [3], 35: [5], 46: [7]}
# all fields with names
NAMED = {**CANON, 47: [0], 64: [1], 249: [0], 250: [0]}


def lower_name(n):
    return [[b + 32 if 65 <= b <= 90 else b for b in l] for l in n]


def recase(g, n, p=0.5):
    return [[b ^ 32 if 65 <= b & 0xDF <= 90 and g.p(p) else b for b in l] for l in n]


def recased(g, d, p=0.5):
    """the same data with other letters in its names"""
    d = json.loads(json.dumps(d))
    for i in NAMED.get(d["t"], []):
        d["f"][i] = recase(g, d["f"][i], p)
    return d


def canon_wire(g, d):
    d = json.loads(json.dumps(d))
    for i in CANON.get(d["t"], []):
        d["f"][i] = lower_name(d["f"][i])
    e = Enc(g, 0)
    e.rdata(d)
    return e.b


def key_tag(alg, k):
    if alg == 1 and len(k) >= 7:
        return 256 * k[-3] + k[-2]
    s = sum(b if i & 1 else b << 8 for i, b in enumerate(k))
    return (s + (s >> 16)) & 0xFFFF


def sig_input(g, s, alg, sep, pk, inc, exp):
    """what a signature over the set covers (RFC 4034, 3.1.8.1); not spelled out for types with a choice of orders"""
    if s["t"] in (41, 45, 64):
        return []
    own = name_wire(lower_name(s["n"]))
    labels = len(s["n"]) - (s["n"][:1] == [[42]])
    out = w16(s["t"]) + [alg, labels] + s["ttl"] + w32(exp % 2**32) + w32(inc % 2**32) + w16(key_tag(alg, [1, sep, 3, alg] + pk)) + own
    for w in sorted(canon_wire(g, d) for d in s["ds"]):
        out += own + w16(s["t"]) + w16(s["c"]) + s["ttl"] + w16(len(w)) + w
    return out


def member_set(g, t, m):
    ds = []
    for _ in range(m):
        if ds and g.p(0.25):
            d = json.loads(json.dumps(g.pick(ds)))
            ds.append(recased(g, d) if g.p(0.5) else d)
        else:
            d = g.rdata(t)
            ds.append(recased(g, d) if g.p(0.4) else d)
    return ds


def rrset_rand(x, n):
    g, out = x.g, []
    ts = [t for t in types_for(x.cf)]
    for i in range(n):
        g.fresh_pool()
        t = ts[i % len(ts)]
        ds = member_set(g, t, g.pick([1, 2, 2, 3, 4, 6]))
        if t == 45:
            for d in ds:
                if d["f"][1] == [0]:
                    d["f"][1], d["f"][3] = [1], [1, 2, 3, 4]
        if t == 41:
            for d in ds:
                d["f"][0] = d["f"][0][:1]
        c = g.pick([1, 1, 2, 3, 4, 255, 512, 4096])
        nm = g.name()
        if g.p(0.4):
            nm = recase(g, nm)
        out.append(case("rrset", {"n": nm, "t": t, "c": c, "ttl": g.u32(), "ds": ds, "perms": perms_of(g, len(ds))}, "C16"))
    return out


def rrset_sort(x, n):
    """members that differ in one early or late byte, in length only, or in the order of shifted fields"""
    g, out = x.g, []
    for i in range(n):
        m = g.pick([2, 3, 5, 8])
        base = g.raw(g.pick([1, 4, 20]))
        ds = []
        for _ in range(m):
            b = list(base)
            k = g.r.randrange(4)
            if k == 0:
                b[-1] = g.pick([0, 127, 128, 255])
            elif k == 1:
                b[0] = g.pick([0, 127, 128, 255])
            elif k == 2:
                b = b[:g.r.randrange(len(b) + 1)]
            else:
                b = b + [g.pick([0, 255])]
            ds.append({"t": 10, "f": [b]})
        if i % 2:
            ds = [{"t": 16, "f": [[g.ascii(g.pick([0, 1, 2, 10]))] * g.pick([1, 2])]} for _ in range(m)]
        t = ds[0]["t"]
        out.append(case("rrset", {"n": g.name(), "t": t, "c": 1, "ttl": g.u32(), "ds": ds, "perms": perms_of(g, m)}, "C16"))
    return out


def rrset_prefix(x, n):
    """members that agree up to far behind their start"""
    g, out = x.g, []
    ls = [3, 8, 16, 30, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 4096]
    for i in range(n):
        m = g.pick([2, 3, 4, 6])
        k = ls[(i + x.seed) % len(ls)]
        t = g.pick([10, 10, 61, 16, 12, 6, 257, 48 if x.cf["d"] else 10])
        head = g.raw(k)
        tail = lambda: g.pick([[], [0], [255], g.raw(1), g.raw(2), [128, g.r.randrange(256)], [g.r.randrange(256)] + g.raw(20)])
        if t in (10, 61):
            ds = [{"t": t, "f": [head + tail()]} for _ in range(m)]
        elif t == 48:
            b = g.rdata(48)
            ds = [{"t": 48, "f": b["f"][:4] + [head + tail()]} for _ in range(m)]
        elif t == 16:
            c = [g.ascii(255) for _ in range(k // 256)]
            a = g.ascii(k % 200)
            ds = [{"t": 16, "f": [c + g.pick([[a + g.ascii(g.pick([0, 1, 2, 30]))], [a], [a] + [g.ascii(1)], []])]} for _ in range(m)]
            for d in ds:
                d["f"][0] = d["f"][0] or [[]]
        elif t == 257:
            b = g.rdata(257)
            ds = [{"t": 257, "f": b["f"][:2] + [g.ascii(k) + g.ascii(g.pick([0, 1, 2]))]} for _ in range(m)]
            ds = [{"t": 257, "f": ds[0]["f"][:2] + [ds[0]["f"][2][:k] + d["f"][2][k:]]} for d in ds]
        else:
            nm = [g.raw(g.pick([1, 5, 30, 63])) for _ in range(min(k, 200) // 40 + 1)]
            while len(name_wire(nm)) > 230:
                nm = nm[1:]
            names = [recase(g, nm, 0.3) + [[g.pick([65, 97, 98, 90])] for _ in range(g.pick([0, 1, 1, 2]))] for _ in range(m)]
            b = g.rdata(6)
            ds = [{"t": 12, "f": [v]} if t == 12 else {"t": 6, "f": [nm[:1], v[:2]] + b["f"][2:6] + [g.pick([b["f"][6], near_ttl(g, b["f"][6])])]} for v in names]
        out.append(case("rrset", {"n": g.name(), "t": t, "c": 1, "ttl": g.u32(), "ds": ds, "perms": perms_of(g, m)}, "C16"))
    return out


# ---- names as values ----------------------------------------------------------------------------------------------

def utf(l):
    try:
        return bytes(l).decode()
    except UnicodeDecodeError:
        return None


def fq_case(g, l):
    t = None
    if all(utf(z) is not None and b"." not in bytes(z) for z in l):
        t = ".".join(utf(z) for z in l)
        if g.p(0.15):
            t = t + "."
    elif all(utf(z) is not None for z in l):
        t = ".".join(utf(z) for z in l)
    return case("fq", {"l": l, "txt": list(t.encode()) if t else []}, "C19")


def fq_ex(x, n):
    ns = []
    seen = set()
    for v in x.tlc("Gen_Fqdn"):
        k = json.dumps(v["n"])
        if k not in seen:
            seen.add(k)
            ns.append(v["n"])
    return [fq_case(x.g, a) for a in x.sample(ns, n)]


def fq_rand(x, n):
    g, out = x.g, []
    for i in range(n):
        g.fresh_pool()
        l = g.name()
        k = g.r.randrange(8)
        if k == 0:
            l = [g.pick([[], [97], txt("local"), txt("LOCAL"), txt("locale"), txt("loca"), txt("a.local"), [46]]) for _ in range(g.r.randrange(5))]
        elif k == 1:
            l = l + [txt("local")]
        elif k == 2:
            l = [txt("local")] + l
        elif k == 3:
            l = [g.utf8(g.r.randrange(1, 20)) or [97] for _ in range(g.r.randrange(1, 5))]
        elif k == 4:
            l = [[97 + i % 26] for i in range(g.pick([1, 100, 127, 128, 200, 254, 255]))]
        out.append(fq_case(g, l))
    for t in ["", ".", "..", "a", "a.", ".a", "a..b", "...", "local", "local.", ".local", "x.local", "x.local.", "A.LOCAL", "a b", "é.ß", " ", "a.b.c.d.e.f"]:
        out.append(case("fq", {"l": [list(z.encode()) for z in t.split(".")], "txt": list(t.encode())}, "C19"))
    return out


def fcmp_ex(x, n):
    return [case("fcmp", {"a": v["n"], "b": v["m"]}, "C19") for v in x.sample(x.tlc("Gen_Fqdn"), n)]


def fcmp_rand(x, n):
    g, out = x.g, []
    for _ in range(n):
        a = g.name()
        k = g.r.randrange(5)
        if k == 0:
            b = [list(z) for z in a]
        elif k == 1 and a:
            b = [list(z) for z in a]
            i = g.r.randrange(len(b))
            j = g.r.randrange(len(b[i]))
            b[i][j] = g.pick([0, 255, 127, 128, b[i][j] ^ 32])
        elif k == 2 and a:
            b = a[:g.r.randrange(len(a))]
        elif k == 3 and len(a) > 1:
            b = [sum(a[:2], [])] + a[2:]
        else:
            b = g.name()
        out.append(case("fcmp", {"a": a, "b": b}, "C19"))
    return out


# ---- digests and signatures ----------------------------------------------------------------------------------------------

def dhcid_cases(x, n):
    g, out = x.g, []
    for i in range(n):
        nm, idt = g.name(), g.shaped(g.pick([0, 1, 2, 3, 5, 7, 8, 17, 32, g.r.randrange(61)]))
        nm = recase(g, nm) if g.p(0.3) else nm
        out.append(case("dhcid", {"n": nm, "id": idt, "code": i % 3, "pre": idt + name_wire(lower_name(nm))}, "C18"))
    return out


def ds_cases(x, n):
    g, out = x.g, []
    if not x.cf["d"]:
        return out
    for i in range(n):
        nm = g.name()
        nm = recase(g, nm) if g.p(0.3) else nm
        z, s, p = g.r.randrange(2), g.r.randrange(2), g.pick([3, 3, 3, 0, 255, g.r.randrange(256)])
        a = DSALG[i % len(DSALG)]
        k = g.r.randrange(6)
        m = g.pick([0, 1, 2, 3, 4, 31, 32, 63, 64, 65, 129, 130, 259, 260, 261, 515, g.r.randrange(300)])
        pk = [255] * m if k == 0 else [0] * m if k == 1 else [255, 0] * (m // 2) + [128] * (m % 2) if k == 2 else g.raw(m)
        key = [[z], [s], [p], [a], pk]
        out.append(case("ds", {"n": nm, "key": key, "dt": DIGEST[i // len(DSALG) % 4], "pre": name_wire(lower_name(nm)) + [z, s, p, a] + pk}, "C18"))
    return out


KEYS = None


def keys():
    global KEYS
    if KEYS is None:
        with open(os.path.join(HERE, "keys.json")) as f:
            KEYS = {int(k): [[list(bytes.fromhex(a)), list(bytes.fromhex(b))] for a, b in v] for k, v in json.load(f).items()}
    return KEYS


def sign_cases(x, n):
    """n record sets per algorithm, each with many verification attempts"""
    g, out = x.g, []
    if not x.cf["d"]:
        return out
    K = keys()
    t8 = lambda v: list(v.to_bytes(8, "big"))
    ts = [t for t in types_for(x.cf) if t not in (41, 45, 46)]
    i = 0
    for alg in sorted(K):
        for rep in range(n):
            i += 1
            g.fresh_pool()
            t = ts[i % len(ts)] if rep else 1
            t = g.pick([1, 2, 16, 15, 28, 6, 33]) if g.p(0.4) else t
            m = g.pick([1, 2, 3, 4, 4, 9, 18]) if rep % 4 else g.pick([5, 10, 33])
            ds = member_set(g, t, m)
            nm = g.longname() if rep % 5 == 4 else recase(g, g.name(), 0.2)
            if rep % 6 == 3:
                nm = [[42]] + nm[-100:]
                nm = nm if len(name_wire(nm)) <= 255 else nm[:2]
            if rep == 0:
                nm, ds = [txt("example"), txt("com")], [{"t": 1, "f": [[10, 0, 0, k]]} for k in (1, 2, 3)]
                t = 1
            s = {"n": nm, "t": t, "c": g.pick([1, 1, 1, 3, 4]), "ttl": g.u32(), "ds": ds}
            inc = g.pick([0, 1, 1700000000, 2**31, 2**32 - 1, 1234567890])
            exp = g.pick([1800000000, 2**32 - 1, inc + 3600, 2**31 + 5]) % 2**32
            nano = lambda: w32(g.pick([0, 1, 999999999, 500000000]))
            sk, pk = K[alg][rep % 2]
            opk = K[alg][1 - rep % 2][1]
            at = [{"set": s, "rf": [], "sg": [], "pk": pk}]
            if len(ds) > 1:
                at.append({"set": dict(s, ds=ds[::-1]), "rf": [], "sg": [], "pk": pk})
                at.append({"set": dict(s, ds=ds[1:] + ds[:1]), "rf": [], "sg": [], "pk": pk})
                at.append({"set": dict(s, ds=ds[1:]), "rf": [], "sg": [], "pk": pk})
            at.append({"set": dict(s, ds=[]), "rf": [], "sg": [], "pk": pk})
            at.append({"set": dict(s, ds=ds + ds[:1]), "rf": [], "sg": [], "pk": pk})
            at.append({"set": dict(s, ds=ds + [g.rdata(t)]), "rf": [], "sg": [], "pk": pk})
            at.append({"set": dict(s, n=[[120]] + nm if len(nm) < 100 and len(name_wire(nm)) < 250 else nm[1:]), "rf": [], "sg": [], "pk": pk})
            if nm:
                up = [[b ^ 32 if 65 <= b & 0xDF <= 90 else b for b in nm[0]]] + nm[1:]
                at.append({"set": dict(s, n=up), "rf": [], "sg": [], "pk": pk})
                at.append({"set": dict(s, n=recase(g, nm)), "rf": [[7, recase(g, nm)]], "sg": [], "pk": pk})
                at.append({"set": dict(s, n=[[b ^ 32 if b in (64, 91, 96, 123) else b ^ 32 if b > 192 else b for b in l] for l in nm]), "rf": [], "sg": [], "pk": pk})
                at.append({"set": s, "rf": [[7, lower_name(nm)]], "sg": [], "pk": pk})
                at.append({"set": dict(s, n=nm[1:]), "rf": [], "sg": [], "pk": pk})
            at.append({"set": dict(s, ttl=w32((int.from_bytes(bytes(s["ttl"]), "big") + g.pick([1, 256, 65536, 2**24, 2**31])) % 2**32)), "rf": [], "sg": [], "pk": pk})
            at.append({"set": dict(s, c=g.pick([c for c in (1, 2, 3, 4) if c != s["c"]])), "rf": [], "sg": [], "pk": pk})
            # other letters in the names of the members
            at.append({"set": dict(s, ds=[recased(g, d) for d in ds]), "rf": [], "sg": [], "pk": pk})
            # one byte of one member
            for _ in range(2):
                d2 = json.loads(json.dumps(ds))
                j = g.r.randrange(len(d2))
                d2[j] = g.rdata(t)
                at.append({"set": dict(s, ds=d2), "rf": [], "sg": [], "pk": pk})
            if t == 10 or t == 1:
                d2 = json.loads(json.dumps(ds))
                f = d2[g.r.randrange(len(d2))]["f"][0]
                if f:
                    f[g.r.randrange(len(f))] ^= 1 << g.r.randrange(8)
                    at.append({"set": dict(s, ds=d2), "rf": [], "sg": [], "pk": pk})
            # another type over the same bytes
            if t in (2, 5, 12):
                o = g.pick([z for z in (2, 5, 12) if z != t])
                at.append({"set": dict(s, t=o, ds=[{"t": o, "f": d["f"]} for d in ds]), "rf": [], "sg": [], "pk": pk})
            # fields of the signature record
            alg2 = g.pick([z for z in (1, 3, 5, 8, 10, 13, 14, 15, 16, 253) if z != alg])
            other = g.pick([z for z in types_for(x.cf) if z != t])
            rf = [[0, w16(other)], [1, [alg2]], [2, [(len(nm) + 1) % 256]], [2, [(len(nm) + 128) % 256]], [3, g.raw(4)], [4, g.raw(4)], [5, g.raw(4)], [6, g.raw(2)],
                  [7, [[122]] + nm if len(nm) < 100 and len(name_wire(nm)) < 250 else nm[1:]], [7, nm[1:]]]
            ex4, in4 = w32(exp), w32(inc % 2**32)
            for k in range(4):
                e2 = list(ex4)
                e2[k] ^= 1 << g.r.randrange(8)
                rf.append([4, e2])
                e2 = list(in4)
                e2[k] ^= 1 << g.r.randrange(8)
                rf.append([5, e2])
                e2 = list(s["ttl"])
                e2[k] ^= 1 << g.r.randrange(8)
                rf.append([3, e2])
            for f in rf:
                at.append({"set": s, "rf": [f], "sg": [], "pk": pk})
            at.append({"set": s, "rf": [[4, in4], [5, ex4]], "sg": [], "pk": pk})
            # signature bytes
            for o in (["flip", 0], ["flip", 7], ["flip", g.r.randrange(8000)], ["flip", g.r.randrange(8000)], ["flip", g.r.randrange(8000)], ["cut"], ["ext"], ["zero"], ["empty"]):
                at.append({"set": s, "rf": [], "sg": [o], "pk": pk})
            # public key
            at.append({"set": s, "rf": [], "sg": [], "pk": opk})
            for _ in range(3):
                k2 = list(pk)
                k2[g.r.randrange(len(k2))] ^= 1 << g.r.randrange(8)
                at.append({"set": s, "rf": [], "sg": [], "pk": k2})
            at.append({"set": s, "rf": [], "sg": [], "pk": pk[:-1]})
            if alg in (1, 5, 8, 10):
                # the same key with the exponent length in three octets
                at.append({"set": s, "rf": [], "sg": [], "pk": [0] + w16(pk[0]) + pk[1:]})
                at.append({"set": s, "rf": [], "sg": [], "pk": [0] + w16(pk[0] + 256) + [0] * 256 + pk[1:]})
                at.append({"set": s, "rf": [], "sg": [], "pk": [0] + w16(pk[0] + 1) + pk[1:]})
            at.append({"set": s, "rf": [], "sg": [], "pk": []})
            sep = g.r.randrange(2)
            out.append(case("sign", {"alg": alg, "sk": sk, "pk": pk, "sep": sep, "pre": sig_input(g, s, alg, sep, pk, inc, exp), "inc": [t8(inc), nano()], "exp": [t8(exp), nano()], "set": s, "at": at}, "C17"))
    for alg in (252, 253, 254):
        s = {"n": [[97]], "t": 1, "c": 1, "ttl": [0, 0, 0, 1], "ds": [{"t": 1, "f": [[1, 2, 3, 4]]}]}
        out.append(case("sign", {"alg": alg, "sk": [1, 2, 3], "pk": [1, 2, 3], "sep": 0, "pre": [], "inc": [t8(1), w32(0)], "exp": [t8(2), w32(0)], "set": s, "at": []}, "C17"))
    return out


def sign_big(x, n):
    """sets of many or large members, changed in one place anywhere"""
    g, out = x.g, []
    if not x.cf["d"]:
        return out
    K = keys()
    t8 = lambda v: list(v.to_bytes(8, "big"))
    algs = [15, 13, 14, 8, 10, 5, 16]
    shapes = [[33000, 33000], [60000, 9000], [1] * 300, [250] * 270, [65000], [4] * 129, [1024] * 20, [5000] * 14, [300] * 40]
    for i in range(n):
        shape = shapes[(i + x.seed) % len(shapes)]
        alg = algs[i % len(algs)]
        sk, pk = K[alg][i % 2]
        t = 10
        ds = [{"t": 10, "f": [[j // 256, j % 256] + g.raw(k)]} for j, k in enumerate(shape)]
        g.r.shuffle(ds)
        s = {"n": g.name(), "t": t, "c": 1, "ttl": g.u32(), "ds": ds}
        at = [{"set": s, "rf": [], "sg": [], "pk": pk}]
        order = sorted(range(len(ds)), key=lambda j: ds[j]["f"][0])
        for j in {order[-1], order[len(order) // 2], g.pick(order)}:
            d2 = list(ds)
            f = list(d2[j]["f"][0])
            f[g.pick([-1, len(f) // 2 + 1])] ^= 1 << g.r.randrange(8)
            d2[j] = {"t": 10, "f": [f]}
            at.append({"set": dict(s, ds=d2), "rf": [], "sg": [], "pk": pk})
        if len(ds) > 1:
            at.append({"set": dict(s, ds=[ds[j] for j in order[:-1]]), "rf": [], "sg": [], "pk": pk})
            at.append({"set": dict(s, ds=ds[::-1]), "rf": [], "sg": [], "pk": pk})
        inc, exp = 1700000000, 1800000000
        out.append(case("sign", {"alg": alg, "sk": sk, "pk": pk, "sep": 1, "pre": sig_input(g, s, alg, 1, pk, inc, exp), "inc": [t8(inc), w32(0)], "exp": [t8(exp), w32(0)], "set": s, "at": at}, "C17"))
    return out


# ---- one case per recorded finding, so that every run shows whether it is still there ----

def known(x, n):
    out = []
    out.append(enc(pkt([], [rec([[97]], {"t": 64, "f": [[0, 1], [[98]], [[w16(3), [[1, 187]]]]]})])))                        # K1
    out.append(rd(16, [3, 97, 255, 98]))                                                                                 # K2
    out.append(rd(42, [0, 1, 8, 1, 10, 0, 1, 16, 2, 10, 1]))                                                              # K5
    out.append(rd(42, []))                                                                                               # K5
    out.append(enc(pkt([], [rec([[97]], {"t": 45, "f": [[10], [0], [2], [], [], [1, 2, 3]]})])))                          # K6
    out.append(rd(45, [10, 0, 2, 1, 2, 3]))                                                                              # K6
    out.append(rd(64, [0, 1, 0, 0, 4, 0, 8, 10, 0, 0, 1, 10, 0, 0, 2], [], [], "C21"))                                     # K7
    return out


# ---- sizes: every list and every block of bytes at lengths a sample would not reach ----------------------

LISTS = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
SMALL = list(range(0, 71)) + [80, 96, 100, 119, 120, 126, 127, 128, 129, 130, 160, 192, 199, 200, 201, 240, 253, 254, 255, 256, 257, 258, 300]
BIG = [383, 384, 511, 512, 513, 767, 1000, 1023, 1024, 1025, 1232, 1499, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 20000]
HUGE = [32766, 32767, 32768, 32769, 40000, 65000]


def distinct_names(g, k, short=False):
    """k different short names"""
    out = []
    for i in range(k):
        n = [[97 + i % 26, 97 + i // 26 % 26], [98 + i % 3]] if not short else [[97 + i % 26, 97 + i // 26 % 26]]
        out.append(n)
    return out


def list_values(g, cf, k):
    """values whose list field has k elements (as (type, fields))"""
    r = g.r
    out = [(16, [[g.ascii(r.randrange(0, 4)) for _ in range(k)]])]
    out.append((55, [g.alg(), g.raw(16), g.raw(5), distinct_names(g, k)]))
    out.append((41, [sorted([w16(1 + (i * 251) % 65521), g.raw(r.randrange(0, 4))] for i in range(k))]))
    keys = sorted(r.sample(range(65280, 65535), min(k, 250)))
    ps = [[w16(z), [g.raw(r.randrange(0, 3))]] for z in keys]
    r.shuffle(ps)
    out.append((64, [[0, 1], [[97]], ps]))
    out.append((64, [[0, 1], [[97]], [[w16(1), [g.raw(r.randrange(1, 4)) for _ in range(k)]]]]))
    mand = sorted(r.sample([1, 2, 3, 4, 5, 6] + list(range(65280, 65535)), min(k, 256)))
    out.append((64, [[0, 1], [[97]], [[w16(0), [w16(z) for z in mand]]]]))
    if k <= 255:
        out.append((35, [g.u16(), g.u16(), [g.pick(b"SAUP") for _ in range(k)], g.cs(3), g.ascii(4), [[97]]]))
    return out


# fields that hold a block of bytes: (type, index, longest)
BLOBS = [(10, 0, 65535), (61, 0, 65535), (11, 2, 65000), (13, 0, 255), (13, 1, 255), (16, None, 255), (35, 3, 255), (35, 4, 255), (43, 3, 65000), (59, 3, 65000),
         (44, 2, 65000), (45, 5, 65000), (46, 8, 65000), (48, 4, 65000), (60, 4, 65000), (49, 1, 65000), (52, 3, 65000), (55, 1, 255), (55, 2, 65000), (64, "p", 65000),
         (64, "e", 65000), (64, "a", 255), (41, "o", 65000), (249, 5, 65000), (249, 6, 65000), (250, 3, 65000), (250, 6, 65000), (256, 2, 65000), (257, 1, 255), (257, 2, 65000)]


def blob_value(g, t, i, m):
    d = g.rdata(t)
    f = d["f"]
    v = g.ascii(m) if (t, i) in ((35, 4),) else [g.pick(b"abcXYZ019") for _ in range(m)] if (t, i) == (257, 1) else g.raw(m)
    if t == 16:
        f[0] = [g.ascii(m)]
    elif t == 64:
        f[2] = [[w16(65300), [v]]] if i == "p" else [[w16(5), [v]]] if i == "e" else [[w16(1), [v]]]
        f[2] += [[w16(65301), [[1]]], [w16(2), []]][:g.r.randrange(3)]
    elif t == 41:
        f[0] = sorted([[w16(g.n16()), v]] + [[w16(9), [1, 2]]][:g.r.randrange(2)])
        if len(f[0]) == 2 and f[0][0][0] == f[0][1][0]:
            f[0] = f[0][:1]
    elif t == 45 and f[1] == [0]:
        f[1], f[3], f[i] = [1], [1, 2, 3, 4], v
    else:
        f[i] = v
        if t in (249, 250):          # the other block of the record stays short
            o = {5: 6, 6: 5} if t == 249 else {3: 6, 6: 3}
            f[o[i]] = g.raw(3)
    return d


def blob_lengths(g, t, i, top, n):
    lo = 1 if (t, i) in ((256, 2), (257, 1), (64, "e"), (64, "a")) else 0
    ms = [m for m in SMALL if lo <= m <= top]
    big = [m for m in BIG if m <= top]
    huge = [m for m in HUGE if m <= top]
    if n >= 100:
        return ms + big + huge
    # all short ones, some of the others
    return ms + g.r.sample(big, min(n, len(big))) + g.r.sample(huge, min(1, len(huge)))


def pack(g, ds, room=1800, grp="", tag=""):
    """record data values in packets, up to room bytes each"""
    out, cur, used = [], [], 0
    for d in ds:
        m = len(json.dumps(d)) // 4
        if cur and (used + m > room or len(cur) >= 7):
            out.append(cur)
            cur, used = [], 0
        cur.append(d)
        used += m
    if cur:
        out.append(cur)
    res = []
    for i, c in enumerate(out):
        rs = [rec(g.pick([[[97]], [[98], [97]], [[99]]]), d, ttl=g.u32()) for d in c] + [rec([[122]], {"t": 1, "f": [[9, 8, 7, 6]]})]
        k = len(rs) // 2
        res.append(enc(pkt([q([[97]])], rs[:k], [], rs[k:], fl=g.flags()), i, 0, grp))
    return res


def enc_scale(x, n):
    """blocks of bytes of every short length and some long ones, in every field that holds one"""
    g, ds = x.g, []
    ok = set(types_for(x.cf))
    for t, i, top in BLOBS:
        if t in ok:
            g.fresh_pool()
            ds += [blob_value(g, t, i, m) for m in blob_lengths(g, t, i, top, n)]
    return pack(g, ds)


def enc_lists(x, n):
    """lists of many lengths, in every field that holds one"""
    g, ds = x.g, []
    for k in LISTS if n >= 34 else sorted(g.r.sample(LISTS, n)):
        ds += [{"t": t, "f": f} for t, f in list_values(g, x.cf, k) if t in types_for(x.cf)]
    g.r.shuffle(ds)
    return pack(g, ds, 1800)


def params_scale(x, n):
    g, ds = x.g, []
    for k in LISTS if n >= 34 else sorted(g.r.sample(LISTS, n)):
        ds += [{"t": t, "f": f} for t, f in list_values(g, x.cf, k) if t in (41, 64)]
    for t, i, top in BLOBS:
        if t in (41, 64):
            ds += [blob_value(g, t, i, m) for m in blob_lengths(g, t, i, top, n)]
    g.r.shuffle(ds)
    return pack(g, ds, 1800, "C21")


def enc_labels(x, n):
    """names with labels of every length and of every number of labels, as question, owner and data names"""
    g, out = x.g, []
    ns = [[[97 + m % 26] * m] for m in range(1, 64)] + [[[97 + i % 26] for i in range(k)] for k in range(1, 128)]
    ns += [[g.raw(m), [97] * (64 - m)] for m in range(1, 64, 5)]
    if n < len(ns):
        ns = g.r.sample(ns, n)
    for i in range(0, len(ns), 2):
        a = ns[i]
        b = ns[(i + 1) % len(ns)]
        out.append(enc(pkt([q(a)], [name_rec(g, b, a)], [name_rec(g, a, b)], [rec(a[len(a) // 2:], {"t": 1, "f": [[1, 2, 3, 4]]})]), i // 2, 0))
    return out


def enc_crowd(x, n):
    """many different names in one message, each used again: the compression table at size"""
    g, out = x.g, []
    for i in range(n):
        k = [20, 33, 64, 100, 130, 257, 300][i % 7]
        base = g.pick([[], [txt("example"), txt("com")]])
        ns = [[list(b"n%d" % j)] + base for j in range(k)]
        rs = [rec(a, {"t": 1, "f": [[10, 0, j // 256, j % 256]]}) for j, a in enumerate(ns)]
        rs += [rec(g.pick(ns), {"t": 5, "f": [g.pick(ns)]}) for _ in range(20)]
        rs += [rec(a, {"t": 1, "f": [[10, 1, 0, 0]]}) for a in ns[:2] + ns[-2:]]
        out.append(enc(pkt([q(ns[0])], rs), i, 0))
    return out


def enc_crowd2(x, n):
    """still more names, as questions, the first and last of them used again"""
    g, out = x.g, []
    for i in range(n):
        k = [514, 1026, 700, 1300][i % 4]
        ns = [[list(b"%x" % j)] for j in range(k)]
        out.append(enc(pkt([q(a) for a in ns + ns[:3] + g.r.sample(ns, 10) + ns[-3:]], [rec(ns[0], {"t": 5, "f": [ns[1]]}), rec(ns[-1], {"t": 5, "f": [ns[-2]]})]), i, 0))
    return out


def enc_64k(x, n):
    """messages of more than 65535 bytes"""
    g, out = x.g, []
    for i in range(n):
        a, b = [txt("alpha"), txt("beta")], [txt("late"), txt("beta")]
        m = [65535 - 12 - 13 - 20, 40000, 65535, 33000][i % 4]
        fill = [rec([[102]], {"t": 10, "f": [[(j * 7 + k) % 251 for j in range(m)]]}) for k in range(2)]
        rs = [rec(a, {"t": 5, "f": [b]})] + fill + [rec(a, {"t": 2, "f": [b]}), rec(b, {"t": 15, "f": [[0, 1], a]}), rec([[113], [114]], {"t": 2, "f": [[[113], [114]]]}),
                                                 rec([[113], [114]], {"t": 1, "f": [[1, 2, 3, 4]]})]
        out.append(enc(pkt([q(a)], rs[:2], rs[2:3], rs[3:]), i, 0))
    return out


def dec_scale(x, n):
    """the same sizes in messages this suite writes itself, with an entry behind"""
    g, out = x.g, []
    ok = set(types_for(x.cf))
    for t, i, top in BLOBS:
        if t not in ok:
            continue
        ms = blob_lengths(g, t, i, top, 100)
        for m in g.r.sample([m for m in ms if m <= 300], n) + g.r.sample(ms, 1 if n < 10 else 6):
            g.fresh_pool()
            d = blob_value(g, t, i, m)
            out.append(dec(wire(x, pkt([q([[97]])], [rec([[97], [98]], d)], [], [rec([[97]], {"t": 1, "f": [[1, 2, 3, 4]]})]))[0], "C10"))
    for k in g.r.sample(LISTS, min(len(LISTS), 2 * n)):
        for t, f in list_values(g, x.cf, k):
            if t in ok:
                out.append(dec(wire(x, pkt([], [rec([[97], [98]], {"t": t, "f": f})], [], [rec([[97]], {"t": 1, "f": [[1, 2, 3, 4]]})]))[0], "C10"))
    return out


def names_deep(x, n):
    """names behind chains of k pointers, with and without a label at each step"""
    g, out = x.g, []
    ks = list(range(1, 41)) + [48, 62, 63, 64, 65, 80, 99, 100, 101, 110, 119, 120, 121, 122, 123, 124, 125, 126]
    for k in ks if n >= len(ks) else g.r.sample(ks, n):
        pad = g.pick([0, 0, 250, 5000])
        for lab in (0, 1):
            b = [7] * pad
            st = len(b)
            b += [1, 98, 0]
            sts = [st]
            for j in range(k):
                o = sts[-1]
                sts.append(len(b))
                b += ([1, 97 + j % 26] if lab else []) + [192 | o >> 8, o & 255]
            out.append(name_case(b, sorted(set([sts[-1], sts[len(sts) // 2], sts[max(0, len(sts) - 2)]]))))
            e = len(b)
            # the same chain used by a record owner of a message
            if pad == 0:
                m = header(0, 2) + [0, 0, 10, 0, 1, 0, 0, 0, 0] + w16(0)
                base = len(m)
                mb, so = [1, 98, 0], [base]
                for j in range(k):
                    o = so[-1]
                    so.append(base + len(mb))
                    mb += ([1, 97 + j % 26] if lab else []) + [192 | o >> 8, o & 255]
                m[-2:] = w16(len(mb))
                m += mb + [192 | so[-1] >> 8, so[-1] & 255, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]
                out.append(dec(m, "C06"))
    for m in range(1, 64):
        if n >= len(ks) or g.p(0.3):
            out.append(name_case([m] + g.raw(m) + [0, 1, 97, 192, 0], [0, m + 2]))
    return out


def cursor_big(x, n):
    """buffers of more than 65535 bytes and far positions"""
    g, out = x.g, []
    for i in range(n):
        m = [65535, 65536, 65537, 70000, 33000, 40000, 131080][i % 7]
        b = [(j * 31 + j // 256) % 256 for j in range(m)]
        ops = []
        at = [0, 1, 255, 256, 32767, 32768, 65533, 65534, 65535, 65536, 65537, m - 4, m - 2, m - 1, m, m + 1]
        for _ in range(12):
            s = g.pick(at)
            ops.append(["seek", s])
            ops.append(g.pick([["u8", 0], ["u16", 0], ["u32", 0], ["u16as", 0], ["take", g.pick([1, 3, 300])], ["peek", g.pick([1, 5])], ["adv", g.pick([1, 300, 32768, 65535, 65536])],
                               ["sub", g.pick([10, 400])]]))
            if ops[-1][0] == "sub":
                ops += [["u8", 0], ["u16", 0], ["take", 4], ["adv", 390], ["seek", 11], ["pop", 0]]
        out.append(case("cur", {"b": b, "ops": ops}, "C12"))
    return out


def rrset_big(x, n):
    """record sets of many members"""
    g, out = x.g, []
    ks = [9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 22, 24, 32, 33, 40, 48, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300]
    for k in ks if n >= len(ks) else g.r.sample(ks, n):
        for t in g.r.sample([1, 10, 16, 15], 2):
            if t == 1:
                ds = [{"t": 1, "f": [g.raw(4)]} for _ in range(k)]
            elif t == 10:
                ds = [{"t": 10, "f": [g.raw(g.r.randrange(0, 6))]} for _ in range(k)]
            elif t == 16:
                ds = [{"t": 16, "f": [[g.ascii(g.r.randrange(0, 5))] * g.pick([1, 2])]} for _ in range(k)]
            else:
                ds = [{"t": 15, "f": [g.u16(), [[97 + j % 26], [98]]]} for j in range(k)]
            ids = list(range(k))
            sh = list(ids)
            g.r.shuffle(sh)
            out.append(case("rrset", {"n": g.pick([[[97]], [[97], [98]], []]), "t": t, "c": 1, "ttl": g.u32(), "ds": ds, "perms": [ids, ids[::-1], sh]}, "C16"))
    return out


def fq_scale(x, n):
    """names of every label length and number of labels"""
    g, out = x.g, []
    ls = [[[97 + m % 26] * m] for m in range(1, 64)] + [[[97 + i % 26] for i in range(k)] for k in range(1, 128)]
    ls += [[g.ascii(m).copy(), txt("local")] for m in range(1, 64, 4)] + [[[120]] * k + [txt("local")] for k in (1, 2, 3, 5, 20, 60, 121)]
    for l in x.sample(ls, n):
        out.append(fq_case(g, [[b if b != 46 else 45 for b in z] for z in l]))
    for _ in range(n):
        # long names that differ in one place
        a = x.g.longname()
        b = [list(z) for z in a]
        k = g.r.randrange(4)
        i = g.r.randrange(len(b))
        if k == 0:
            b[i][g.r.randrange(len(b[i]))] ^= g.pick([1, 32, 128])
        elif k == 1:
            b = b[:-1]
        elif k == 2:
            b[-1] = b[-1][:-1] or [98]
        out.append(case("fcmp", {"a": a, "b": b}, "C19"))
    return out


def enc_spread(x, n):
    """names first written at offsets all over the range a pointer can express, and used again"""
    g, out = x.g, []
    for i in range(n):
        at, rs, ns = 12 + 3 + 4, [], []
        while at < 17500:
            m = g.pick([1, 7, 100, 200, 255, 256, 400, 900])
            nm = [list(b"k%d" % len(ns)), g.pick([[122], list(b"zone%d" % (len(ns) // 3))])]
            ns.append(nm)
            rs.append(rec(nm, {"t": 10, "f": [[i % 256] * m]}))
            at += m + len(name_wire(nm)) + 10
            if g.p(0.3):
                rs.append(name_rec(g, g.pick(ns), g.pick(ns)))
        rs += [name_rec(g, g.pick(ns), a) for a in g.r.sample(ns, min(25, len(ns)))]
        rs += [rec([[97]] + a, {"t": 5, "f": [[[98]] + a]}) for a in g.r.sample(ns, 6)]
        out.append(enc(pkt([q([[122]])], rs), i, 0))
    return out


# ---- inputs found by running very many of them ------------------------------------------------------------------

def hunt(x, kind, seeds, iters, keep, procs=4, limit=8000):
    """Has the harness try iters thousand variations and returns those on which the implementation contradicts
    itself, with others of every kind of outcome up to keep. The judgement is the specification's."""
    if not x.bin:
        return []
    work = os.path.join(os.path.dirname(HERE), "work")
    os.makedirs(work, exist_ok=True)
    d = tempfile.mkdtemp(prefix="hunt_", dir=work)
    try:
        with open(d + "/seeds", "w") as f:
            for v in seeds:
                f.write(json.dumps(v) + "\n")
        cmds = [[x.bin, "hunt", kind, d + "/seeds", d + "/out%d" % i, str(x.seed * 100 + i), str(max(1, iters * 1000 // procs if kind != "crowd" else iters // procs)), str(limit)] for i in range(procs)]
        lim = lambda: (resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)), resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        ps = [subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lim) for c in cmds]
        odd, rest = [], []
        for i, p in enumerate(ps):
            if p.wait():
                # hang or crash: once more, noting every input before it is used
                subprocess.run(cmds[i] + [d + "/log"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lim)
                try:
                    with open(d + "/log") as f:
                        odd.append(json.load(f))
                except (OSError, ValueError):
                    pass
                continue
            with open(d + "/out%d" % i) as f:
                for l in f:
                    v = json.loads(l)
                    (odd if v["key"][0] == "!" else rest).append(v["case"])
        return x.sample(odd, max(20, keep // 2)) + x.sample(rest, keep)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rd_seeds(x, per=10):
    out, g = [], x.g
    for t in types_for(x.cf):
        for _ in range(per):
            g.fresh_pool()
            w = rd_wire(x, g.rdata(t))[0]
            if len(w) < 400:
                out.append({"t": t, "d": w})
    return out


def hunt_rd(x, n):
    return hunt(x, "rd", rd_seeds(x), n, 900 if x.tier == "quick" else 6000)


def hunt_pkt(x, n):
    return hunt(x, "pkt", rd_seeds(x), n, 80 if x.tier == "quick" else 1000)


def hunt_msg(x, n):
    g = x.g
    ws = [wire(x, g.packet())[0] for _ in range(150)]
    return hunt(x, "msg", [{"b": w} for w in ws if len(w) < 900], n, 150 if x.tier == "quick" else 2000)


def hunt_crowd(x, n):
    return hunt(x, "crowd", [], n, 1)
