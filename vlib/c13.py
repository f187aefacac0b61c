from .core import *
from .bigs import big, G
from .c12 import rs
import itertools
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("ViewMC", dict(Alpha={97, 10, 13}, MaxS=4 if q else 5), inv=["Same", "InBuf"], view="View", gen=True)
    exe = c.build("strs"); K = dict(CheckMem=False)
    def line(h): return "vset " + hx(bytes(h["s"])) if h["op"] == "vset" else h["op"] if h["op"] == "chomp" else "%s %d" % (h["op"], h["n"])
    c.conform("tlc-views", exe, [["S"] + [line(h) for h in g] for g in gen], "StrTrace", K)
    ses = []
    for i in range(150 if q else 1500):
        al = r.choice([b"ab\r\n", b"\r\n", bytes(range(256)), b"\0\n"])
        s = ["S", "vset " + hx(rs(r, r.choice([0, 1, 5, 30, 200]), al) + rs(r, r.choice([0, 0, 1, 3]), b"\r\n"))]
        for _ in range(r.randint(2, 12)):
            n = r.choice([0, 1, 1, 2, 3, 7, 20, 500, 2**31, 2**63, 2**64 - 1])
            s.append(r.choice(["shl %d" % n, "shr %d" % n, "chomp"]))
        ses.append(s)
    c.conform("random-views", exe, ses, "StrTrace", K)
    ops = []
    small = [bytes(x) for n in range(0, 4) for x in itertools.product(b"ab", repeat=n)]
    for a in small:
        for b in small:
            ops += ["eq %s %s" % (hx(a), hx(b)), "contains %s %s" % (hx(a), hx(b))]
            for p in range(0, len(a) + 2): ops.append("here %s %d %s" % (hx(a), p, hx(b)))
    for a in small:
        for ch in b"abc": ops.append("rchr %s %d" % (hx(a), ch))
        for o in range(5): ops.append("hash %s %d" % (hx(a), o))
    def s_(): return rs(r, r.choice([0, 1, 2, 5, 17, 64, 250]), r.choice([b"ab", bytes(range(256)), b"\0a", b"\xff\x80"]))
    for i in range(600 if q else 8000):
        a, b = s_(), s_()
        x = r.random()
        if x < .25:
            b = r.choice([a, a + b"\0", a[:-1], bytes([a[0] ^ 128]) + a[1:] if a else b, a[:-1] + bytes([a[-1] ^ 1]) if a else b, b])
            ops.append("eq %s %s" % (hx(a), hx(b)))
        elif x < .45:
            if a and r.random() < .7:
                i0 = r.randrange(len(a)); b = a[i0:i0 + r.randint(0, 6)]
                if b and r.random() < .3: b = b[:-1] + bytes([b[-1] ^ 1])
            ops.append("contains %s %s" % (hx(a), hx(b)))
        elif x < .65:
            i0 = r.randrange(len(a) + 1); b = a[i0:i0 + r.randint(0, 6)]
            if r.random() < .2: b += b"\0"
            ops.append("here %s %d %s" % (hx(a), r.choice([i0, i0, i0, i0 + 1, len(a), len(a) + 1, len(a) + 2, 2**31, 2**63, 2**64 - 1, 2**64 - len(b) - 1]), hx(b)))
        elif x < .8:
            ch = r.choice(a) if a and r.random() < .8 else r.randrange(256)
            ops.append("rchr %s %d" % (hx(a), r.choice([ch, ch - 256 if ch > 127 else ch])))
        else: ops += ["hash %s %d" % (hx(a), o) for o in r.sample(range(9), 3)]
    for p in (0, 1, 2, 3, 2**64 - 1, 2**64 - 3, 2**32): ops += ["here 6162 %d -" % p, "here - %d -" % p, "here 6162 %d 61" % p]
    c.conform("compare-search-hash", exe, [["S"] + ops[i:i + 50] for i in range(0, len(ops), 50)], "StrTrace", K)
    ops = []
    for n in [0, 1, 2, 3, 7, 8, 15, 16, 17, 100, 255, 256, 500, 998, 999]:
        for al in (b"xyz", bytes(range(1, 256)), bytes(range(256))):
            t = rs(r, n, al)
            ops += ["copy " + hx(t), "dup " + hx(t), "fromchar " + hx(t)]
            ops += ["fmt " + hx(t), "acc " + hx(t), "new %d" % n]
            u = r.choice([t, t[:-1] + b"\x01", t + b"\0z", rs(r, n, al)])
            for k in sorted({0, 1, n // 2, n - 1, n}): 
                if 0 <= k <= min(n, len(u)): ops.append("cmp %s %s %d" % (hx(t), hx(u), k))
            for k in sorted({0, 1, n // 2, n}):
                if k <= n: ops.append("dupn %s %d" % (hx(t), k))
    ops += ["lit", "new 65535", "new 65536", "new 1000000", "new 70000000"]
    c.conform("copies", exe, [["S"] + ops[i:i + 30] for i in range(0, len(ops), 30)], "StrTrace", K)
    # lengths, offsets and needles around powers of two
    ses = []
    W = SWEEP + WIDE[:3] + ([] if q else WIDE)
    for n in W:
        t = lambda k: bytes(r.choice(b"\r\n") for _ in range(k))
        s = ["S"]
        for v in (t(n), b"x" + t(n), rs(r, 3, b"a\n") + b"x" + r.choice([b"\n", b"\r"]) * n, rs(r, n, b"ab") + b"x\r\n", t(3) + b"x" * n):
            s += ["vset " + hx(v), "chomp", "chomp"]
        s += ["vset " + hx(rs(r, n, b"ab\n"))] + [o for k in (n - 1, n, n + 1, n // 2) for o in ("vset " + hx(rs(r, n, b"ab")), r.choice(["shl %d", "shr %d"]) % k, r.choice(["shl %d", "shr %d"]) % (n // 2))] if n < 10000 else ["vset " + hx(rs(r, n, b"ab")), "shr %d" % (n - 2), "shl 1"]
        ses.append(s)
    for n in W:
        a = rs(r, n, b"ab"); ops = ["S"]; z = bytes([a[-1] ^ 1])
        ops += ["eq %s %s" % (hx(a), hx(b)) for b in ((a, a[:-1] + z, a[:-1]) if n < 10000 else (a, a[:-1] + z))]
        if n < 10000: ops += ["eq %s %s" % (hx(a), hx(a[:p] + bytes([a[p] ^ 1]) + a[p + 1:])) for p in (0, n // 2, n - 2)]
        m = r.choice([1, 2, 5, 8, 31])
        ops += ["contains %s %s" % (hx(a + b"XYZ" * m), hx(b"XYZ" * m)), "here %s %d %s" % (hx(a + b"XYZ" * m), n, hx(b"XYZ" * m)), "contains %s %s" % (hx(a + b"XYZ" * m), hx(b"XYZ" * m + b"Q"))]
        ops += ["contains %s %s" % (hx(b"ab" + b"X" + a + b"ab"), hx(b"X" + a)), "contains %s %s" % (hx(b"ab" + b"X" + a[:-1] + b"ab"), hx(b"X" + a[:-1] + z * 2 + b"Z")), "here %s 2 %s" % (hx(b"abX" + a[:-1] + b"Z"), hx(b"X" + a)), "here %s 2 %s" % (hx(b"abX" + a), hx(b"X" + a))]
        ops += ["rchr %s %d" % (hx(b"c" + a), 99), "rchr %s %d" % (hx(a + b"c"), 99), "rchr %s %d" % (hx(b"xc" + a + b"y"), 99)]
        ops += ["hash %s %d" % (hx(a), o) for o in (0, 3, 6)] + ["hash %s 1" % hx(a[:-1] + z)]
        ops += [o + hx(a) for o in ("copy ", "dup ", "fromchar ")] + (["fmt " + hx(a), "acc " + hx(a)] if n < 1000 else []) + ["new %d" % n, "dupn %s %d" % (hx(a), n), "dupn %s %d" % (hx(a + b"zz"), n)]
        ops.append("cmp %s %s %d" % (hx(a), hx(a[:-1] + z), n - 1)); ops.append("cmp %s %s %d" % (hx(a), hx(a[:-1] + z), n))
        ses.append(ops)
    r.shuffle(ses)
    c.conform("around-powers-of-two", exe, ses, "StrTrace", K)
    ops = ["contains %s %s" % (hx(rs(r, p, b"ab") + b"Xaab" + rs(r, 9000, b"ab")), hx(b"Xaab")) for n in SWEEP for p in (n - 1, n, n + 1)]
    c.conform("offsets-in-long", exe, [["S"] + ops[i:i + 5] for i in range(0, len(ops), 5)], "StrTrace", K)
    for o in ("contains", "rchr"):       # a match at every offset of a long text
        ops = []
        for p in list(range(8180, 8210)) + [r.randrange(200, 20000) for _ in range(10)]:
            t = rs(r, p, b"ab")
            ops.append("contains %s %s" % (hx(t + b"Xaab" + b"ab" * r.choice([0, 40])), hx(b"Xaab")) if o == "contains" else "rchr %s 88" % hx(rs(r, r.choice([0, 40]), b"ab") + b"X" + t))
        c.conform("offsets-" + o, exe, [["S"] + ops[i:i + 5] for i in range(0, len(ops), 5)], "StrTrace", K)
    z = lambda: r.randint(1, 60)
    l = ["eq 0 %d %s %d %s" % (G + a, x, G + b, y) for a, x, b, y in ((4, "616263", 4, "616263"), (4, "616263", 4, "616264"), (4, "616263", 7, "-"), (9, "61", 9, "6161"))]
    l += ["here 97 %d 6162 %d %s %d" % (G + 9, n, t, p) for n, t, p in ((6, "6162", G + 3), (6, "6163", G + 3), (7, "6162", G + 3), (0, "61616162", G + 8), (G, "61", 3), (G, "62", 3), (G + 5, "6162", 4))]
    l += [["rchr 97 %d %s %d" % (G + 9, "626262", 97), "rchr 97 %d - 97" % (G + 1)], "rchr 97 %d 62 99" % (G + 1), "contains 97 %d 6261626262 616262" % (G + 4), "contains 97 %d 6261626262 626361" % (G + 4)]
    l += [["shr 97 %d 61 %d" % (G + 4, k) for k in (G, G + 3, G + 5, G + 6, 2**33, 2**31)], ["shl 97 %d 61 %d" % (G + 4, k) for k in (3, G, G + 5, G + 6, 2**33, 2**31)], ["chomp 97 %d 620d0a0a" % (G + 4), "chomp 97 %d -" % (G + 4)]]
    l += [["copy 97 %d 616263" % (G + z()), "dup 97 %d 616200" % (G + z()), "dupn 97 %d 00616263" % (G + z()), "fromchar 97 %d 616263" % (G + z())]]
    big(c, l)
