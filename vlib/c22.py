from .core import *
def pos(p, B, full, mark, r):
    """model position (block 4, length field 1) -> real position: the interesting residues"""
    q, x = divmod(p, 4)
    return q * full + {0: 0, 1: r[0], 2: mark, 3: r[1]}[x]
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("HashMC", dict(B=4, L=1, MaxLen=9 if q else 11, MaxChunks=3 if q else 4), inv=["Standard"], gen=True)
    exe = c.build("hash"); exp = c.build("hash", flavour="plain")
    def chunks(m, cuts):
        o = []; l = 0
        for x in list(cuts) + [len(m)]: o.append(m[l:x]); l = x
        return o
    ses = []
    r.shuffle(g)
    def add(ctxs, mid=.2):
        """interleave the contexts' operations"""
        s = ["S"]; todo = [list(x) for x in ctxs]
        while any(todo):
            t = r.choice([x for x in todo if x]); s.append(t.pop(0))
        ses.append(s)
    def md(k, parts, mid=.15):
        o = ["mi %d" % k]
        for p in parts:
            o.append("mu %d %s %d" % (k, hx(p), r.choice([0, 0, 1, 3])))
            if r.random() < mid: o.append("me %d" % k)
        return o + ["me %d" % k]
    def sh(k, parts): return ["si %d" % k] + ["su %d %s %d" % (k, hx(p), r.choice([0, 0, 1, 5])) for p in parts] + ["se %d" % k]
    na = nb = 0
    jobs = []
    for kind, ch in g:
        if kind == "a" and na < (140 if q else 2500):
            na += 1; rr = (r.randint(1, 54), r.randint(56, 63)); cum = [0]
            for x in ch: cum.append(cum[-1] + x)
            real = [pos(p, 4, 64, 55, rr) for p in cum]; m = r.randbytes(real[-1])
            jobs.append(("m", chunks(m, real[1:-1])))
        if kind == "b" and nb < (40 if q else 800):
            nb += 1; rr = (r.randint(1, 110), r.randint(112, 127)); cum = [0]
            for x in ch: cum.append(cum[-1] + x)
            real = [pos(p, 4, 128, 111, rr) for p in cum]; m = r.randbytes(real[-1])
            jobs.append(("s", chunks(m, real[1:-1])))
    # every length around the block borders, in one piece and split
    for n in list(range(0, 131)) + [183, 184, 191, 192, 193, 255, 256, 257, 300, 511, 512, 1000]:
        m = r.randbytes(n); cut = sorted(r.randint(0, n) for _ in range(r.randint(0, 4)))
        jobs.append(("m", chunks(m, cut)))
        if not q: jobs += [("m", chunks(m, sorted(r.randint(0, n) for _ in range(3)))) for _ in range(4)]
    for n in list(range(0, 258, 1 if not q else 3)) + [111, 112, 119, 120, 127, 128, 129, 239, 240, 241, 247, 248, 255, 256, 257, 383, 384, 640, 1000]:
        m = r.randbytes(n); k = n // 128; cut = sorted(128 * r.randint(0, k) for _ in range(r.randint(0, 3)))
        jobs.append(("s", chunks(m, cut)))
    for n in [x + d for x in (2048, 4096, 8192, 16384) for d in (-9, -1, 0, 1)] if q else [x + d for x in (2048, 4096, 8192, 16384, 32768, 65536, 131072) for d in (-17, -9, -8, -1, 0, 1, 64)]:
        m = r.randbytes(n); jobs.append(("m", chunks(m, sorted(r.randint(0, n) for _ in range(r.choice([0, 0, 1, 3]))))))
        if n <= (4097 if q else 40000): jobs.append(("s", chunks(m, sorted(128 * r.randint(0, n // 128) for _ in range(r.choice([0, 0, 1, 2]))))))
    for b in (b"\0", b"\xff", b"\x80"):
        for n in (55, 56, 64, 111, 112, 128): jobs += [("m", [b * n]), ("s", [b * n])]
    r.shuffle(jobs)
    while jobs:
        s = []
        for k in range(r.choice([1, 2, 3, 4])):
            if not jobs: break
            t, p = jobs.pop(); s.append(md(k, p) if t == "m" else sh(k, p))
        add(s)
    ses.append(["S"] + ["ms " + hx(r.randbytes(n)) for n in (0, 1, 55, 56, 63, 64, 65, 119, 120, 200)])
    c.conform("digests", exe, ses, "HashTr")
    # messages of 2^29 (bit count above 32 bits) and 2^32 bytes (byte count above 32 bits), in one call and in pieces; the rest behind them matters
    exf = c.build("hash", flavour="fast"); t = lambda n: hx(r.randbytes(n))
    ses = [["S 300", "mi 0", "mz 0 0 29 0", "me 0", "mz 0 0 32 29", "me 0", "mu 0 %s 0" % t(3), "me 0"],
           ["S 300", "mi 1", "mz 1 1048576 29 0", "mu 1 %s 0" % t(57), "me 1"],
           ["S 300", "mi 1", "mz 1 0 32 0", "mu 1 %s 0" % t(64), "me 1"],
           ["S 300", "si 1", "sz 1 1048576 29 0", "su 1 %s 0" % t(3), "se 1"],
           ["S 300", "si 0", "sz 0 0 32 0", "su 0 %s 0" % t(115), "se 0"]]
    if not q: ses += [["S 300", "mi 2", "mz 2 1000003 32 0", "mu 2 %s 1" % t(70), "me 2"], ["S 300", "mi 0", "mz 0 536870912 29 0", "me 0"], ["S 300", "si 0", "sz 0 0 29 0", "se 0"], ["S 300", "si 0", "sz 0 134217728 32 0", "se 0"]]
    c.conform("long-messages", exf, ses, "HashTr", timeout=300, each=True)
