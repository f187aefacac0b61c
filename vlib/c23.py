from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("CrcMC", dict(Polys={184} if q else {184, 171, 140, 224}, MaxLen=5 if q else 7, MaxChunks=3, N=4, KeyLens={1, 2, 3}), inv=["Slicing", "Emit"], view="View", gen=True)
    g = [list(x) for x in sorted({tuple(x) for x in g})]
    exe = c.build("hash"); exp = c.build("hash", flavour="plain")
    ses = []
    def crc(k, t, parts): return ["ci %d %d" % (k, t)] + ["cu %d %s %d" % (k, hx(p), r.randrange(8)) for p in parts] + ["cf %d" % k]
    def inter(ctxs, pre=("ct",)):
        s = ["S"] + list(pre); todo = [list(x) for x in ctxs]
        while any(todo): s.append(r.choice([x for x in todo if x]).pop(0))
        ses.append(s)
    jobs = []
    for ch in g:
        for t in (0, 1): jobs.append((t, [r.randbytes(x) for x in ch]))
    for n in list(range(0, 70)) + [127, 128, 255, 256, 257, 1000]:
        for t in (0, 1):
            m = r.randbytes(n); cut = [0] + sorted(r.randint(0, n) for _ in range(r.randint(0, 4))) + [n]
            jobs.append((t, [m[a:b] for a, b in zip(cut, cut[1:])]))
    # every table index from every table: each byte value at each position of a word
    for b in range(256):
        for t in (0, 1):
            w = bytearray(4); w[b % 4] = b; jobs += [(t, [bytes([b])]), (t, [bytes([b]) * 4]), (t, [bytes(w)]), (t, [bytes([b ^ 0xff]) + b"\xff\xff\xff"])]
            if not q: jobs += [(t, [bytes(x) + r.randbytes(2)]) for x in ([b, 0, 0, 0], [0, b, 0, 0], [0, 0, b, 0], [0, 0, 0, b])]
    jobs += [(t, [b"123456789"]) for t in (0, 1)]
    r.shuffle(jobs)
    while jobs:
        l = [jobs.pop() for _ in range(min(len(jobs), r.choice([1, 2, 3, 4, 4, 4])))]
        inter([crc(k, t, p) for k, (t, p) in enumerate(l)])
    # either table alone, and repeated initialisation in between
    for t in (0, 1):
        inter([crc(k, t, [r.randbytes(9), r.randbytes(5)]) for k in range(3)], pre=("ctc %d" % t,))
        inter([crc(k, k % 2, [r.randbytes(9), r.randbytes(5)]) for k in range(4)] + [["ctc 0", "ctc 1", "ct"]], pre=("ctc %d" % t, "ctc %d" % (1 - t)))
    rc = []
    for kl in (list(range(1, 257)) if not q else list(range(1, 20)) + [31, 32, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]):
        rc.append("rc4 %s %s %d %d" % (hx(r.randbytes(kl)), hx(r.randbytes(r.choice([0, 1, 2, 15, 16, 17, 40]))), r.randrange(2), r.randrange(4)))
    for n in list(range(0, 20)) + [254, 255, 256, 257, 258, 300, 511, 512, 513, 600] + ([] if q else [1024, 2000, 5000]):
        for k in (r.randbytes(r.randint(1, 16)), b"\0", b"\xff" * 5, b"Key"): rc.append("rc4 %s %s %d %d" % (hx(k), hx(r.randbytes(n)), r.randrange(2), r.randrange(4)))
    ses += [["S"] + rc[i:i + 6] for i in range(0, len(rc), 6)]
    c.conform("crc-rc4", exe, ses, "HashTr")
    c.conform("crc-rc4-release-build", exp, ses[::3] if q else ses, "HashTr")
    rnd = [["S", "ct", "ci 0 %d" % t] + ["cu 0 %s 0" % hx(r.randbytes(4096 if q else 20000)) for _ in range(3)] + ["cf 0"] for t in (0, 1)]
    for n in SWEEP if not q else [x for x in SWEEP if x < 9000] + [32769]:
        for t in (0, 1): rnd.append(["S", "ct", "ci 0 %d" % t, "cu 0 %s %d" % (hx(r.randbytes(n)), r.randrange(8)), "cu 0 %s %d" % (hx(r.randbytes(r.choice([1, 3, n // 2]))), r.randrange(8)), "cf 0"])
        if n < (3000 if q else 20000): rnd.append(["S", "rc4 %s %s %d %d" % (hx(r.randbytes(r.choice([5, 16]))), hx(r.randbytes(n)), r.randrange(2), r.randrange(4))])
    c.conform("long-streams", exp, rnd, "HashTr")
    # lengths above 2^16 and 2^32, in one call and in pieces
    exf = c.build("hash", flavour="fast")
    ses = [["S 300", "ct", "ci 0 %d" % t, "cu 0 %s 0" % hx(r.randbytes(5)), "cz 0 %d %d 0" % (p, e), "cu 0 %s 0" % hx(r.randbytes(6)), "cf 0"] for t in (0, 1) for p, e in ((0, 32), (65536 * 3 + 1, 20), (0, 16))]
    ses += [["S 300", "rc4z %s %d" % (hx(b"Key"), 2**32 + 32)], ["S 300", "rc4z %s %d" % (hx(r.randbytes(257)), 70000), "rc4z %s %d" % (hx(r.randbytes(5)), 65568)]]
    ses += [["S"] + ["rc4 %s %s 0 0" % (hx(r.randbytes(k)), hx(r.randbytes(20))) for k in (257, 258, 300, 511, 512, 513, 1000)]]
    c.conform("huge", exf, ses, "HashTr", timeout=300, each=True)
