from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("BitsMC", dict(CB=3, N=7, MaxOps=3), inv=["Same", "Reads", "Mirror", "Holds", "Swaps", "Emit"], gen=True)
    c.mc("BitsMC", dict(CB=3, N=8 if q else 12, MaxOps=20), inv=["Same", "Reads", "Mirror", "Holds"], props=["Unchanged"], view="View", spec=None, name="BitsMC-closure")
    exe = c.build("bits"); exu = c.build("bits", flavour="ubsan"); exp = c.build("bits", flavour="plain")
    ses = []
    PAT = ["00", "ff", "a5", "5a", "0f", "8001", "7ffe", "01", "80"]
    for i in range(0, len(g), 30):      # the model's histories at the corresponding places of 8-bit bytes
        s = ["S"]
        for h in g[i:i + 30]:
            n = r.choice([17, 18, 23, 24]); s.append("new %d %s" % (n, r.choice(PAT)))
            for (y, v) in h:
                k = y // 3 * 8 + [0, r.randrange(1, 7), 7][y % 3]; k = min(k, n - 1)
                s += ["set %d %d %d" % (r.randrange(6), k, v), "get %d %d" % (r.randrange(3), k), "gets %d %d" % (r.randrange(3), k)]
        ses.append(s)
    for n in list(range(0, 66)) + [127, 128, 129, 255, 256, 257, 1000, 1023, 1024]:
        s = ["S"]
        for p in (PAT if n < 66 else PAT[:3]):
            s.append("new %d %s" % (n, p)); idx = list(range(n)) if n < 34 else r.sample(range(n), 20) + [0, n - 1]
            for i in idx: s += ["get %d %d" % (r.randrange(3), i), "set %d %d %d" % (r.randrange(6), i, r.randrange(2))]
            for i in idx: s += ["gets %d %d" % (r.randrange(3), i), "get %d %d" % (r.randrange(3), i)]
        if n: ses.append(s)
        else: ses.append(["S", "new 0 00"])
    ses.append(["S"] + ["big %d" % n for k in range(0, 62) for n in {max(0, 2**k - 1), 2**k, 2**k + 1, 2**k + 7, 2**k + 8, 2**k + 9}] + ["big %d" % r.getrandbits(r.randrange(1, 62)) for _ in range(100)])
    TOP = [255, 127, 65535, 32767, 2**32 - 1, 2**31 - 1, 2**61, 2**61]
    ses.append(["S"] + ["sized %d %d" % (t, n) for t in range(8) for n in sorted({0, 1, 7, 8, 9, 16, 17} | {TOP[t] - k for k in range(20)} | {r.randint(0, TOP[t]) for _ in range(30)})])
    ses.append(["S"] + ["swap16 %d 4096" % (4096 * k) for k in range(16)])
    far = ["far %d %d" % (sp, i) for sp, ix in ((20, [0, 9, 65535, 65536, 65543, 2**20 - 1]), (33, [2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 14, 2**33 - 1]), (36, [2**35 - 1, 2**35 + 6, 2**35, 2**34 + 2**31, 3 * 2**32 + 17, 2**36 - 8, 2**36 - 1])) for i in ix + [r.randrange(2**sp) for _ in range(4 if q else 40)]]
    ses += [["S"] + far[i:i + 3] for i in range(0, len(far), 3)]
    W = [0, 1, 2**8, 0x0102030405060708, 2**64 - 1, 0xff, 0xff00, 0xff0000, 0xff000000, 0x80, 0x8000, 0x800000, 0x80000000] + [1 << k for k in range(64)] + [255 << 8 * k for k in range(8)] + [2**64 - 1 - (1 << k) for k in range(64)]
    ses.append(["S"] + ["swap %d %d" % (w, x) for w in (2, 4, 8) for x in W + [r.getrandbits(64) for _ in range(300 if q else 5000)]] + ["le %d %d" % (w, x % 2**32) for w in (2, 4) for x in W + [r.getrandbits(32) for _ in range(100)]])
    ses.append(["S"] + ["byte %d" % k for k in range(256)])
    for i in range(10 if q else 200):
        n = r.choice([1, 7, 8, 9, 64, 100, 300]); s = ["S", "new %d %s" % (n, r.choice(PAT))]
        for _ in range(120): k = r.randrange(n); s.append(r.choice(["set %d %d %d" % (r.randrange(6), k, r.randrange(2)), "get %d %d" % (r.randrange(3), k), "gets %d %d" % (r.randrange(3), k)]))
        ses.append(s)
    c.conform("bits", exe, ses, "BitsTrace")
    c.conform("bits-ubsan", exu, ses[::3] if q else ses, "BitsTrace")
    c.conform("bits-release-build", exp, ses[::3] if q else ses, "BitsTrace")
