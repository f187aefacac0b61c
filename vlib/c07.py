from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("HashIterMC", dict(NB=4 if q else 5, MaxSz=2), inv=["Once", "Complete"], props=["Final", "Ends"], spec="Spec", gen=True)
    exe = c.build("hashl")
    ses = []
    for i, sz in enumerate(gen):   # every vector of NULL / empty / filled buckets
        nb = len(sz); s = ["S %d %d" % (nb, [4, 2, 8, 24, 100][i % 5])]; v = 1
        for b in range(nb):
            h = lambda: b + nb * r.randrange(0, (2**32 - nb) // nb)
            if sz[b] == 0: s += ["add %d %d" % (h(), 9999), "bdel %d 0" % b] if i % 2 else ["add %d 9999 2" % h()]
            for _ in range(max(0, sz[b])): s.append("add %d %d" % (h(), v)); v += 1
        ses.append(s + ["iter", "buck", "get %d" % r.randrange(2**32), "iter"])
    c.conform("bucket-vectors", exe, ses, "HashTrace")
    ses = []
    for i in range(200 if q else 2500):
        nb = r.choice([1, 2, 3, 5, 8, 64, 100, 127]); isz = r.choice([2, 3, 4, 8, 16, 48, 300])
        s = ["S %d %d" % (nb, isz)]; v = 1; hs = [0, 1, nb - 1, nb, 2**32 - 1, 2**31, 2**31 - 1] + [r.randrange(2**32) for _ in range(6)]
        small = r.random() < .5
        for _ in range(r.randint(3, 70)):
            h = r.choice(hs) if r.random() < .7 else r.randrange(2**32)
            if small: h = h % (2 * nb)
            x = r.random()
            if x < .55: s.append("add %d %d%s" % (h, v, " %d" % r.randint(1, 2) if r.random() < .1 else "")); v += 1
            elif x < .72: s.append("get %d" % h)
            elif x < .85: s.append("bdel %d %d" % (h, r.randrange(10)))
            elif x < .93: s.append("iter")
            else: s.append("buck")
        ses.append(s + ["iter", "buck"])
    for nb, n in [(3, 600), (64, 600), (1, 300)]:   # buckets growing past their block size
        s = ["S %d 4" % nb] + ["add %d %d" % (r.randrange(2**32), k + 1) for k in range(n)] + ["iter", "buck"] + ["get %d" % r.randrange(2**32) for _ in range(20)]
        ses.append(s)
    for nb in [127, 128, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 70000, 131072, 200000, 1000003]:
        s = ["S %d %d" % (nb, r.choice([4, 8, 24]))]; v = 1
        hs = [(nb * k + d) % 2**32 for k in (0, 1, 2, 3, 2**31 // nb, 2**32 // nb) for d in (-1, 0, 1, 65535, 65536)] + [2**31, 2**31 - 1, 2**32 - 1, 2**31 + 65536, 65536 * 3] + [r.randrange(2**32) for _ in range(20)]
        for h in hs + hs[:10]: s.append("add %d %d" % (h, v)); v += 1
        s += ["get %d" % h for h in hs] + ["get %d" % r.randrange(2**32) for _ in range(6)] + ["iter", "buck"]
        ses.append(s)
    for isz in [255, 256, 257, 4097, 32768, 65535, 65536, 65537, 70001, 300001]:
        s = ["S %d %d" % (r.choice([1, 3, 8]), isz)] + ["add %d %d" % (r.randrange(2**32), k + 1) for k in range(12)] + ["iter", "buck", "bdel 5 1", "get 5", "iter"]
        ses.append(s)
    c.conform("random", exe, ses, "HashTrace")
