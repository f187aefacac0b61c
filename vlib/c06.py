from .core import *
SIZES = [1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 100, 1000, 5000]
BIG = [2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 2**63, 2**64 - 1]
def run(c):
    q = not c.thorough; r = c.rng
    c.mc("TreapMC", dict(MaxLen=4, Vals={1, 2}, Priors={1, 2, 3, 4}), inv=["Shape", "Order", "GetOK"], view="View", gen=True, name="TreapMC-vals") if c.thorough else None
    gen = c.mc("TreapMC", dict(MaxLen=5, Vals={1}, Priors={1, 2, 3, 4}), inv=["Shape", "Order", "GetOK"], view="View", gen=True)
    exe = c.build("seq_tlist")
    uniq = {}
    for h in gen:   # distinct position histories (priorities are chosen by the code)
        uniq.setdefault(tuple(h), h)
    gen = list(uniq.values())
    if q and len(gen) > 6000: gen = r.sample(gen, 6000)
    ses = []
    for i, h in enumerate(gen):
        s = ["S %d" % SIZES[i % len(SIZES)]]
        for j, op in enumerate(h):
            o = op.split()
            s.append("ins %d %s" % (10 + j, o[2]) if o[0] == "ins" else op)
        ses.append(s)
    c.conform("tlc-transitions", exe, ses, "TlistTrace")
    ses = []
    for i in range(250 if q else 3000):
        isz = SIZES[i % len(SIZES)]; m = 256 if isz == 1 else 65536
        s = ["S %d" % isz]; n = 0; bias = r.random()
        for _ in range(r.randint(5, 90)):
            x = r.random(); v = r.randrange(m)
            pos = lambda hi: r.choice([r.randint(0, max(0, hi))] * 8 + [0, hi, hi + 1, r.choice(BIG), r.choice(BIG) + r.randint(0, max(0, n)) if r.random() < .5 else hi])
            if x < .2 + .2 * bias: s.append("add %d" % v); n += 1
            elif x < .45 + .25 * bias:
                p = pos(n) % 2**64; s.append("ins %d %d" % (v, p)); n += p <= n
            elif x < .6 + .2 * bias: s.append("get %d" % (pos(max(0, n - 1)) % 2**64))
            elif x < .985:
                p = pos(max(0, n - 1)) % 2**64; s.append("delr %d" % p); n -= p < n
            elif x > .995: s.append("clear"); n = 0
        s.append("dump"); ses.append(s)
    for i in range(8 if q else 40):
        isz = r.choice([1, 4, 8, 24]); m = 256 if isz == 1 else 65536; n = r.choice([300, 1000, 3000])
        s = ["S %d" % isz, "full 0", "addr 5 %d %d" % (n, m)]
        for _ in range(60):
            s += ["ins %d %d" % (r.randrange(m), r.randint(0, n)), "get %d" % r.randrange(n), "delr %d" % r.randrange(n)]
        for _ in range(40): s += ["delr %d" % r.choice([0, 1, n // 2])]; n -= 1
        s.append("dump"); ses.append(s)
    for n in (70000, 140000) if q else (66000, 70000, 140000, 270000):
        s = ["S %d" % r.choice([1, 3, 4, 8]), "full 0", "addr 5 %d 256" % n]
        for p in [0, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, n - 1, n, n + 1] + [r.randrange(n) for _ in range(6)]:
            s += ["get %d" % p, "ins %d %d" % (r.randrange(256), p), "get %d" % p, "get %d" % (n // 2), "delr %d" % r.choice([p, 65536, 0, n // 3]), "get %d" % p]
        s.append("dump"); ses.append(s)
    for isz in [127, 128, 255, 256, 257, 4095, 4096, 32768, 65535, 65536, 65537, 70001, 131073, 300001]:
        s = ["S %d" % isz]; n = 0
        for _ in range(24):
            if n and r.random() < .25: s.append("delr %d" % r.randrange(n)); n -= 1
            elif r.random() < .5: s.append("add %d" % r.randrange(65536)); n += 1
            else: s.append("ins %d %d" % (r.randrange(65536), r.randint(0, n))); n += 1
            if n: s.append("get %d" % r.randrange(n))
        s.append("dump"); ses.append(s)
    c.conform("random", exe, ses, "TlistTrace")
