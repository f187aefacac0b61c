from .core import *
CONF = [(2, 3), (4, 8), (8, 6), (16, 4), (32, 1), (128, 16), (256, 6), (1024, 5), (2048, 3)]
def run(c):
    q = not c.thorough; r = c.rng
    gens = {}
    for ne in (2, 4, 8):
        gens[ne] = c.mc("PoolMC", dict(NE=ne, WB=8), inv=["Sets"], props=["Fresh", "IffRoom"], view="View", gen=True, name="PoolMC-%d" % ne)
    if c.thorough: c.mc("PoolMC", dict(NE=12, WB=4), inv=["Sets"], props=["Fresh", "IffRoom"], view="View", gen=True, name="PoolMC-12")
    c.lib()
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        exes = dict(zip(CONF, ex.map(lambda x: c.build("pool", name="pool-%d-%d" % x, defs=["SSA_MAXELEM=%d" % x[0], "SSA_ELEMSIZE=%d" % x[1]]), CONF)))
    for ne, es in CONF:
        ses = []
        if ne in gens:
            g = gens[ne]
            if q and len(g) > 1500: g = r.sample(g, 1500)
            ses += [["S"] + h + ["read", "alloc", "read"] for h in g]
        for i in range((40 if ne <= 256 else 3) if q else (300 if ne <= 256 else 20)):
            s = ["S"]
            if r.random() < .7: s.append("allocs %d" % r.choice([ne, ne - 1, ne // 2 + 1, ne + 2]))
            rdev = 10 if ne <= 32 else 40
            for k in range(r.randint(5, 60)):
                x = r.random()
                if x < .3: s.append("alloc")
                elif x < .36: s.append("alloc %d" % r.choice([0, 1, es, es + 1, 2 * es, ne * es, 2**31, 2**63, 2**64 - 1]))
                elif x < .7: s.append("freel %d" % r.randrange(5000))
                elif x < .8: s.append("free %d" % r.randrange(-3, ne + 3))
                elif x < .86: s.append("free %d %d" % (r.randrange(-2, ne + 2), r.randrange(1, es + 1)))
                elif x < .9: s.append("free %d" % r.choice([-1, -2, -7, -8, -9, -100, -100000, ne, ne + 1, ne + 8, 2 * ne, 100000]))
                elif x < .92: s.append("freenull")
                elif x < .94: s.append("freestack")
                if k % rdev == 0: s.append("read")
            s += ["allocs %d" % (ne + 1 if r.random() < .5 else 1), "read"]
            ses.append(s)
        c.conform("pool-%dx%d" % (ne, es), exes[ne, es], ses, "PoolTrace", sample=ne in (4, 256))
