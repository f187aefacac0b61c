from .core import *
NB = [1, 2, 3, 7, 64, 5]
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("HbIterMC", dict(NB=4 if q else 5, MaxSz=2), inv=["AllOnce"], props=["Forward", "Ends"], spec="Spec", gen=True)
    exe = c.build("map", name="hbmap")
    exe2 = c.build("map", name="hbmap-tgi", defs=["BMAP_USE_TGILIST"])
    # every vector of bucket sizes of the model, on maps with 7 buckets (identity hash)
    ses = []
    for i, g in enumerate(gen):
        sz = g["sz"]; off = i % (7 - len(sz) + 1)
        s = ["S h 7 0 0 %d" % (i % 2)]
        ops = [(off + b + 7 * j) for b in range(len(sz)) for j in range(sz[b])]
        r.shuffle(ops)
        s += ["hins %d %d" % (k, k % 200) for k in ops] + ["hdump"]
        if g["del"]: s += ["hdelall", "hins 5 5", "hdump"]
        else: s += ["hdel %d" % k for k in ops]
        ses.append(s)
    c.conform("bucket-vectors", exe, ses, "MapTrace")
    ses = []
    for i in range(250 if q else 2500):
        nb = NB[i % len(NB)]
        s = ["S h %d %d %d %d" % (nb, r.randrange(5), 0 if nb == 5 else r.randrange(2), r.randrange(2))]
        dom = set(); span = r.choice([4, 12, 60, 1000])
        if r.random() < .2: s.append("hdump")
        for _ in range(r.randint(3, 60)):
            x = r.random(); k = r.randrange(span); v = r.randrange(10000)
            if dom and r.random() < .3: k = r.choice(sorted(dom))
            if x < .35: s.append("hins %d %d" % (k, v)); dom.add(k)
            elif x < .42:
                if k not in dom: s.append("hinsn %d %d" % (k, v)); dom.add(k)
            elif x < .52: s.append("hfind %d" % k)
            elif x < .60: s.append("hhas %d" % k)
            elif x < .70: s.append("hget %d" % k)
            elif x < .80 and k in dom: s.append("hset %d %d" % (k, v))
            elif x < .97 and dom:
                k = r.choice(sorted(dom)); s.append("hdel %d" % k); dom.discard(k)
            elif x > .985: s.append("hdelall"); dom = set()
        s.append("hdump"); ses.append(s)
    for nb in NB:
        s = ["S h %d %d 0 %d" % (nb, r.choice([0, 2, 3]), r.randrange(2)), "full 0", "hinsr 100 0 %d 7" % (600 if q else 3000), "hdump"]
        for _ in range(40): s += ["hfind %d" % r.randrange(5000), "hget %d" % (100 + 7 * r.randrange(600))]
        s += ["hdel %d" % (100 + 7 * k) for k in r.sample(range(600), 60)] + ["hdump", "hdelall"]
        ses.append(s)
    # more than 2^16 entries in one bucket
    s = ["S h 1 0 0 1", "full 0", "hinsr 5 0 66000 2"]
    for k in [5, 6, 131071, 131072, 131073, 131075, 131077, 131079, 2 * 65999 + 5] + [r.randrange(132000) for _ in range(8)]: s += ["hfind %d" % k, "hget %d" % k]
    s += ["hset 131077 9", "hdel 131075", "hfind 131077", "hins 131075 7", "hfind 131075", "hdump"]
    c.conform("more-than-2^16-entries", exe, [s], "MapTrace")
    for hf in (0, 2, 3):     # more buckets than 2^16
        s = ["S h 70000 %d 0 %d" % (hf, hf // 2), "full 0", "hdump"]
        ks = [0, 1, 65534, 65535, 65536, 65537, 69999, 70000, 70001, 135535, 135536, 139999, 140000, 199999] + [r.randrange(200000) for _ in range(30)]
        for i, k in enumerate(ks): s += ["hins %d %d" % (k, i), "hfind %d" % k, "hget %d" % (k ^ 1)]
        s += ["hdump"] + ["hdel %d" % k for k in ks[::3]] + ["hdump", "hdelall", "hdump"]
        ses.append(s)
    c.conform("random-tglist", exe, ses, "MapTrace")
    c.conform("random-tgilist", exe2, ses, "MapTrace")
