from .core import *
from .bigs import big, mlist
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("BmapMC", dict(Keys={1, 2, 3} if q else {1, 2, 3, 4}, Vals={1, 2}, MaxStore=4), inv=["PlainOK", "IndexOK"], view="View", gen=True)
    exes = [("tglist", c.build("map", name="map-tg")), ("tgilist", c.build("map", name="map-tgi", defs=["BMAP_USE_TGILIST"]))]
    if q and len(gen) > 4000: gen = r.sample(gen, 4000)
    ses = [["S b %d 0 %d" % (i % 5, i // 5 % 2)] + h for i, h in enumerate(gen)]
    rnd = []
    for i in range(200 if q else 2000):
        t = i % 5; rev = r.randrange(2)
        s = ["S b %d %d %d" % (t, rev, r.randrange(2))]; dom = set(); span = r.choice([4, 12, 60, 1000])
        for _ in range(r.randint(5, 80)):
            x = r.random(); k = r.randrange(span); v = r.randrange(256)
            if x < .35: s.append("ins %d %d" % (k, v)); dom.add(k)
            elif x < .42:
                if k not in dom: s.append("insn %d %d" % (k, v)); dom.add(k)
            elif x < .52: s.append("find %d" % k)
            elif x < .60: s.append("has %d" % k)
            elif x < .70: s.append("get %d" % k)
            elif x < .80 and dom: s.append("setp %d %d" % (v, r.randrange(len(dom))))
            elif x < .96 and dom:
                p = r.choice([r.randrange(len(dom)), 0, len(dom) - 1]); s.append("delp %d" % p)
                dom.discard(sorted(dom, reverse=bool(rev))[p])
        s.append("dump"); rnd.append(s)
    for t in range(5):
        s = ["S b %d %d 1" % (t, r.randrange(2)), "full 0", "insr 10 0 %d 3" % (250 if t == 4 else 400)]
        for _ in range(60):
            s += ["find %d" % r.randrange(1300), "get %d" % r.randrange(1300), "ins %d %d" % (r.randrange(1300), r.randrange(256)), "delp %d" % r.randrange(200)]
        s += ["dump"]; rnd.append(s)
    # more than 2^16 keys
    s = ["S b 0 0 1", "full 0", "insr 5 0 %d 2" % (66000 if q else 140000)]
    for k in [5, 6, 131071, 131072, 131073, 131075, 131077, 131079, 2 * 65999 + 5] + [r.randrange(132000) for _ in range(12)]: s += ["find %d" % k, "get %d" % k, "has %d" % k]
    s += ["ins 131070 3", "find 131070", "ins 131071 4", "get 131073"]
    many = [s]
    big(c, [mlist(r, k, n) for k in ("mapk", "mapv") for n in (4400, 2200)])
    for name, exe in exes:
        if c.thorough or name == "tglist": c.conform("more-than-2^16-keys-" + name, exe, many, "MapTrace")
        c.conform("tlc-transitions-" + name, exe, ses, "MapTrace")
        c.conform("random-" + name, exe, rnd, "MapTrace")
