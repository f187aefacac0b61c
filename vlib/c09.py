from .core import *
from .c12 import rs
KINDS = ["sb", "tg", "tgi", "tl", "bm", "hb", "hl"]
def str_ops(r, k):
    """string and string-list operations, some while memory runs out"""
    s = ["S %d" % r.choice([1, 2, 4])]
    for _ in range(k):
        if r.random() < .35: s.append("fail %d" % r.randint(1, 4))
        t = lambda m=12: hx(rs(r, r.choice([0, 1, 3, m]), b"ab,"))
        x = r.random()
        if x < .15: s.append("splits %s %s" % (hx(rs(r, r.choice([3, 20, 60]), b"ab,")), hx(r.choice([b",", b"ab", b"a"]))))
        elif x < .28: s.append("splitc %s 44" % hx(rs(r, r.choice([3, 20, 90]), b"ab,,,")))
        elif x < .43: s.append("repl %s %s %s" % (hx(rs(r, r.choice([3, 20, 60]), b"ab,")), hx(r.choice([b",", b"ab", b"a"])), t(5)))
        elif x < .5: s.append("concat " + " ".join(t() for _ in range(r.randint(1, 5))))
        elif x < .55: s.append(r.choice(["tostr", "tostrdos"]))
        elif x < .62: s.append("copy " + t())
        elif x < .67: s.append("dup " + t())
        elif x < .72: s.append("dupn %s 1" % hx(b"xyz"))
        elif x < .77: s.append("fmt " + t())
        elif x < .8: s.append("new %d" % r.choice([0, 1, 50, 5000]))
        else: s.append("ladddup " + t())
    y = r.random()
    if y < .4: s += ["lfreestr", "lfreestr", "lfree 2"]
    elif y < .8: s += ["lfreeall 2"]
    else: s += ["lfreestr", "ladddup 6162", "lfreeall 1"]
    return s
def dup_ops(r):
    s = ["S %d" % r.choice([1, 4])] + ["ladd " + hx(rs(r, r.randint(0, 5))) for _ in range(r.randint(0, 7))]
    if r.random() < .5: s.append("fail %d" % r.randint(1, 7))
    s.append("ldup")
    return s
def run(c):
    q = not c.thorough; r = c.rng
    P = 4 if q else 5; O = 8 if q else 10
    g1 = c.mc("OwnMC", dict(Keyed=False, Table=False, HasDeep=True, MaxPut=P - 1, MaxOps=O), inv=["StoredLive"], props=["NoDouble"], view="View", gen=True, name="own-deep")
    g2 = c.mc("OwnMC", dict(Keyed=True, Table=False, HasDeep=False, MaxPut=2 * (P - 2) + 1, MaxOps=O), inv=["StoredLive"], props=["NoDouble"], view="View", gen=True, name="own-keyed")
    exe = c.build("mem"); exei = c.build("mem", defs=["BMAP_USE_TGILIST"], name="mem-tgi")
    def conv(h, i):
        o = []; k = 0
        for x in h:
            if x == "put": k += 1; o.append("put %d %d" % (k, (i + k) % 3))
            else: o.append(x)
        return o
    ses, sei = [], []
    for i, h in enumerate(g1):
        deep = any(x.startswith("deld") for x in h)
        for kd in (["tl"] if deep else ["sb", "tl", "tg"]): ses.append(["S %s %d" % (kd, i % 3)] + conv(h, i))
    # ids of the model: value n+1, key n+2, as the driver makes them; index-table lists keep deleted values
    for i, h in enumerate(g2):
        for kd in ("bm", "hb"): ses.append(["S %s %d" % (kd, i % 2)] + conv(h, i))
    c.conform("tlc-histories", exe, ses, "OwnTrace")
    ses, sei = [], []
    for i in range(350 if q else 5000):
        kd = KINDS[i % 7]; dyn = r.randrange(4) if kd == "sb" else r.randrange(2); s = ["S %s %d" % (kd, dyn)]; freed = []
        for _ in range(r.randint(3, 50)):
            x = r.random()
            if r.random() < .25: s.append("fail %d" % r.randint(1, 3))
            if x < .55: s.append("put %d %d" % (r.randrange(12), r.randrange(50)))
            elif x < .65 and kd in ("sb", "tg", "tgi", "bm", "tl"): s.append("set %d" % r.randrange(50))
            elif x < .85 and kd != "hl": s.append("del %d" % r.randrange(20))
            elif x < .9 and kd == "tl": s.append("deld %d" % r.randrange(50))
            elif x < .93 and kd in ("sb", "tl"): s.append("clear %d" % r.randrange(2))
            elif x < .95 and kd == "sb": s.append("pop")
            elif x < .97: s.append("drop %d" % r.randrange(4 if kd != "hl" else 1))
        s.append("drop %d" % (r.randrange(4) if kd != "hl" else 0))
        for f in (1, 2): s += ["fail %d" % f, "ctor"]
        s += ["put 1 0", "drop 0"]
        ses.append(s)
        if kd in ("bm", "hb", "tgi"): sei.append(s)
    c.conform("random-histories", exe, ses, "OwnTrace")
    c.conform("random-histories-tgilist-values", exei, sei, "OwnTrace")
    # much at once: item counts around powers of two; many buckets, of which few are used
    ses = []
    for kd in KINDS:
        for n in [255, 256, 257, 1023, 1025, 4095, 4096, 4097, 65536, 65537] + ([] if q else [8191, 8193, 32767, 32769, 100003]) if kd != "hl" else [1000, 5000]:
            f = r.choice([1, 2, 3]); ses.append(["S %s %d" % (kd, r.randrange(2)), "many %d" % (n - 1), "put 3 0", "del 0", "put 7 1", "drop %d" % (0 if kd == "hl" else f)])
            if kd in ("sb", "tl", "tg"): ses.append(["S %s 1" % kd, "many %d" % n, "clear %d" % r.randrange(2), "put 1 0", "drop 0"])
    for nb in (1 << 8, 1 << 10, 1 << 16, (1 << 20) - 1, (1 << 20) + 9, (1 << 22) + 1) + (() if q else (1 << 24, (1 << 25) + 3)): ses.append(["S hl %d" % nb, "many 300", "put 4 0", "drop 0", "many 5", "drop 0"])
    c.conform("much", exe, ses, "OwnTrace")
    exs = c.build("strs")
    ses = [str_ops(r, r.randint(3, 25)) for _ in range(200 if q else 3000)] + [dup_ops(r) for _ in range(60 if q else 600)]
    c.conform("strings", exs, ses, "StrTrace", dict(CheckMem=True))
    d = os.path.join(c.work, "fl"); os.makedirs(d + "/sub"); [open(os.path.join(d, "f%d" % i), "w").close() for i in range(40)]
    ses = [["S sb 1"] + [y for n in range(0, 14) for y in ("fail %d" % n, "flist %s * %d" % (d, fl))] for fl in (0, 1, 2, 3, 4, 7, 8, 11, 15)]
    c.conform("filelist", exe, ses, "OwnTrace")
