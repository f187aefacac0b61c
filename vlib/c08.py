from .core import *
from .c09 import str_ops, dup_ops, KINDS
from .c12 import rs
def run(c):
    q = not c.thorough; r = c.rng
    K = {1, 2, 3} if q else {1, 2, 3, 4}; O = 4 if q else 5
    g1 = c.mc("OomMC", dict(Keys=K, Blk=1, MaxOps=O, Table=False), inv=["Aligned"], props=["FailKeeps"], view="View", gen=True, name="oom-plain")
    g2 = c.mc("OomMC", dict(Keys=K, Blk=1, MaxOps=O, Table=True), inv=["Aligned"], props=["FailKeeps"], view="View", gen=True, name="oom-table")
    N = 1500 if q else 6000
    if len(g1) > N: g1 = r.sample(g1, N)
    if len(g2) > N: g2 = r.sample(g2, N)
    b1 = c.build("map", name="map-tg"); b2 = c.build("map", name="map-tgi", defs=["BMAP_USE_TGILIST"])
    retry = lambda h: h + ([h[-1].split("!")[0].strip()] if "!" in h[-1] else []) + ["dump"]
    mk = lambda g: [["S b %d 0 %d" % (i % 5, i // 5 % 2)] + retry(h) for i, h in enumerate(g)]
    c.conform("tlc-bmap", b1, mk(g1), "MapTrace"); c.conform("tlc-bmap-tgilist", b2, mk(g2), "MapTrace")
    # random map histories, every insertion may meet a failure at its 1st..4th allocation
    def maps(n):
        o = []
        for i in range(n):
            h = i % 2
            s = ["S h %d %d 0 %d" % (r.choice([1, 2, 7, 5]), r.randrange(5), r.randrange(2))] if h else ["S b %d %d %d" % (i // 2 % 5, r.randrange(2), r.randrange(2))]
            dom = set(); ord_ = int(s[0].split()[3]) if not h else 0; s.append("full %d" % (i % 3 > 0)); cnt = r.choice([10, 40, 40, 600]) if i % 3 == 0 else r.choice([5, 20, 60])
            span = r.choice([10, 50, 5000])
            for _ in range(cnt):
                k = r.randrange(span); v = r.randrange(250); f = r.choice([0, 1, 1, 2, 3, 4]); op = ("hins" if h else "ins")
                if r.random() < .2 and k not in dom: op += "n"
                if r.random() < .75:
                    s.append("%s %d %d !%d" % (op, k, v, f))
                    dom.add(k)      # perhaps
                    if op[-1] != "n" and r.random() < .5: s.append("%s %d %d" % (op, k, v))
                    elif op[-1] == "n": s.append("%s %d %d" % (op[:-1], k, v))
                    elif r.random() < .5: s.append(("hget %d" if h else "get %d") % k)
                    elif r.random() < .1 and h: s.append("hdump")
            s.append("hdump" if h else "dump"); o.append(s)
        return o
    m = maps(160 if q else 2400)
    c.conform("random-maps", b1, m, "MapTrace"); c.conform("random-maps-tgilist", b2, m, "MapTrace")
    # sequences
    sb, tg, tl, so = c.build("seq_sblist"), c.build("seq_tg"), c.build("seq_tlist"), c.build("sorted")
    S = dict(sb=[], tg=[], tl=[], so=[])
    TT = ["s1", "s3", "s12", "s40", "sm", "s300", "cptr", "dbl", "ull", "u8", "u16", "u32"]
    IT = ["sm u8", "sm u16", "sm u32", "sm size_t", "s300 u8", "s300 u16", "u32 u16", "s40 u8", "s3 u32", "ull size_t", "cptr u8", "dbl int", "s12 short"]
    for i in range(240 if q else 3600):
        k = ("sb", "tg", "tl", "tgi")[i % 4]; n = 0; big = i % 12 < 4
        s = []
        if k == "sb": s = ["S %d" % r.choice([1, 2, 3, 8, 24]), "mk %s %d" % (r.choice(["new", "init"]), r.choice([1, 1, 2, 3, 16]))]
        elif k == "tg": s = ["S tg %s %d" % (r.choice(TT), r.randrange(2))]
        elif k == "tgi": s = ["S tgi %s %d" % (r.choice(IT), r.randrange(2))]
        else: s = ["S %d" % r.choice([1, 4, 8, 24])]
        pre = r.choice([0, 0, 60, 120, 200]) if not ("u8" in s[0] and k == "tgi") else r.choice([0, 60])
        if pre: s += ["full 0", "addr 0 %d%s" % (pre, "" if k == "sb" else " 250")]; n += pre
        elif big: s.append("full 0")
        else: s.append("full 1")
        for _ in range(r.randint(3, 30 if k != "tgi" else 25)):
            f = r.choice([0, 1, 1, 1, 2, 2]); v = r.randrange(256); x = r.random()
            lo = n                       # a lower bound of the size (failures only make it smaller than planned)
            cmd = "add %d" % v if x < .5 else "ins %d %d" % (v, 0 if r.random() < .4 else r.randint(0, lo))
            if x > .9 and k == "sb": cmd = "addi %d" % v
            s.append("fail %d" % f); s.append(cmd); s.append(cmd); n += 1     # the second call has all the memory it wants
            if r.random() < .2 and k in ("sb", "tg", "tgi"): s.append("set %d %d" % (r.randrange(256), r.randrange(n)))
            if r.random() < .15 and n: s.append("%s %d" % ("delr" if k == "tl" else "del", r.randrange(n))); n -= 1
        s.append("dump"); S["tg" if k == "tgi" else k].append(s)
    for i in range(60 if q else 800):
        a = ["S sb %d %d %d %d %d" % (r.choice([1, 2, 4, 12]), r.choice([1, 3]), r.randrange(3), r.randrange(4), r.choice([1, 2, 5]))] if i % 2 else ["S tg %d %d %d %d" % (r.choice([1, 2, 3, 4, 8, 12, 40, 300]), r.choice([1, 3]), r.randrange(3), r.randrange(4))]
        vs = list(range(40)); r.shuffle(vs)
        for v in vs[:r.randint(3, 40)]:
            a += ["fail 1", "sins %d%s" % (v, " r" if i % 4 == 1 else "")]
        S["so"].append(a)
    for nm, exe, spec in (("sb", sb, "SeqTrace"), ("tg", tg, "SeqTrace"), ("tl", tl, "TlistTrace"), ("so", so, "SortedTrace")):
        c.conform("sequences-" + nm, exe, S[nm], spec)
    # hashlist
    ses = []
    for i in range(80 if q else 1200):
        s = ["S %d %d" % (r.choice([1, 2, 3, 8, 64]), r.choice([8, 16]))]; v = 0; hs = [r.getrandbits(32) for _ in range(6)] + [0, 0xffffffff]
        for _ in range(r.choice([5, 30, 120])):
            h = r.choice(hs); f = r.choice([0, 1, 2, 3])
            v += 1; s.append("add %d %d %d" % (h, v, f))
            if r.random() < .4: v += 1; s.append("add %d %d" % (h, v))
            if r.random() < .2: s.append("get %d" % h)
            if r.random() < .05: s.append("iter")
        s += ["iter", "buck"]; ses.append(s)
    c.conform("hashlist", c.build("hashl"), ses, "HashTrace")
    # strings, string lists, key/value lists
    exs = c.build("strs"); ses = []
    for i in range(150 if q else 2500): ses.append(str_ops(r, r.randint(3, 25)))
    for i in range(40 if q else 600): ses.append(dup_ops(r))
    for i in range(80 if q else 1000):
        s = ["S %d" % r.choice([1, 2, 4])]
        for k in range(r.randint(3, 40)):
            x = r.random(); t = hx(rs(r, r.randint(0, 6), b"ab"))
            if r.random() < .6: s.append("fail %d" % r.choice([1, 1, 2, 3]))
            if x < .3: s.append("kadd %s %d" % (t, k))
            elif x < .55: s.append("padd %d" % (k + 1))
            elif x < .7: s.append("tadd " + t)
            elif x < .85: s.append("tadddup " + t)
            elif x < .92: s.append("lins 0 " + t)
            else: s.append("ladd " + t)
        s += ["pall", "tall", "ldump"] + ["kget %d" % k for k in range(6)]; ses.append(s)
    for i in range(20 if q else 300):
        ses.append(["S %d" % r.choice([1, 2])] + [y for k in range(r.randint(2, 20)) for y in (["fail %d" % r.choice([1, 1, 2])] if r.random() < .5 else []) + ["linss 0 " + hx(rs(r, r.randint(0, 4)))]] + ["ldump"])
    c.conform("strings", exs, ses, "StrTrace", dict(CheckMem=False))
    # constructors, directory listing
    mem = c.build("mem"); d = os.path.join(c.work, "fl"); os.makedirs(d + "/sub"); [open(os.path.join(d, "f%d" % i), "w").close() for i in range(20)]
    ses = [["S %s %d" % (k, dyn)] + [y for f in (1, 2, 3) for y in ("fail %d" % f, "ctor", "put 1 0", "drop 0")] for k in KINDS for dyn in range(4 if k == "sb" else 2)]
    ses += [["S sb 1"] + [y for n in range(0, 14) for y in ("fail %d" % n, "flist %s * %d" % (d, fl))] for fl in (0, 1, 3, 8)]
    c.conform("constructors-filelist", mem, ses, "OwnTrace")
