from .core import *
from .bigs import big, G, mlist
SIZES = [1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 48, 64, 100, 255, 256, 257, 500, 1000, 2048, 4095, 4096, 4097, 5000, 9001]
HUGE = [32767, 32768, 32769, 65535, 65536, 65537, 70001, 131071, 131073, 300001]

def history(rng, isz, blk, nops):
    m = 256 if isz == 1 else 65536
    mode = rng.choice(["new %d" % blk, "init %d" % blk, "data %d %d" % (rng.choice([0, 1, 2, 3, 7, 20]), rng.choice([0, 1, isz - 1]))])
    s = ["S %d" % isz, "mk " + mode]
    if mode.startswith("data") and rng.random() < .5: s.append("blk %d" % blk)
    n = int(mode.split()[1]) if mode.startswith("data") else 0
    bias = rng.random()
    for _ in range(nops):
        def pos(hi):
            r = rng.random()
            if r < .70: return rng.randint(0, max(0, hi))
            if r < .80: return 0
            if r < .88: return hi
            if r < .95: return hi + 1
            return rng.choice([hi + 2, hi + 1000, 2**31, 2**32, 2**63, 2**64 - 1])
        x = rng.random()
        v = rng.randrange(m)
        if x < .18 + .25 * bias: s.append("add %d" % v); n += 1
        elif x < .25 + .25 * bias: s.append("addi %d" % v); n += 1
        elif x < .45 + .2 * bias:
            p = pos(n); s.append("ins %d %d" % (v, p)); n += p <= n
        elif x < .55 + .2 * bias: s.append("set %d %d" % (v, pos(max(0, n - 1))))
        elif x < .68 + .15 * bias: s.append("get %d" % pos(max(0, n - 1)))
        elif x < .85 + .05 * bias:
            p = pos(max(0, n - 1)); s.append("del %d" % p); n -= p < n
        elif x < .96: s.append("pop"); n -= n > 0
        elif x < .97: s.append("clear"); n = 0
        else: s.append("dump %d" % rng.randrange(4))
    s.append("dump %d" % rng.randrange(4))
    return s

def run(c):
    q = not c.thorough
    gen = c.mc("SblistMC", dict(MaxLen=4 if q else 5, Vals={1, 2}, Blocks={1, 2, 3}, MaxAdopt=3), inv=["InBounds"], props=["Refines"], view="View", gen=True)
    exe = c.build("seq_sblist")
    ses = []
    for i, h in enumerate(gen):
        ses.append(["S %d" % SIZES[i % len(SIZES)]] + h)
    c.conform("tlc-transitions", exe, ses, "SeqTrace")
    ses = []
    r = c.rng
    for i in range(250 if q else 3000):
        isz = SIZES[i % len(SIZES)] if i % 3 else r.randint(1, 300)
        ses.append(history(r, isz, r.choice([0, 0, 1, 2, 3, 4, 8, 16, 100]), r.randint(5, 60)))
    for i in range(20 if q else 200):   # long histories crossing the default growth step
        isz = r.choice([1, 4, 8, 16, 48, 1000])
        s = history(r, isz, 0, 20)
        k = 4096 // isz
        s.append("full 0")
        for b in range(3):
            s += ["addr %d %d" % (r.randrange(200), r.choice([k - 1, k, k + 1, k // 2 + 1])), "del %d" % r.randrange(k), "ins 5 %d" % r.randrange(k), "pop", "get %d" % r.randrange(2 * k), "dump 0"]
        s.append("full 1")
        ses.append(s)
    for i, isz in enumerate(HUGE if q else HUGE * 6):    # items past 64 KB
        ses.append(history(r, isz, r.choice([0, 1, 2, 3, 7]), 40))
    for isz, blk, k in [(1, 0, 300000), (4, 100, 140000), (3, 0, 70000), (16, 1000, 66000)]:      # counts past 2^16, 2^17, 2^18
        s = ["S %d" % isz, "mk new %d" % blk, "full 0", "addr 1 %d" % (k - 3)]
        n = k - 3
        for p in [0, 1, 255, 256, 32767, 32768, 65535, 65536, n - 2, n - 1, n, r.randrange(n)]:
            s += ["ins %d %d" % (r.randrange(200), p), "get %d" % p, "get %d" % (p + 1), "get %d" % (n // 2), "set %d %d" % (r.randrange(200), p), "get %d" % p]
            n += 1
        for p in [n, n - 1, 65536, 65535, 65534, 0]: s += ["del %d" % p, "get %d" % p, "get %d" % (n // 2)]
        s += ["pop", "addi 9", "add 8", "pop", "dump %d" % r.randrange(4)]
        ses.append(s)
    c.conform("random-histories", exe, ses, "SeqTrace")
    big(c, [["blist %d 3" % (3 << 30), "blist %d 5" % (G + 1), "blist 65536 70000", "blist %d 3" % 2**31, mlist(r, "sb", 4300)]])
