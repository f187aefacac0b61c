from .core import *
from .bigs import big, mlist
TT = "s1 s3 s12 s40 sm s300 cptr dbl ull u8 u16 u32".split()
IT = [x.split() for x in "sm u8,sm u16,sm u32,sm size_t,s300 u8,s300 u16,u32 u16,s40 u8,s3 u32,ull size_t,cptr u8,dbl int,s12 short".split(",")]
CAP = dict(u8=256, u16=65536, short=32768)
def head(i, r=None):
    n = len(TT) + len(IT)
    i = i % n
    dyn = (r.randrange(2) if r else i % 2)
    if i < len(TT): return "S tg %s %d" % (TT[i], dyn), (256 if TT[i] in ("s1", "u8") else 65536), 10**9
    t, x = IT[i - len(TT)]
    return "S tgi %s %s %d" % (t, x, dyn), 65536, CAP.get(x, 10**9)
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("TgMC", dict(MaxLen=4 if q else 5, MaxAdds=5 if q else 6, Vals={1, 2} if q else {1, 2}), inv=["TglistOK", "TgilistOK", "IdxDistinct"], view="View", gen=True)
    if len(gen) > 12000: gen = r.sample(gen, 12000) if q else gen
    exe = c.build("seq_tg")
    c.conform("tlc-transitions", exe, [[head(i)[0]] + h for i, h in enumerate(gen)], "SeqTrace")
    ses = []
    for i in range(300 if q else 3000):
        h, m, cap = head(i, r)
        s = [h]; n = total = 0; bias = r.random()
        for _ in range(r.randint(5, 120)):
            x = r.random(); v = r.randrange(m)
            if x < .2 + .2 * bias and total < cap: s.append("add %d" % v); n += 1; total += 1
            elif x < .45 + .2 * bias and total < cap:
                p = r.choice([r.randint(0, n), r.randint(0, n), 0, n]); s.append("ins %d %d" % (v, p)); n += 1; total += 1
            elif n and x < .6 + .15 * bias: s.append("set %d %d" % (v, r.randrange(n)))
            elif n and x < .7 + .15 * bias: s.append("get %d" % r.randrange(n))
            elif n and x < .97: s.append("del %d" % r.choice([r.randrange(n), r.randrange(n), 0, n - 1])); n -= 1
            elif x > .995: s.append("clear"); n = 0
        s.append("dump 0")
        ses.append(s)
    # narrow index types up to exactly their capacity, growth boundaries, large lists
    for i in range(len(TT) + len(IT)):
        h, m, cap = head(i, r)
        k = min(cap, 700)
        s = [h, "full 0"]
        tot = 0
        while tot < k - 3:
            b = r.randint(1, min(60, k - 3 - tot)); s.append("addr %d %d %d" % (r.randrange(100), b, m)); tot += b
            s.append("del %d" % r.randrange(1 + b // 2)); 
            if r.random() < .5: s.append("del 0") if b > 3 else None
            s.append("ins 7 %d" % r.randrange(max(1, b // 2))); tot += 1
            s.append("dump 0")
        while tot < k: s.append("ins %d 0" % r.randrange(m)); tot += 1
        s += ["dump 0", "set 3 0", "get 1", "del 1", "dump 0"]
        ses.append([x for x in s if x])
    for h, m, n in [("S tg u32 1", 2**20, 70000), ("S tgi u32 u16 1", 2**20, 65530), ("S tgi sm size_t 0", 2**20, 66000), ("S tgi s12 short 0", 2**20, 32760), ("S tg u32 0", 2**20, 300000), ("S tgi u32 u32 1", 2**20, 280000), ("S tgi s3 u32 0", 2**16, 140000)]:
        s = [h, "full 0", "addr 0 %d %d" % (n, m)]
        for _ in range(6):
            s += ["del %d" % r.randrange(n - 10), "get %d" % r.randrange(n - 20), "ins %d %d" % (r.randrange(m), r.choice([0, n - 20, r.randrange(n - 20)])), "get %d" % r.randrange(n - 20), "set 77 %d" % (n - 15), "get %d" % (n - 15)]
        s.append("dump 0")
        ses.append(s)
    big(c, [mlist(r, "tg", 4300)])
    c.conform("random-and-boundary", exe, ses, "SeqTrace")
