from .core import *
from .c12 import rs
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("LookupMC", dict(Keys={1, 2}, MaxLen=4 if q else 6), inv=["FirstMatch"], gen=True)
    exe = c.build("strs"); K = dict(CheckMem=False)
    KS = [(b"k", b"k\0"), (b"", b"x"), (b"ab", b"aB"), (b"abc", b"ab"), (b"\xff", b"\x7f")]
    ses = []
    for i, g in enumerate(gen):
        ks = KS[i % len(KS)]; s = ["S %d" % (1 + i % 3)]
        for n, k in enumerate(g["l"]): s += ["ladd " + hx(ks[k - 1]), "kadd %s %d" % (hx(ks[k - 1]), n + 5)]
        for k in ks + (b"other",): s += ["lfind " + hx(k), "kfind " + hx(k)]
        ses.append(s + ["ldump", "ldup", "ldump", "lfind " + hx(ks[0])])
    c.conform("tlc-lists", exe, ses, "StrTrace", K)
    ses = []
    for i in range(200 if q else 3000):
        al = r.choice([b"ab", b"a\0", bytes(range(256)), b"kK"]); pool = [rs(r, r.choice([0, 1, 2, 3, 9]), al) for _ in range(r.choice([2, 4, 10]))]
        pool += [p + b"\0" for p in pool[:1]] + [p[:-1] for p in pool[:2]]
        s = ["S %d" % r.choice([0, 1, 2, 4, 16])]; n = k = p = t = 0; dup = False
        for _ in range(r.randint(5, 60)):
            x = r.random(); e = hx(r.choice(pool)); ix = lambda m: r.choice([r.randrange(m) if m else 0, m, m + 1]) if r.random() < .3 else (r.randrange(m) if m else 0)
            if x < .16: s.append("ladd " + e); n += 1
            elif x < .18: s.append("ladddup " + e); n += 1
            elif x < .2:
                j = r.choice([0, n, ix(n)]); s.append("lins %d %s" % (j, e)); n += j <= n
            elif x < .24: s.append("lset %d %s" % (ix(n), e))
            elif x < .34: s.append("lfind " + e)
            elif x < .38: s.append("lget %d" % ix(n))
            elif x < .40: s.append("ldump")
            elif x < .42 and not dup: s.append("ldup"); dup = True
            elif x < .52: s.append("kadd %s %d" % (e, r.randint(0, 10000))); k += 1
            elif x < .55: s.append("kset %d %s %d" % (ix(k), e, r.randint(0, 10000)))
            elif x < .65: s.append("kfind " + e)
            elif x < .68: s.append("kget %d" % ix(k))
            elif x < .74: s.append("padd %d" % r.randint(0, 2**31 - 2)); p += 1
            elif x < .77: s.append("pset %d %d" % (ix(p), r.randint(0, 2**31 - 2)))
            elif x < .80: s.append("pall")
            elif x < .86: s.append("tadd " + e); t += 1
            elif x < .90: s.append("tadddup " + e); t += 1
            elif x < .94: s.append("tget %d" % ix(t))
            elif x < .97:
                j = ix(t); s.append("tdel %d" % j); t -= j < t
            else: s.append("tall")
            if r.random() < .08: s.append("lempty")
        ses.append(s + ["ldump", "pall", "tall", "lempty"])
    for i in range(30 if q else 400):   # sorted insertion of string entries
        al = r.choice([b"ab", b"a\0", bytes(range(256))])
        ses.append(["S %d" % r.choice([0, 1, 2, 3, 16])] + ["linss 0 " + hx(rs(r, r.choice([0, 1, 2, 3, 9]), al)) for _ in range(r.choice([1, 5, 40]))] + ["ldump", "lempty"])
    for n in (0, 1, 2): ses.append(["S 1"] + ["ladd 6%d" % k for k in range(n)] + ["lins %d 7a" % k for k in (2**31, 2**32, 2**63, 2**64 - 1)] + ["ldump"])
    c.conform("random-lists", exe, ses, "StrTrace", K)
    ses = []
    for n in [0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073] + ([2**20, 2**24 + 3] if not q else [2**18]):
        for k in sorted({0, n // 2, n - 1, n}) if n < 70000 else (n - 1, n): 
            if k >= 0: ses.append(["S", "many %d %d %s %s" % (n, k, hx(r.choice([b"a", b"same", b"\0"])), hx(r.choice([b"b", b"samf", b"", b"\0\0"])))])
    ses.append(["S", "many 70000 3 61 61"])
    c.conform("long-lists", exe, ses, "StrTrace", K)
