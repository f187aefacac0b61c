from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("LoggerMC", dict(H=128, MaxArgs=2, Errs={1, 2, 3}), inv=["Exact", "InOrder", "Emit"], gen=True)
    if not q: c.mc("LoggerMC", dict(H=256, MaxArgs=3, Errs={1, 2}), inv=["Exact", "InOrder"], name="LoggerMC-three")
    exe = c.build("logger", wraps=["write", "time"]); exp = c.build("logger", wraps=["write", "time"], flavour="plain")
    H, Q = 128, 16
    def word(t, v):
        lo, hi = (Q, 2 * Q) if t in (3, 4) else (H, 2 * H); top = 2**32 if t in (3, 4) else 2**64
        if v < 11 and v < lo - 1: return v
        return {lo - 1: top // 2 - 1, lo: top // 2, hi - 1: top - 1}[v] | (r.getrandbits(32) << 32 if t in (3, 4) else 0)
    def arg(a):
        if a["t"] <= 1:
            t = a["t"] if a["t"] == 0 else r.choice([1, 2]); return "%d:%s" % (t, hx(bytes(97 + i for i in range(a["v"]))) if a["v"] else r.choice(["N", "-"]))
        return "%d:%d" % (a["t"], word(a["t"], a["v"]))
    calls = sorted({json.dumps(x) for x in g}); ses = []
    for i in range(0, len(calls), 40): ses.append(["S"] + ["put %d %s" % (r.randrange(1, 5), " ".join(arg(a) for a in json.loads(x))) for x in calls[i:i + 40]])
    NUM = [0, 1, 9, 10, 11, 99, 100, 255, 256, 10**9 - 1, 10**9, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 10**18, 10**19 - 1, 10**19, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64 - 2, 2**64 - 2**31, 2**64 - 2**31 - 1, 2**64 - 10, 2**64 - 9]
    def rnum(): return r.choice(NUM) if r.random() < .5 else r.getrandbits(r.randrange(1, 65))
    def rstr(c=False):
        k = r.random(); n = r.choice([0, 1, 2, 3, 10, 100]) if k < .95 else r.choice([511, 512, 4095, 4096, 5000])
        return bytes(r.choice([0, 10, 37, 65, 255, r.randrange(256)]) for _ in range(n))
    def rarg(t=None):
        t = r.randrange(7) if t is None else t
        return "%d:%s" % (t, ("N" if r.random() < .1 else hx(rstr())) if t <= 2 else rnum())
    for i in range(40 if q else 600):
        s = ["S"]
        for j in range(20):
            fd = r.randrange(1, 5); k = r.randrange(9)
            if r.random() < .3: s.append("errno %d" % r.choice([0, 1, 2, 4, 9, 11, 22]))
            s.append(["put %d %s" % (fd, " ".join(rarg() for _ in range(r.randint(0, 12)))), "puts %d %s" % (fd, rarg(r.randrange(0, 3))), "putd %d %d %d" % (fd, rnum(), r.choice([0, 1, 2, -1])), "putln %d" % fd, "space %d" % fd,
                      "error %d %d %s" % (fd, r.choice([0, 1, 2, 9, 11, 22, 34, 133, 9999, r.randrange(140)]), rarg(1)), "macro %d %d" % (fd, rnum()), "stamp %d" % fd, "printall " + " ".join(hx(rstr().replace(b"\0", b"")) for _ in range(r.randint(0, 6)))][k].rstrip())
            if k == 7: s.insert(-1, "now %d" % r.choice([0, 1, 951782399, 2**31, r.randrange(4 * 10**9)]))
        ses.append(s)
    ses.append(["S"] + ["putd %d %d %d" % (i % 4 + 1, n, sg) for i, n in enumerate(NUM) for sg in (0, 1)] + ["macro 3 %d" % n for n in NUM] + ["error %d %d 1:6d7367" % (1 + e % 4, e) for e in range(0, 135)])
    ses.append(["S"] + ["put 3 %d:%d" % (t, n) for t in (3, 4, 5, 6) for n in NUM])
    for n in SWEEP + WIDE if not q else [x for x in SWEEP if x < 9000]:       # lengths of one text, of several in one call
        t = bytes(r.choice(b"ab\n%\xff") for _ in range(n)); z = r.randrange(n)
        ses.append(["S", "put 3 0:%s" % hx(t), "put 1 1:%s 2:%s" % (hx(t), hx(t[:-1])), "puts 4 0:%s" % hx(t), "puts 2 1:%s" % hx(t), "put 3 0:%s 3:77 0:%s" % (hx(t[:z] + b"\0" + t[z + 1:]), hx(b"q")), "error 2 2 1:%s" % hx(t), "printall %s %s" % (hx(t), hx(b"z"))])
    for n in ([255, 256, 257] if q else [100, 150, 198]): ses.append(["S", "printall " + " ".join(hx(b"%d" % i) for i in range(min(n, 198)))])
    BIG = [4096, 8191, 16384, 32768, 65535, 65536, 65537, 1 << 20, 3 << 20] if q else [4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 10 << 20, 1 << 24, 100 << 20]
    ses.append(["S"] + ["big %d %s %s %d" % (r.randrange(1, 5), k, hx(b"0123456789abcde\xff"[:p]), n // p + 1) for n in BIG for k in ("puts", "putc", "put", "putv", "error") for p in [r.choice([3, 7, 16])]])
    ses.append(["S"] + ["big %d %s 61 %d" % (r.randrange(1, 5), k, n) for n in SWEEP + WIDE + BIG for k in ("puts", "putc", "put", "putv", "putm", "error")])
    c.conform("logger", exe, ses, "LoggerTrace")
    c.conform("logger-release-build", exp, ses[::3] if q else ses, "LoggerTrace")
