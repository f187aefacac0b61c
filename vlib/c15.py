from .core import *
from .c14 import IO
from .c12 import rs
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("ReaderMC", dict(MaxLen=6 if q else 8, Bufs={1, 2, 3, 7}, Own=2, MaxOps=5 if q else 6), inv=["Conforms"], view="View", gen=True)
    exe = c.build("file", wraps=IO, extra=["iowrap.c"])
    if len(g) > (1500 if q else 12000): g = r.sample(g, 1500 if q else 12000)
    ses = []
    for x in g:
        s = ["S", "pnew " + hx(bytes(x["c"]))]
        for o in x["o"]:
            if r.random() < .3: s.append("plan " + " ".join(str(r.randint(1, 3)) for _ in range(r.randint(1, 5))))
            s.append(o)
        ses.append(s + ["rl"] * 3 + ["pclose"])
    c.conform("tlc-histories", exe, ses, "ReaderTrace", unpriv=True)
    ses = []
    for i in range(250 if q else 4000):
        ll = lambda: r.choice([0, 1, 3, 60, 200, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073] if i % 3 == 0 else [0, 0, 1, 2, 5, 30])
        al = b"a\0\xff\r b" if i % 2 else b"ab"
        t = b"\n".join(bytes(r.choice(al) for _ in range(ll())) for _ in range(r.randint(1, 7))) + r.choice([b"", b"\n", b"\n\n"])
        if r.random() < .05: t = b""
        s = ["S", "pnew " + hx(t) + r.choice([""] * 5 + [" %d" % r.choice([2**31 - 5, 2**31, 2**32 - 7, 2**32, 2**33 + 5, 2**40])])]   # also: the file is the tail of a larger one
        for _ in range(r.randint(4, 20)):
            y = r.random()
            if y < .15: s.append("plan " + " ".join(str(r.randint(1, 700)) for _ in range(r.randint(1, 9))))
            elif y < .22: s.append("plan " + " ".join([r.choice(["0", "3", "500"]) for _ in range(r.randint(0, 3))] + [r.choice(["-5", "-4"])]))
            x = r.random()
            s.append("rl" if x < .45 else "nl" if x < .65 else "ru %d" % r.choice([1, 2, 3, 10, 64, 1023, 1024, 1025, 2048, 4096, 5000]))
        s += ["ru 5000"] * 8 + ["nl", "rl", "pclose"]
        if i % 9 == 0: s += ["pnone", "pnew 61", "rl", "rl", "nl", "plan open=13", "pnew 62", "pnew 63", "rl", "pclose"]
        ses.append(s)
    for n in (1022, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 10240):
        for t in (b"", b"\n", b"\nz", b"\n\n"):
            ses.append(["S", "pnew " + hx(b"x\n" + b"q" * n + t), "nl", "rl", "nl", "rl", "nl", "ru %d" % n, "ru %d" % (n + 1), "nl", "rl", "nl", "rl", "pclose"])
    for n in SWEEP + ([] if q else WIDE):     # bytes that might be mistaken, around every power of two
        for e in (b"\r", b"\0", b"\xff", b"\r\r"):
            t = b"".join(rs(r, n + d, b"ab") + e + b"\n" for d in (-3, -2, -1, 0)[:4 if n < 2000 else r.choice([1, 2])]) + rs(r, n - 1, b"ab") + e + b"c\n" + rs(r, n, b"ab\r")
            s = ["S", "pnew " + hx(t)]
            if r.random() < .3: s.append("plan " + " ".join(str(r.choice([n, n - 1, n + 1, 1, r.randint(1, n)])) for _ in range(8)))
            for _ in range(7): s += r.choice([["nl"], ["rl"], []]) + ["ru %d" % r.choice([n - 1, n, n + 1, n + 9, n + 9, 2 * n])]
            ses.append(s + ["ru %d" % (2 * n)] * 6 + ["rl", "nl", "pclose"])
    for n in SWEEP[2:18:3] + [70001]:         # many lines
        t = b"".join(rs(r, r.choice([0, 0, 1, 2]), b"a\r") + b"\n" for _ in range(n)) + b"end"
        ses.append(["S", "pnew " + hx(t)] + [x for _ in range(min(n, 3000) + 2) for x in r.choice([["rl"], ["rl"], ["ru 5"], ["nl", "rl"]])] + ["pclose"])
    for i in range(60 if q else 600):
        t = b"\n".join(bytes(r.choice(b"ab\r\xff ") for _ in range(r.choice([0, 1, 2, 9, 60]))) for _ in range(r.randint(0, 6))) + r.choice([b"", b"\n"])
        ses.append(["S", "stdin %s %d %d %d" % (hx(t), r.choice([62, 63, 200]), r.randrange(2), r.randint(1, 10))])
    c.conform("random", exe, ses, "ReaderTrace", unpriv=True)
