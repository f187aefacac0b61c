from .core import *
from .bigs import big, G
IO = ["read", "write", "pread", "pwrite", "writev", "open", "open64", "creat", "close", "lseek"]
def runs(r, n, m=100):
    o = []; left = n; last = -1
    while left:
        k = min(left, r.choice([1, 2, 3, r.randint(1, m), m])); b = r.choice([x for x in (0, 10, 13, 65, 66, 255, r.randrange(256)) if x != last]); last = b
        o += [b, k]; left -= k
    return ",".join(map(str, o)) or "-"
def run(c):
    q = not c.thorough; r = c.rng
    S = 5 if q else 7
    w = c.mc("TransferMC", dict(Size=S, Chunk=2, Reading=False, MaxPlan=4), inv=["PrefixOK", "Complete"], props=["Ends"], spec="Spec", gen=True, name="save-loop")
    rd = c.mc("TransferMC", dict(Size=S, Chunk=2, Reading=True, MaxPlan=4), inv=["PrefixOK", "Complete"], props=["Ends"], spec="Spec", gen=True, name="load-loop")
    exe = c.build("file", wraps=IO, extra=["iowrap.c"])
    ses = []
    conv = lambda p, u: " ".join("eof" if x == 0 else str(x * u if x > 0 else r.choice([-5, -4, -28])) for x in p)
    # model plans, one model unit = u bytes
    for i, p in enumerate(w):
        u = r.choice([1, 7, 100]); ct = runs(r, S * u)
        s = ["S"] + (["put a " + runs(r, r.choice([3, 50, 900]))] if i % 2 else [])
        s += ["plan " + conv(p, u), "save a " + ct, "load a", "save a " + runs(r, 5 * u), "load a"]; ses.append(s)
    for p in rd:
        u = r.choice([1, 7, 100])
        ses.append(["S", "put a " + runs(r, S * u), "plan " + conv(p, u), "load a", "load a"])
    if q and len(ses) > 700: ses = r.sample(ses, 700)
    c.conform("tlc-plans", exe, ses, "FileTrace", unpriv=True)
    ses = []
    def rplan(big):
        return "plan " + " ".join(r.choice(["0", str(r.randint(1, big)), "1", str(big), r.choice(["0", "-5", "eof", "-28", "-4"])]) for _ in range(r.randint(0, 6)))
    for i in range(150 if q else 2500):
        s = ["S"]
        for _ in range(r.randint(2, 9)):
            n = r.choice([0, 1, 2, 10, 300, 4096]); f = r.choice("abc"); x = r.random()
            if x < .2: s.append("put %s %s" % (f, runs(r, n)))
            elif x < .6:
                if r.random() < .5: s.append(rplan(n + 1))
                elif r.random() < .1: s.append("plan open=%d" % r.choice([13, 2, 24, 28]))
                s.append("save %s %s" % (f, runs(r, n)))
            else:
                if r.random() < .5: s.append(rplan(500))
                elif r.random() < .1: s.append("plan open=%d" % r.choice([13, 2, 24]))
                if r.random() < .15: s.append("fail %d" % r.randint(1, 3))
                s.append("load " + f)
        ses.append(s)
    for n in (65535, 65536, 65537, 131071, 131072, 131073, 200000) if q else range(65530, 65545):
        for pl in (None, "plan 65536 1 65535", "plan 30000 65536 -5", "plan 65536 eof", "plan 1 1 1 1", "plan 65535 65536"):
            s = ["S", "put a " + runs(r, 70000, 400)] + ([pl] if pl and "eof" not in pl else []) + ["save a " + runs(r, n, 400)]
            s += ([pl] if pl else []) + ["load a", "load a"]; ses.append(s)
    for k in SWEEP + [65535, 131072]:       # amounts taken and given by the system around powers of two
        ses.append(["S", "put a " + runs(r, 3 * k, 400), "plan %d %d %d %d" % (k, k, r.randint(1, k), k), "load a", "plan %d 1 %d" % (k, k), "load a",
                    "plan %d %d %d" % (k, k, k), "save b " + runs(r, r.choice([140000, 3 * k, 2 * k + 1]), 400), "load b", "plan %d -5" % k, "save b " + runs(r, 2 * k, 400), "load b"])
    c.conform("random", exe, ses, "FileTrace", unpriv=True)
    # lists of lines
    ses = []
    line = lambda: hx(bytes(r.choice(b"ab\r\0\xff [=") for _ in range(r.choice([0, 0, 1, 2, 5, 40]))))
    for i in range(250 if q else 4000):
        s = ["S"]; f = "l"
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < .45:
                y = r.random()
                if y < .25: s.append(rplan(20))
                elif y < .3: s.append("plan open=13")
                s.append("lsave %s %s %s" % (f, r.choice(["644", "600", "666", "640"]), " ".join(line() for _ in range(r.choice([0, 1, 2, 5, 12])))))
            elif x < .6:
                t = b"\n".join(bytes(r.choice(b"ab\r\0\xff") for _ in range(r.choice([0, 0, 1, 3, 30]))) for _ in range(r.randint(1, 8)))
                s.append("lput %s %s" % (f, hx(t + r.choice([b"", b"\n"]))))
            if x >= .3 or r.random() < .7:
                y = r.random()
                if y < .3: s.append("plan " + " ".join(str(r.randint(1, 40)) for _ in range(r.randint(1, 30))))
                elif y < .4: s.append("plan " + " ".join(["0"] * r.randint(0, 4) + ["-5"]))
                elif y < .5: s.append("fail %d" % r.randint(1, 5))
                s.append("lload %s %d %d" % (r.choice([f, f, f, "none"]), r.choice([1, 4]), r.choice([0, 0, 2])))
        ses.append(s)
    for n in (1021, 1022, 1023, 1024, 1025, 2047, 2048, 3000):
        for tail in (b"", b"\n", b"\nz", b"\n\n"):
            ses.append(["S", "lput l " + hx(b"ab\n" + b"q" * n + tail), "lload l 4 0", "lload l 4 1"])
            ses.append(["S", "lsave l 644 6162 %s 63" % hx(b"q" * n), "lload l 4 0"])
    ses.append(["S", "lsave l 644 " + " ".join(line() for _ in range(300)), "lload l 4 0"])
    for n in SWEEP[3:] + [65535, 65536, 65537, 70001] + ([] if q else [131073]):
        ses.append(["S", "lsave l 644 #%d %d" % (n, r.choice([10, 997, 100003])), "lload l 4 0"] + (["lload l 1 2", "plan " + " ".join(str(r.randint(1, 5000)) for _ in range(9)), "lload l 4 0"] if n < 5000 else []))
    for n in SWEEP[:13] + [1000, 1022]:
        for e in (b"\r", b"\0", b" ", b"\xff"):
            t = b"\n".join([b"x" * (n - 1) + e, b"y" * n + e, b"z" * (n - 2) + e + b"q", b""]) if n < 1022 else b"x" * (n - 1) + e
            ses.append(["S", "lput l " + hx(t), "lload l 4 0", "lsave l 644 %s %s" % (hx(b"x" * (n - 1) + e), hx(e + b"w" * (n - 2))), "lload l 4 0"])
    c.conform("line-lists", exe, ses, "FileTrace", unpriv=True)
    c.assumptions.append("read/write/open outcomes are injected at the libc call boundary of the library; an early end of file stands for a file that shrinks while being read")
    big(c, [["load 0 %d 616263" % (G + 4)], ["load 0 %d 61" % (G - 1)], ["save 97 %d 616263 0" % (G + 4), "save 0 %d 61 65535" % (G + 4), "save 0 %d 61 1000003" % (2**31 + 7)]])
