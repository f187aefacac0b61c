from .core import *
from .c19 import call, CONV, U
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("StdioMC", dict(MaxCalls=3, Texts={0, 1, 2}, Buffered=False), inv=["InOrder", "Emit"], gen=True)
    if not q: c.mc("StdioMC", dict(MaxCalls=5, Texts={0, 1, 2}, Buffered=False), inv=["InOrder"], name="StdioMC-longer")
    exe = c.build("repl"); exp = c.build("repl", flavour="plain")
    def text(n): return bytes(r.choice(b"ab%\xff\n \t0") for _ in range(n))
    def fmt():
        f = b""
        for _ in range(r.randint(0, 5)): f += r.choice(CONV) if r.random() < .6 else bytes(r.choice(b"ab .:\xfe\n0") for _ in range(r.randint(0, 5)))
        return f
    def pr(k, f, **kw):
        x = call(r, "sn", 0, f, **kw)       # "f sn 0 FMT ARG..."
        return None if x is None else "%s %s" % (k, " ".join(x.split()[3:]))
    ses = []
    for x in sorted({json.dumps(y) for y in g}):
        x = json.loads(x); s = ["S %d" % x["s"]]
        for k, cl in enumerate(x["h"]):
            t = bytes(97 + k for _ in range(cl["n"]))
            if cl["nl"] and cl["fd"] == 1: s.append("puts " + hx(t))
            elif cl["nl"]: s.append("perror %d %s" % (r.choice([1, 2, 9, 22]), hx(t)))
            else: s.append(pr({1: r.choice("po"), 2: "e"}[cl["fd"]], r.choice([t.replace(b"%", b"%%"), b"%s"]), strs=t))
        ses.append(s + ["files"])
    for i in range(150 if q else 3000):
        s = ["S %d" % r.randrange(2)]
        for _ in range(r.randint(1, 25)):
            x = r.random()
            if x < .55: o = pr(r.choice("poed"), fmt(), nulls=.04)
            elif x < .7: o = "puts " + hx(text(r.choice([0, 1, 3, 10, 200])).replace(b"\0", b""))
            elif x < .8: o = "perror %d %s" % (r.choice([0, 1, 2, 4, 9, 11, 22, 34, 9999]), hx(text(r.choice([0, 1, 3, 10])).replace(b"\0", b"")))
            elif x < .97:
                f = fmt(); y = call(r, "sn", 0, f, nulls=.04); o = y and "%s %d %s" % (r.choice(["sn", "vs"]), r.choice([-1, 0, 1, 2, 3, r.randint(0, 60), 300]), " ".join(y.split()[3:]))
            else: o = "files"
            if o: s.append(o)
        ses.append(s + ["files"])
    # long texts up to the limit of one call, and formats that are refused
    for n in (1, 100, 1023, 1024, 4000, 4090, 4094, 4095):
        t = bytes(97 + k % 26 for k in range(n)); ses.append(["S %d" % (n % 2)] + ["%s %s s:%s" % (k, hx(b"%s"), hx(t)) for k in "poed"] + ["%s %s" % (k, hx(t)) for k in "poed"] + ["puts " + hx(t), "perror 2 " + hx(t), "files"])
    ses.append(["S 0"] + [x for f in (b"a%f", b"%5d|", b"%", b"x%.", b"%i", b"%lx") for k in "poed" for x in ("%s %s i:5 i:6" % (k, hx(f)), "puts 41")] + ["files"])
    for n in [x for x in SWEEP if x < 4096]:      # (one call takes up to 4095 bytes)
        t = bytes(r.choice(b"abc") for _ in range(n)); k = r.choice("poed"); s = ["S %d" % r.randrange(2)] + ["%s %s s:%s" % (k, hx(b"%s"), hx(t)), "%s %s s:%s i:42" % (k, hx(b"%s%d"), hx(t[:-2])), "%s %s" % (k, hx(t)), "puts " + hx(t), "perror 2 " + hx(t)]
        for m in (n - 1, n, n + 1, n + 2): s.append("%s %d %s s:%s" % (r.choice(["sn", "vs"]), m, hx(b"%s"), hx(t)))
        ses.append(s + ["files"])
    for same in (0, 1): ses.append(["S %d" % same] + ["big %s %s %d" % (k, hx(b"abc%defghijklmno"[:p]), n // p + 1) for n in ([4095, 4096, 65535, 65536, 1 << 20, 3 << 20] if q else [4095, 4096, 8191, 65535, 65536, 1 << 20, 10 << 20, 1 << 24, 64 << 20]) for k in ("puts", "perror") for p in [r.choice([1, 3, 7, 16])]] + ["puts 4142", "perror 2 4142", "files"])
    ses = [[x for x in s if x] for s in ses]
    c.conform("replacement", exe, ses, "StdioTrace")
    c.conform("replacement-release-build", exp, ses[::2] if q else ses, "StdioTrace")
