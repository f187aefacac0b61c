from .core import *
PM = dict(PathMax=4096)
def rpath(r, rel=False):
    names = [b"a", b"ab", b"...", b"..a", b".a", b"a.", b"a..", b".", b"..", b".", b"..", b"", b"\xff", b"x y", b"....", b"lib", b"usr"]
    p = b"/".join(r.choice(names) for _ in range(r.choice([0, 1, 2, 3, 6, 12])))
    return (b"" if rel and r.random() < .5 else b"/") + p + r.choice([b"", b"", b"/", b"//", b"/.", b"/.."])
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("PathMC", dict(MaxLen=7 if q else 9, Chars={46, 47, 97}), inv=["ScanOK", "Canon"], gen=True)
    exe = c.build("path")
    ab = [p for p in g if p and p[0] == 47]
    def chunk(ops, k=40): return [["S"] + ops[i:i + k] for i in range(0, len(ops), k)]
    ops = ["norm " + hx(bytes(p)) for p in ab] + ["norm " + hx(bytes(p)) for p in (g if not q else r.sample(g, 300)) if not p or p[0] != 47]
    short = [bytes(p) for p in ab if len(p) <= 4]
    ops += ["diff %s %s" % (hx(a), hx(b)) for a in short for b in (short if not q else r.sample(short, 14))]
    c.conform("tlc-paths", exe, chunk(ops, 60), "PathTrace", PM, unpriv=True)
    ops = []
    for i in range(1500 if q else 20000):
        p = rpath(r, i % 5 == 0); ops.append("norm " + hx(p))
        if i % 2 == 0:
            x = r.random()
            t = rpath(r) if x < .2 else p + r.choice([b"", b"/", b"x", b"/x", b"/x/y", b"/../z", b"/./q", b"b/c", b"/" + r.choice([b"a", b"ab", b".."])]) if x < .8 else p[:r.randint(0, len(p))]
            ops.append("diff %s %s" % (hx(p if r.random() < .9 else b"/"), hx(t)))
    for n in (4093, 4094, 4095, 4096, 4097, 4100, 6000):
        for f in (lambda n: b"/" + b"a" * (n - 1), lambda n: b"/" * n, lambda n: (b"/ab" * 3000)[:n], lambda n: (b"/./a/../" * 2000)[:n], lambda n: (b"/abc/.." * 2000)[:n], lambda n: b"/x" + b"/." * ((n - 2) // 2)):
            ops.append("norm " + hx(f(n)))
        ops.append("diff %s %s" % (hx(b"/a"), hx(b"/a/" + b"b" * (n - 3))))
    for n in SWEEP + WIDE[:4] + ([] if q else WIDE[4:]):        # the text version has no limit of length
        m = max(40, n // 300)
        for f in (lambda: b"/" + b"a" * (n - 1), lambda: (b"/" + b"ab" * m + b"/./" + b"x" * m + b"//" + b"yz" * m + b"/..") * (n // (7 * m) + 1), lambda: (b"/" + b"q" * m + b"/" + b"b" * m + b"/../..") * (n // (2 * m) + 1) + b"/end", lambda: b"/" * (n - 4) + b"a/bc/"):
            p = f()[:n]; ops.append("norm " + hx(p))
            if r.random() < .5 and n < 9000: ops.append("diff %s %s" % (hx(p[:r.randint(1, n)] if r.random() < .5 else p), hx(p + r.choice([b"", b"/x", b"x"]))))
    ops += ["diff %s %s" % (hx(a), hx(b)) for a in (b"/", b"//", b"/.", b"/a/..") for b in (b"/", b"/a", b"//a/b/", b"/..", b"a", b"")]
    c.conform("random", exe, chunk(ops, 50), "PathTrace", PM, unpriv=True)
