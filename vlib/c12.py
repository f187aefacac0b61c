from .core import *
from .bigs import big, G
def rs(r, n, al=b"ab"): return bytes(r.choice(al) for _ in range(n))
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("SplitMC", dict(Alpha={97, 98}, MaxS=7 if q else 9, MaxD=3), inv=["Correct", "Greedy"], gen=True)
    exe = c.build("strs")
    def group(ops, n=60): return [["S"] + ops[i:i + n] for i in range(0, len(ops), n)]
    ops = []
    for i, g in enumerate(gen):
        s, d = bytes(g["s"]), bytes(g["d"])
        ops.append("splits %s %s" % (hx(s), hx(d)))
        if len(d) == 1: ops.append("splitc %s %d" % (hx(s), d[0]))
        ops.append("repl %s %s %s" % (hx(s), hx(d), hx([b"", b"x", b"ab", b"ba", b"xyz", b"a", b"\0"][i % 7])))
    c.conform("all-small", exe, group(ops), "StrTrace", dict(CheckMem=False))
    ops = []
    for i in range(400 if q else 5000):
        al = r.choice([b"ab", b"a", b"abc", b"a,b", bytes(range(256)), b"\r\n", b"\0a", b"\xff\xfe\x80a"])
        d = rs(r, r.choice([1, 1, 2, 2, 3, 4, 8]), al)
        n = r.choice([0, 1, 3, 10, 30, 60, 200]) if q else r.choice([0, 1, 10, 60, 200, 700])
        s = rs(r, n, al)
        if r.random() < .6:   # many delimiters
            s = b"".join(rs(r, r.choice([0, 0, 1, 2, 5]), al) + d for _ in range(r.choice([1, 3, 15, 16, 17, 31, 32, 33, 40]))) + rs(r, r.choice([0, 1, 4]), al)
        x = r.random()
        if x < .35: ops.append("splits %s %s" % (hx(s), hx(d)))
        elif x < .6:
            ops.append("splitc %s %d" % (hx(s), d[0]))
            if r.random() < .3: ops.append("lines " + hx(s.replace(d, b"\n")))
        elif x < .9: ops.append("repl %s %s %s" % (hx(s), hx(d), hx(rs(r, r.choice([0, 1, 2, 3, 20]), al))))
        else: ops.append("concat " + " ".join(hx(rs(r, r.choice([0, 0, 1, 2, 9, 50]), al)) for _ in range(r.randint(1, 7))))
    # negative plain-char delimiters are the same byte
    ops += ["splitc %s %d" % (hx(b"a\xe9b\xe9\xe9"), -23), "splitc %s %d" % (hx(b"a\xe9b\xe9\xe9"), 233), "splitc - 10", "splitc 0a 10", "splits - 61", "repl - 61 62", "repl 61 61 -", "concat -", "concat - -"]
    ops += ["splits %s %s" % (hx(b"x" * 10), hx(b"x" * 11)), "splits %s %s" % (hx(b"x" * 10), hx(b"x" * 10))]
    c.conform("random", exe, group(ops, 40), "StrTrace", dict(CheckMem=False))
    # every length around powers of two: of pieces, delimiters and replacements; delimiters that almost match
    ops = []
    for n in SWEEP + (WIDE if not q else [65535, 65536, 65537]):
        d = (rs(r, n - 1, b"xy") if n < 300 else b"Q" + rs(r, n - 2, b"xy")) + b"Z"; m = n > 5000
        p = [rs(r, r.choice([0, 1, 5]), b"abx") for _ in range(4)]
        s = d.join(p[:2] if m else p) + d[:-1]
        ops.append(r.choice(["splits %s %s" % (hx(s), hx(d)), "repl %s %s %s" % (hx(s), hx(d), hx(rs(r, r.choice([0, 1, n]), b"w")))]))
        if n <= 4097: ops += ["splits %s %s" % (hx(d[1:] + s), hx(d)), "repl %s %s %s" % (hx(s + d), hx(d), hx(b"vw"))]
        w = rs(r, n, b"wW"); e = r.choice([b",", b",;", b"--,"])
        ops.append("repl %s %s %s" % (hx(e.join([b"a", b"", b"b" * 9])), hx(e), hx(w)))
        for e in (b"\n", b"<>"):
            s = rs(r, n, b"a<") + e + rs(r, r.choice([0, 3, 300]), b"a<") + (e + rs(r, n - 1, b"b<") if n < 5000 or e == b"\n" else b"")
            ops += ["splits %s %s" % (hx(s), hx(e))] + (["splitc %s 10" % hx(s), "lines " + hx(s)] if e == b"\n" else ["repl %s %s 5b5d5b5d" % (hx(s), hx(e))])
        ops.append("concat " + " ".join(hx(x) for x in r.sample([rs(r, n, b"ab"), b"", b"x", rs(r, r.choice([1, 255, 256]), b"cd")], 4)))
    for n in [255, 256, 257, 1000, 4096, 8193] + ([] if q else [30000]):      # counts of pieces
        s = b"".join(rs(r, r.choice([0, 0, 1, 2]), b"ab") + b"--" for _ in range(n))
        ops += ["splits %s 2d2d" % hx(s), "splitc %s 45" % hx(s), "repl %s 2d2d %s" % (hx(s), r.choice(["-", "2b", "2b2c2d"]))]
    ops += ["splitc %s 44" % hx(b"a," * 70000), "splits %s 2c2c" % hx(b",,b" * 66000), "lines " + hx(b"\n" * 131073)]
    r.shuffle(ops)
    c.conform("long-pieces-and-delimiters", exe, group(ops, 8), "StrTrace", dict(CheckMem=False))
    ses = []
    for n in SWEEP[::2] + [65535, 65536, 65537]:
        ses.append(["S 4", "ladd " + hx(rs(r, n, b"ab")), "ladd -", "ladd " + hx(rs(r, n + 1, b"a\n")), "ladd 61", "tostr", "tostrdos"])
    for n in (1000, 5000): ses.append(["S 4"] + ["ladd " + hx(rs(r, r.choice([0, 1, 2]), b"ab")) for _ in range(n)] + ["tostr", "tostrdos"])
    for i in range(120 if q else 1500):
        s = ["S %d" % r.choice([1, 2, 4, 16])]
        al = r.choice([b"ab", b"a\n", bytes(range(256)), b"\0"])
        for _ in range(r.choice([0, 1, 2, 5, 16, 17, 40])): s.append("ladd " + hx(rs(r, r.choice([0, 0, 1, 3, 30, 1 if q else 300]), al)))
        ses.append(s + ["tostr", "tostrdos"])
    c.conform("list-to-text", exe, ses, "StrTrace", dict(CheckMem=False))
    big(c, ["splitc 97 %d 2c61612c2c62 2c" % (G + 4), "splitc 97 %d - 2c" % (G + 4), "splits 97 %d 2c61612c2c62 612c" % (G + 4), "splits 97 %d 61612c6161612c62 61612c" % (G + 1),
            "repl 97 %d 2c61612c2c62 2c 787878" % (G + 4), "repl 97 %d 2c61612c2c62 612c -" % (G + 4), "concat 97 %d 2c00 7879 6162" % (G + 4)])
