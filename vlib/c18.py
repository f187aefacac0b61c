from .core import *
PM = dict(PathMax=4096)
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("PathMC", dict(MaxLen=6 if q else 8, Chars={46, 47, 97}), inv=["ScanOK"], gen=True)
    exe = c.build("path")
    ops = [y for p in g for y in ("ext " + hx(bytes(p)), "fname " + hx(bytes(p)))]
    for i in range(600 if q else 10000):
        b = bytes(r.choice(b"./ab\xae\xaf\0\xff") for _ in range(r.choice([1, 2, 5, 20, 300])))
        ops += [r.choice(["ext ", "fname "]) + hx(b)]
    for n in SWEEP + WIDE:        # long names, the mark at either end or missing
        for ch in b"./":
            ops += [o + hx(x) for o in ("ext ", "fname ") for x in r.sample([bytes([ch]) + b"a" * n, b"a" * n + bytes([ch]), b"a" * n, b"b" + bytes([ch]) + b"a" * (n - 1), b"/." * (n // 2), b"a" * (n - 2) + bytes([ch]) + b"q", b"x" * 300 + bytes([ch]) + b"y" * n], 3 if n < 9000 else 1)]
    r.shuffle(ops)
    ses = [["S"] + ops[i:i + 60] for i in range(0, len(ops), 60)]
    c.conform("names", exe, ses, "PathTrace", PM, unpriv=True)
    ses = []
    S = [0, 1, 2, 4095, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**33 + 12345, 2**36]
    T = [-1, -2, -2**31, -2**31 + 1, -1000000007, 0, 1, 2**31 - 1, 2**31, 1700000000, 2**32 + 5]
    for i in range(60 if q else 600):
        s = ["S"]
        for _ in range(12):
            x = r.random(); f = r.choice("abcd")
            if x < .4: s += ["rmfile " + f, "mkfile %s %d %d" % (f, r.choice(S + [r.randrange(10**6)]), r.choice(T + [r.randrange(2**31), -r.randrange(2**31)]))]
            elif x < .5: s += ["rmfile " + f]
            elif x < .6: s += ["rmfile L", "mkfile d %d %d" % (r.choice(S), r.choice(T)), "link d L", "size L", "mtime L", "rmfile L"]
            s += ["size " + f, "mtime " + f]
        s += ["rmfile " + f for f in "abcdL"] + ["size none", "mtime none"]
        s = [s[0]] + ["rmfile " + f for f in "abcdL"] + s[1:]
        ses.append(s)
    for n in S:
        ses.append(["S"] + ["rmfile " + f for f in "abcdL"] + ["mkfile a %d %d" % (n, 1000 + n % 1000), "size a", "mtime a", "rmfile a", "size a", "mtime a"])
    c.conform("metadata", exe, ses, "PathTrace", PM, unpriv=True)
    c.assumptions.append("sizes up to 2^36 bytes (sparse files; sizes the scratch file system refuses are skipped)")
