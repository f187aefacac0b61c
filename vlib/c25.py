from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("SearchMC", dict(Text={97, 66, 45}, Needle={65, 66, 42}, MaxText=5 if q else 7, MaxNeedle=3), inv=["Exact"], gen=True)
    exe = c.build("search"); exu = c.build("search", flavour="plain")
    ops = ["cls %d" % i for i in range(256)]
    r.shuffle(g)
    for k, h, n in g[:7000 if q else 60000]: ops.append("%s %s %s" % (k, hx(bytes(h)), hx(bytes(n))))
    for k in ("uc", "star"): ops += ["%s null 41" % k, "%s 41 null 1" % k, "%s 41 -" % k, "%s - 41" % k, "%s - -" % k]
    ops += ["has null 65"]
    D = b" \t\n:,.;-"
    for a in range(1, 256):      # every character beside, inside and against a match
        ops += ["word %s 4142" % hx(bytes([a]) + b"aB"), "word %s 4142" % hx(b"Ab" + bytes([a])), "word %s 4142" % hx(b"xab ab" + bytes([a]) + b" ab"), "word %s 4142" % hx(b"abx" + bytes([a]) + b"AB,"),
                "uc %s %s" % (hx(bytes([a])), hx(bytes([a]))), "uc %s %s" % (hx(b"q" + bytes([a])), hx(bytes([a ^ 32 or 1]))), "star %s %s" % (hx(b"q" + bytes([a]) + b"z"), hx(b"q*z")), "star %s %s" % (hx(b"*" + bytes([a])), hx(bytes([a]))),
                "has %s %d" % (hx(b"ab" + bytes([a])), a), "has %s %d" % (hx(b"a" + bytes([a]) + b"b"), r.randrange(1, 256)), "ends %s %s" % (hx(b"ab" + bytes([a])), hx(bytes([a])))]
    AL = [b"aAbB", b"aabAB ", b"aAbB -.,", bytes(range(1, 256)), b"ab*", b"a \xe4\xc4", b"aA\r\n "]
    for _ in range(4000 if q else 60000):
        A = r.choice(AL); h = bytes(r.choice(A) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 30])))
        k = r.choice(["uc", "star", "word", "word", "ends", "has"])
        if k == "has": ops.append("has %s %d" % (hx(h), r.choice(A))); continue
        if k == "ends":
            e = r.choice([h[r.randint(0, len(h)):], bytes(r.choice(A) for _ in range(r.randint(0, 3))), b"x" + h, h + b"x", h, h[:-1]]); ops.append("ends %s %s" % (hx(h), hx(e))); continue
        p = r.randint(0, len(h)); n = h[p:p + r.randint(0, 5)] if r.random() < .7 else bytes(r.choice(A) for _ in range(r.randint(1, 4)))
        if k != "star" and r.random() < .9: n = bytes(x - 32 if 97 <= x <= 122 else x for x in n)
        if k == "star": n = bytes(42 if r.random() < .3 else x for x in n)
        if r.random() < .5 and n:     # partial match directly before the real one
            m = r.randint(1, len(n)); h = h[:p] + n[:m] + (b"" if r.random() < .6 else bytes([r.choice(D)])) + n + h[p + r.randint(0, 5):]
        ops.append("%s %s %s" % (k, hx(h), hx(n)))
    # words which overlap themselves: u v u, in a text where the first occurrence does not count but one overlapping it does
    def up(b): return bytes(x - 32 if 97 <= x <= 122 else x for x in b)
    for _ in range(1500 if q else 20000):
        u = bytes(r.choice(b"abc") for _ in range(r.choice([1, 1, 2, 3, 5]))); v = bytes(r.choice(b"abcDE -.,") for _ in range(r.choice([0, 1, 2, 4, 9])))
        n = u + (v + u) * r.choice([1, 1, 2]); pre = r.choice([b"", b"x", b"q-", b"x" + n, n + b"x", u]); reps = r.choice([1, 1, 2, 3])
        h = pre + n + (v + u) * reps + r.choice([b"", b"", b" ", b"\r", b"x", b"-z", v])
        k = r.choice(["word", "word", "uc", "star"]); m = up(n) if k != "star" else n; ops.append("%s %s %s" % (k, hx(h), hx(m)))
    # lengths of text, needle and distance around powers of two
    def body(n, A): return bytes(r.choices(A, k=n))
    allong = []
    L = SWEEP + WIDE if not q else SWEEP + WIDE[:3]
    for n in L:
        h = body(n, b"abC dE-"); longs = ["has %s %d" % (hx(h + b"z"), 122), "has %s %d" % (hx(h), 122), "has %s 98" % hx(b"Q" * n + b"b")]
        for k in ("uc", "word", "star"):
            longs += ["%s %s %s" % (k, hx(h + b" zQ*"), hx(b"ZQ*")), "%s %s %s" % (k, hx(h), hx(b"ZQ")), "%s %s %s" % (k, hx(b"ab " * (n // 3 + 1) + b"ac"), hx(b"AC" if k != "star" else b"ac"))]
            m = body(n, b"ABC1"); longs += ["%s %s %s" % (k, hx(b"x " + m + b" y"), hx(m)), "%s %s %s" % (k, hx(m[:-1] + b"A " + m[:-1]), hx(m[:-1] + b"z")), "%s %s %s" % (k, hx(m[:-1]), hx(m))]
            if n > 4: i = r.randrange(1, n - 1); longs.append("%s %s %s" % (k, hx(m[:i] + b"q" + m[i + 1:] + b" " + m), hx(m)))
        e = body(n, b"abcd"); longs += ["ends %s %s" % (hx(b"xy" + e), hx(e)), "ends %s %s" % (hx(e), hx(e)), "ends %s %s" % (hx(e), hx(b"x" + e)), "ends %s %s" % (hx(b"xy" + e[:-1] + b"z"), hx(e)), "ends %s %s" % (hx(b"xyz" + e[1:]), hx(e)), "ends %s %s" % (hx(e + b"ab"), hx(b"ab"))]
        i = r.randrange(n); longs.append("ends %s %s" % (hx(b"p" + e[:i] + b"q" + e[i + 1:]), hx(e)))
        if n > 260: longs += ["ends %s %s" % (hx(b"p" + e[:i] + b"q" + e[i + 1:]), hx(e)) for i in (n - 256, n - 255, n - 3, n // 2)]
        if q and n > 5000: longs = r.sample(longs, 12)
        allong.append(longs)
    for k in range(0, len(allong), 9 if q else 4):      # (a trace of more than some 10 million bytes is too much for TLC's memory)
        c.conform("search-long-%d" % k, exe, [["S"] + x[i:i + 8] for x in allong[k:k + (9 if q else 4)] for i in range(0, len(x), 8)], "SearchTrace")
    ses = [["S"] + ops[i:i + 100] for i in range(0, len(ops), 100)]
    c.conform("search", exe, ses, "SearchTrace")
    c.conform("search-release-build", exu, ses[::4] if q else ses, "SearchTrace")
