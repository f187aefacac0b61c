from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("OptMC", dict(Alph={45, 61, 97}, WordLen=4, MaxArgs=2), inv=["Exact"], gen=True)
    exe = c.build("opt")
    ses = [["S", "argv " + " ".join(hx(bytes(w)) for w in a), "get " + hx(bytes(o)), "flag " + hx(bytes(o)), "print"] for a, o in (g if len(g) < 9000 or not q else r.sample(g, 9000))]
    W = [b"v", b"ver", b"verbose", b"x", b"out", b"o", b"ou", b"n", b"na", b"name", b"\xfc", b"a-b", b"l", b"ltp", b"L", b"V"]
    for _ in range(1200 if q else 20000):
        args = []
        for _ in range(r.randint(0, 7)):
            w = r.choice(W); x = r.random()
            if x < .15: w += r.choice([b"x", b"=", b" ", b"-", b"s"])
            elif x < .22: w = w[:-1]
            d = r.choice([b"-", b"-", b"--", b"--", b"", b"---"]) ; y = r.random()
            v = b"" if y < .45 else b"=" + r.choice([b"", b"1", b"a=b", b"-v", b"=", b"val ue", b"-name=z", w])
            args.append(r.choice([d + w + v] * 6 + [b"-", b"--", b"", b"=", b"-=", b"--=x", b"plain", w, b"file-v"]))
        s = ["S", "argv " + " ".join(hx(a) for a in args)]
        for w in r.sample(W, 6): s += ["get " + hx(w), "flag " + hx(w)]
        ses.append(s + ["print"])
    # many arguments, long names and long values
    for n in SWEEP if not q else [x for x in SWEEP if x < 5000]:
        w = bytes(r.choice(b"abcxyz-") for _ in range(n - 1)).replace(b"-", b"q", 1) + b"e"; w = w if w[:1] != b"-" else b"a" + w[1:]; d = r.choice([b"-", b"--"])
        for v in (b"", b"=", b"=1", b"=" + w): ses.append(["S", "argv %s %s %s" % (hx(d + w[:-1] + v), hx(d + w + v), hx(b"next")), "get " + hx(w), "flag " + hx(w), "get " + hx(w[:-1]), "flag " + hx(w[:-1]), "get " + hx(w + b"e"), "flag " + hx(w + b"e"), "print"])
        ses.append(["S", "argv %s" % hx(b"--name=" + b"v" * n), "get 6e616d65", "get 6e616d", "flag 6e616d65", "print"])
        if n < (1100 if q else 5000):
            k = r.choice([n - 1, n - 2, n // 2, 0, r.randrange(n)]); a = [r.choice([b"-x", b"--yy=z", b"plain", b"--last", b"-la"]) for _ in range(n)]; a[k] = r.choice([b"-last", b"-last=1", b"--last=", b"--last"])
            ses.append(["S", "argv " + " ".join(hx(x) for x in a), "get " + hx(b"last"), "flag " + hx(b"last"), "get " + hx(b"lastx"), "flag " + hx(b"lastx"), "print"])
            b = [b"-x=1"] * n; b[k] = b"--only"; ses.append(["S", "argv " + " ".join(hx(x) for x in b), "get " + hx(b"only"), "flag " + hx(b"only"), "get 78", "flag 78"])
    c.conform("options", exe, ses, "OptTrace")
