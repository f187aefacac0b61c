from .core import *
CY = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("TempMC", dict(Makers={1, 2}, Names={1, 2, 3}, MaxTries=3 if q else 4), inv=["Fresh", "Exists", "Second", "Emit"], props=["NewOnly"], spec="Spec", gen=True)
    c.mc("TempMC", dict(Makers={1, 2, 3}, Names={1, 2}, MaxTries=2), inv=["Fresh", "Exists", "Second"], props=["NewOnly"], spec="Spec", name="TempMC-three")
    plans = sorted({tuple(x) for x in g})
    exe = c.build("temp", wraps=["mkdir", "mkdirat", "rand"]); exp = c.build("temp", wraps=["mkdir", "mkdirat", "rand"], flavour="plain")
    ERR = [13, 28, 2, 30, 36, 20, 1, 12]
    def codes(p): return " ".join(str({"E": 17, "O": 0}.get(x) if x != "D" else r.choice(ERR)) for x in p)
    PRE = [b"", b"p", b"ulz-", b"a/b", b"XXXXXX", b"x" * 200, b"pre fix\xff", b".", b"longer_prefix_name"]
    def rnd(n=18): return "rand " + " ".join(str(r.choice([r.randrange(62), 62 * r.randrange(1000) + 61, 62 * r.randrange(1000), r.getrandbits(31), 2**31 - 1, 0, 61, 62])) for _ in range(n))
    ses = []
    for p in plans:
        for rep in range(2 if q else 10):
            pre = r.choice(PRE); need = 9 + len(pre) + 7
            ses.append(["S", "seed %d" % r.randrange(1, 10**6), rnd(), "plan " + codes(p), "mkt %s %d" % (hx(pre), r.choice([need, need, need + 1, need + 100])), "plan " + codes([x for x in p if x != "D" or x == p[-1]]), "mkd 0 " + hx(r.choice(PRE) + b"XXXXXX")])
    # every buffer size around the needed one, every template length
    for pre in PRE:
        need = 9 + len(pre) + 7
        s = ["S"]
        for n in sorted({0, 1, 5, 6, 7, 9, need - 5, need - 4, need - 3, need - 2, need - 1, need, need + 1, need + 50} & set(range(0, 400))):
            s += ["plan", "mkt %s %d" % (hx(pre), n), "plan 13", "mkt %s %d" % (hx(pre), n), "plan 17 30 17 0", "mkt %s %d" % (hx(pre), n), "plan 13 17 17 28", "mkt %s %d" % (hx(pre), n)]
        ses.append(s)
    for n in range(0, 16): ses.append(["S", "plan", "mkd 0 " + hx(b"Y" * n), "plan 17 17", "mkd 0 " + hx(b"X" * n), "plan 17 13", "mkd 0 " + hx(b"X" * n), "mkd 1 " + hx((b"d/" + b"X" * max(0, n - 2))[:n] if n >= 8 else b"X" * min(n, 5))])
    # every residue of the random number in every position
    for k in range(0, 64):
        v = [k] * 6; ses.append(["S", "rand " + " ".join(map(str, v)), "mkd 0 " + hx(b"t-XXXXXX"), "rand " + " ".join(str(62 * r.randrange(10**6) + k % 62) for _ in range(6)), "mkt 61 30"])
    # the same numbers again: the second claim meets the first one's name
    for i in range(10 if q else 100):
        v = " ".join(str(r.getrandbits(31)) for _ in range(6))
        ses.append(["S"] + sum([["rand " + " ".join([v] * k), "mkt %s 40" % hx(b"same"), "rand " + " ".join([v] * k), "mkd 0 " + hx(b"/q/XXXXXX")] for k in (1, 1, 2, 3, 5)], []))
    # many existing names before a free one
    for n in (50, 128, 600): ses.append(["S", "plan " + " ".join(["17"] * n), "mkt 71 60", "plan " + " ".join(["17"] * n), "mkd 0 " + hx(b"zzXXXXXX")])
    # real directories: existing directories, files and dangling links under the name that comes next
    for i in range(40 if q else 500):
        s = ["S", "umask %s" % r.choice(["0", "22", "77", "27"]), "seed %d" % r.randrange(1, 10**6)]; pre = r.choice([b"", b"t-", b"deep.", b"x" * 240])
        rs = []
        for k in range(r.randint(0, 4)):
            v = [r.getrandbits(31) for _ in range(6)]; rs += v
            s.append("make %s %s" % (r.choice("dfl"), hx(pre + "".join(CY[x % 62] for x in v).encode())))
        s.append("rand " + " ".join(map(str, rs))) if rs else None
        s += ["mkd 1 " + hx(b"d/" + pre + b"XXXXXX"), "mkd 1 " + hx(b"d/" + pre + b"abcdef")]
        s += ["mkd 1 " + hx(b"missing/XXXXXX"), "mkd 1 " + hx(b"d/" + b"n" * 251 + b"XXXXXX"), "perm 500", "mkd 1 " + hx(b"d/XXXXXX"), "perm 700", "mkd 1 " + hx(b"d/XXXXXX")]
        ses.append(s)
    c.conform("temp-dirs", exe, ses, "TempTrace", unpriv=True)
    c.conform("temp-dirs-release-build", exp, ses[::4] if q else ses, "TempTrace", unpriv=True)
