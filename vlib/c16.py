from .core import *
def queries(r, names, keys, cnt, full=True):
    s = ["count"]
    for n in names:
        s.append("sect " + n)
        for k in keys: s.append("val " + k)
        s.append("valat 0 " + r.choice(keys)); s.append("valat %d %s" % (r.randint(0, cnt), r.choice(keys)))
        for _ in range(r.randint(1, cnt + 1)):
            s.append("next " + n)
            if r.random() < .4: s.append("val " + r.choice(keys))
            if r.random() < .3: s.append("valat %d %s" % (r.randint(0, 3), r.choice(keys)))
    if full: s += ["full"] + ["val " + k for k in keys] + ["valat %d %s" % (r.randint(0, cnt), k) for k in keys]
    return s
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("IniMC", dict(MaxLines=4 if q else 5), inv=["OneOK", "AllOK"], gen=True)
    exe = c.build("ini")
    if len(g) > (1500 if q else 10000): g = r.sample(g, 1500 if q else 10000)
    names = ["61", "6161", "62"]; keys = ["61", "6161", "-"]
    ses = [["S " + " ".join(hx(bytes(l)) for l in f)] + queries(r, names, keys, len(f)) for f in g]
    c.conform("tlc-files", exe, ses, "IniTrace")
    ses = []
    nm = [b"a", b"aa", b"ab", b"b", b"x y", b"", b"\xff\xfe", b"section", b"sectio", b"a=b"]
    ks = [b"a", b"aa", b"ab", b"key", b"ke", b"", b"\xff", b"[a", b"k="]
    for i in range(250 if q else 4000):
        ls = []
        for _ in range(r.choice([0, 1, 3, 8, 20, 60])):
            x = r.random()
            if x < .3: ls.append(b"[" + r.choice(nm) + b"]" + r.choice([b"", b"", b" ", b"\t ", b"  "]))
            elif x < .75: ls.append(r.choice(ks) + b"=" + r.choice([b"", b"v", b"=", b"a=b", b"[x]", b" spaced ", b"\0\xff", b"long" * 20]))
            elif x < .8: ls.append(r.choice([b"[", b"[unclosed", b"]", b"[a", b"a]", b" [a]", b"[a]x", b"[a]]"]))
            elif x < .9: ls.append(b"")
            else: ls.append(r.choice(ks) + r.choice([b"", b" = x", b"x"]))
        a = [hx(x) for x in r.sample(nm, 4)]; b = [hx(x) for x in r.sample(ks, 4)]
        ses.append(["S " + " ".join(map(hx, ls))] + queries(r, a, b, r.randint(1, 6)))
    # long names, keys and values, ending in bytes that might be stripped; names and keys that are prefixes of others
    for n in [32, 33] + SWEEP + [65535, 65536, 65537]:
        t = lambda k, al=b"abc": bytes(r.choice(al) for _ in range(k))
        N, K = t(n), t(n); fill = [t(r.choice([0, 3])) + b"=" + t(3) for _ in range(3)]; e = lambda: r.choice([b"", b" ", b"\t", b"\r", b"\"", b"  ", b"\0", b"=", b";"])
        if n < 9000:
            ls = [K + b"=top" + e(), b"[" + N[:-1] + b"]", K + b"=one", b"[" + N + b"x]", b"[" + N + b"]" + r.choice([b"", b" "]), K[:-1] + b"=short" + e(), K + b"x=longer", K + b"=" + t(r.choice([0, 1, 5, n])) + e(), K[:-1] + b"==" + t(n) + e(), b"k=" + t(n - 1) + e(), b"k2=" + t(n) + b" ", b"[" + N[1:] + b"]", b"k=last" + e()]
            ses.append(["S " + " ".join(map(hx, ls))] + [x for nm in (N, N[:-1], N + b"x", N + b"y", N[1:]) for x in ["sect " + hx(nm)] + ["val " + hx(k) for k in (K, K[:-1], K + b"x", b"k", b"k2", K + b"z")]] + ["full"] + ["val " + hx(k) for k in (K, K[:-1], b"k")] + ["count"])
        else:
            ls = [b"[" + N + b"]", b"k=" + K + e(), b"[x]", K + b"=" + e()]
            ses.append(["S " + " ".join(map(hx, ls)), "sect " + hx(N), "val 6b", "val " + hx(K), "sect 78", "val " + hx(K), "val " + hx(K[:-1]), "sect " + hx(N[:-1]), "count"])
    for n in [255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4097, 8193] + ([40000] if q else [40000, 65537, 70001]):      # many lines and sections
        ls = []; g = r.choice([1, 3, 40, n])
        for i in range(n): ls.append(b"[s%d]" % (i // g) if i % g == 0 and r.random() < .98 else r.choice([b"a=%d" % i, b"b=%d " % i, b"c", b"", b"[a=", b"key%d=v" % i]))
        ls += [b"[zz]", b"z=1", b"key=z"]
        s = ["S " + " ".join(map(hx, ls)), "count", "sect 7a7a", "val 7a", "val 6b6579", "next " + hx(b"zz"), "full", "val 7a", "valat %d 61" % (n - 5), "valat %d 7a" % n, "valat %d 7a" % (n + 1), "valat %d 7a" % (n + 2)]
        for i in [0, 1, n // g - 1, n // g // 2, r.randrange(n // g)]: s += ["sect " + hx(b"s%d" % i), "val 61", "val 62", "valat %d 61" % r.randrange(g + 1), "next " + hx(b"s%d" % (i + 1)), "val 61"]
        for i in r.sample(range(n), 8): s += ["full", "val " + hx(b"key%d" % i), "valat %d 61" % i, "valat %d 62" % i]
        ses.append(s)
    c.conform("random", exe, ses, "IniTrace")
