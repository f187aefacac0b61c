from .core import *
U = [0, 1, 9, 10, 255, 256, 4095, 4096, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64 - 2, 10**9, 10**18, 10**19, 2**64 - 10**9, 99999999999, 0xdeadbeef, 0xabcdef0123456789]
def types(f):
    """argument types the conversions take, in order (stops at one that is not supported)"""
    o = []; i = 0
    while i < len(f):
        if f[i:i+1] != b"%": i += 1; continue
        i += 1
        while f[i:i+1] == b".":
            j = i + 1
            while f[j:j+1].isdigit(): j += 1
            if j == i + 1: return o
            i = j
        c = f[i:i+1]
        if c == b"%": i += 1; continue
        if c in (b"l", b"z"):
            if f[i:i+2] == b"ll": i += 1
            i += 1
            if f[i:i+1] not in (b"d", b"u"): return o
            o.append("i")
        elif c == b"s": o.append("s")
        elif c in (b"c", b"d", b"u", b"x", b"X", b"p"): o.append("i")
        else: return o
        i += 1
    return o
def call(r, kind, n, f, strs=None, nulls=0):
    a = []
    for t in types(f)[:10]:
        if t == "s": a.append("n" if r.random() < nulls else "s:" + hx(strs if strs is not None else bytes(r.choice(b"ab%\xff\n") for _ in range(r.choice([0, 1, 3, 10])))))
        else: a.append("i:%d" % (r.choice(U) if r.random() < .7 else r.getrandbits(r.choice([8, 16, 32, 33, 48, 64]))))
    if len(types(f)) > 10: return None
    while len(a) < 10: a.append("i:%d" % r.choice(U))
    return "f %s %d %s %s" % (kind, n, hx(f), " ".join(a))
CONV = [b"%d", b"%u", b"%x", b"%X", b"%ld", b"%lu", b"%lld", b"%llu", b"%zd", b"%zu", b"%p", b"%s", b"%c", b"%%"]
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("FormatMC", dict(MaxLen=4 if q else 5, Alph={37, 100, 120, 46, 50, 108}, Sizes={0, 1, 2, 3, 4, 6, 13}), inv=["Conforms", "InBounds"], gen=True)
    exe = c.build("fmt")
    ops = []
    for f in g:
        f = bytes(f)
        for n in r.sample([-1, 0, 1, 2, 3, 5, 40, 64], 2 if q else 4): ops.append(call(r, "sn", n, f))
    # every conversion with every precision and extreme values
    for cv in CONV:
        for p in [None] + list(range(1, 31)):
            f = cv if p is None else b"%." + str(p).encode() + cv[1:]
            for n in ((-1, 80, r.randint(0, 40)) if q else (-1, 0, 1, 5, 20, 33, 80)): ops.append(call(r, r.choice(["sn"] * 6 + ["f", "p", "sp"]), n, b"<" + f + b">"))
    for cv in CONV:
        if cv in (b"%s", b"%%"): continue
        for u in U + [2**64 - x for x in U[1:]]: ops.append("f sn 40 %s i:%d" % (hx(cv + b"|"), u))
    for f in (b"%", b"%.", b"%.3", b"%l", b"%ll", b"%z", b"%lx", b"%zx", b"%lls", b"%i", b"%5d", b"%-d", b"%+d", b"%f", b"%n", b"%.31d", b"%.99d", b"%.1000000000000d", b"%.0d", b"%.4s", b"%.4c", b"%.4%", b"a%", b"ok%d%", b"%s%q", b"%hd", b"%*d", b"%.*d", b"%.2.3d", b"%.30lld", b"%.30x", b"%.29ld"):
        for k in ("sn", "f", "p", "sp"):
            for n in (-1, 0, 1, 4, 100): ops.append(call(r, k, n, f)); ops.append(call(r, k, n, b"%d " + f + b" x"))
    for i in range(1500 if q else 25000):
        f = b""
        for _ in range(r.randint(0, 8)):
            x = r.random()
            if x < .5: cv = r.choice(CONV); f += cv if r.random() < .7 else b"%." + str(r.choice([1, 2, 3, 8, 10, 20, 30, r.randint(1, 30)])).encode() + cv[1:]
            elif x < .97: f += bytes(r.choice(b"ab .:\xfe\n0") for _ in range(r.randint(0, 5)))
            else: f += bytes(r.choice(b"%.0123456789lzsdqx") for _ in range(r.randint(1, 4)))
        ops.append(call(r, r.choice(["sn"] * 5 + ["f", "p", "sp"]), r.choice([-1, 0, 1, 2, 3, r.randint(0, 60), r.randint(0, 60), 300]), f, nulls=.05))
    ops += ["f %s %d %s n" % (k, n, hx(b"a%sb")) for k in ("sn", "f", "p", "sp") for n in (-1, 0, 5, 50)]
    for L in (990, 998, 999, 1000, 1001, 4090, 4093, 4094, 4095, 4096, 4097, 5000):
        for k in ("f", "p", "sp"): ops.append("f %s 0 %s s:%s i:77" % (k, hx(b"%s%d"), hx(b"xyz" * (L // 3) + b"w" * (L % 3)))); ops.append("f %s 0 %s" % (k, hx(b"lit" * (L // 3) + b"w" * (L % 3))) if L < 1200 else None)
        ops.append("f sn %d %s s:%s i:77" % (L, hx(b"%s%d"), hx(b"x" * L)))
    # lengths of destination, text and literal parts around powers of two
    for L in SWEEP if not q else [x for x in SWEEP if x < 5000] + [8192, 32768]:
        t = hx(r.choice([b"x", b"ab", b"%\xff\n"])[:1] * (L - 3) + b"uvw"); lit = hx(b"z" * (L - 2) + b"yx")
        for n in (-1, L - 1, L, L + 1, L + 2):
            ops.append("f sn %d %s s:%s" % (n, hx(b"%s"), t))
            if n > 0: ops += ["f sn %d %s i:7" % (n, lit), "f sn %d %s s:%s i:1234567890" % (n + 7, hx(b"%s%d"), t)]
        ops.append("f sn %d %s i:%d s:%s" % (L + 40, hx(b"<%llx%lld%s>")[:0] + hx(b"<%lld%s>"), r.choice(U), t))
    for n in list(range(1, 11)): ops.append("f sn 400 %s %s" % (hx(b" ".join(r.choice(CONV[:11]) for _ in range(n))), " ".join("i:%d" % r.choice(U) for _ in range(10))))
    ops = [o for o in ops if o]
    c.conform("formats", exe, [["S"] + ops[i:i + 50] for i in range(0, len(ops), 50)], "FormatTrace")
    c.assumptions.append("precision is specified for integer conversions with values 1..30; other uses are only checked for memory safety")
