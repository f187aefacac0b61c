from .core import *
M = 2**64
EDGE = sorted({x % M for k in range(0, 65) for d in (-1, 0, 1) for x in (2**k + d, -(2**k) + d)} | {x % M for k in range(20) for d in (-1, 0, 1) for x in (10**k + d, -(10**k) + d)})
def digits(v, b):
    n = 1
    while v >= b: v //= b; n += 1
    return n
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("NtsMC", dict(Half=32 if q else 64, Bases={2, 4, 10, 16, 36, 62}, MaxLens={0, 1, 3, 6, 9}), inv=["Exact", "Inverse"], gen=True)
    exe = c.build("num"); exu = c.build("num", flavour="plain")
    ops = []
    H = 32 if q else 64
    for v, b, ml, pad, sg in g:       # model word -> 64-bit word (small negative values stay negative)
        w = v if v < H else (M - 2 * H + v) % M
        if ml and digits(min(w, M - w) if sg and w >> 63 else w, b) > ml: w = min(w, M - w) if sg else v
        if ml and digits(min(w, M - w) if sg and w >> 63 else w, b) > ml: continue
        ops.append("nts %d %d %d %d" % (w, b, ml, pad + 2 * sg + 4 * r.randrange(2)))
    for v in EDGE:
        ops += ["%s %d" % (f, v) for f in ("itoa", "utoa", "i32", "u32", "i64", "u64")]
        s = v if v < 2**63 else v - M; ops.append("pl " + hx(str(s).encode()))
        s32 = v % 2**32; s32 = s32 if s32 < 2**31 else s32 - 2**32; ops.append("pi " + hx(str(s32).encode()))
    for b in list(range(1, 63)) + [63, 64, 65, 100, 255]:
        for k in range(14 if q else 60):
            v = r.choice([r.choice(EDGE), r.getrandbits(64), r.getrandbits(32), r.randrange(b + 2)]); fl = r.randrange(8)
            d = digits(M - v if fl & 2 and v >> 63 else v, b) if b > 1 else 64
            ml = 0 if k % 2 else d + r.choice([0, 0, 1, 2, 7, 70])
            ops.append("nts %d %d %d %d" % (v, b, ml, fl))
    for b in range(2, 63, 2):         # every digit of every base, in both cases, alone and within a number
        for d in range(b):
            ops += ["nts %d %d 0 %d" % (d, b, f) for f in (0, 4)]
            if not q or d % 3 == b % 3 or d in (9, 10, 35, 36): ops += ["nts %d %d 0 %d" % ((1 * b + d) * b + r.randrange(b), b, r.choice([0, 4])), "nts %d %d 12 %d" % ((r.randrange(b) * b + d) * b, b, r.choice([1, 5]))]
    for k in range(500 if q else 10000):
        v = r.getrandbits(r.choice([4, 16, 31, 32, 33, 63, 64]))
        ops += ["%s %d" % (f, v) for f in r.sample(("itoa", "utoa", "i32", "u32", "i64", "u64"), 2)]
        s = v if v < 2**63 else v - M; ops.append("pl " + hx((b"0" * r.randrange(2) if 0 <= s < 10**15 else b"") + str(s).encode()))
        s32 = v % 2**32; s32 = s32 if s32 < 2**31 else s32 - 2**32; ops.append("pi " + hx(str(s32).encode()))
    for n in SWEEP + ([] if q else WIDE):      # long padding, long rows of zeros
        for b, f in ((2, 1), (10, 3), (62, 1), (16, 5)): v = r.choice(EDGE); ops.append("nts %d %d %d %d" % (v, b, max(n, 64), f))
        ops += ["pi " + hx(b"0" * n + str(r.getrandbits(31)).encode()), "pl " + hx(b"0" * n + str(r.getrandbits(63)).encode()), "pl " + hx(b"-" + b"0" * n + b"9223372036854775808"), "pi " + hx(b"0" * n), "pl " + hx(b"0" * n + b"9223372036854775807")]
    ops += ["pi -", "pl -", "pi 30", "pl 30", "pi 2d30", "nullb 5"]
    ses = [["S"] + ops[i:i + 60] for i in range(0, len(ops), 60)]
    c.conform("conversions", exe, ses, "NumTrace")
    c.conform("conversions-release-build", exu, ses[::3] if q else ses, "NumTrace")
