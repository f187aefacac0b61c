from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    c.mc("GuardMC", dict(PS=4, MaxN=17), inv=["Usable", "Trap", "FreesAll"], name="GuardMC-4")
    c.mc("GuardMC", dict(PS=16, MaxN=70), inv=["Usable", "Trap", "FreesAll"], name="GuardMC-16")
    exe = c.build("guard", wraps=["mmap", "munmap", "mprotect"], flavour="plain")
    P = 4096
    ses = []
    edge = sorted(set([0, 1, 2, 3, 7, 8, 15, 16, 100, P // 2] + [k * P + d for k in (1, 2, 3, 5, 16) for d in (-17, -16, -8, -2, -1, 0, 1, 2, 8, 16)]))
    ses.append(["S"] + [x for i, n in enumerate(edge) for x in ("alloc %d %d" % (i, n), "check", "free %d" % i)])
    ses.append(["S"] + ["alloc %d %d" % (i, n) for i, n in enumerate(edge)] + ["check"] + [x for i in r.sample(range(len(edge)), len(edge)) for x in ("free %d" % i, "check")])
    ses.append(["S"] + [x for i, n in enumerate([1, 100, P, 3 * P + 5]) for x in ("alloc %d %d" % (i, n), "fork")] + ["free 1", "fork", "check", "free 0", "free 2", "free 3", "check"])
    # sizes around and beyond 31 and 32 bits (bytes and pages), touched at both ends and once per MB
    for n in [2**20 - 1, 2**24 + 7, 2**31 - P, 2**31 - 1, 2**31, 2**31 + 5, 2**32 - 2 * P, 2**32 - P + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 3 * P + 9] + ([2**33 + 77, 2**34 - 1, 3 * 2**32] if c.thorough else []):
        ses.append(["S", "alloc 1 77", "alloc 2 %d" % n, "check", "free 2", "check", "alloc 3 %d" % n, "free 1", "check", "free 3", "check"])
    if c.thorough: ses.append(["S"] + [x for n in range(0, 3 * P + 2) for x in ("alloc %d %d" % (n % 256, n), "free %d" % (n % 256))])
    for _ in range(30 if q else 300):
        s = ["S"]
        for _ in range(r.randint(5, 50)):
            x = r.random(); i = r.randrange(12)
            if x < .5: s.append("alloc %d %d%s" % (i, r.choice([r.randrange(0, 3 * P), r.randrange(0, 40), P * r.randint(0, 6), P * r.randint(1, 4) + r.randint(-3, 3)]), r.choice([""] * 8 + [" mmap", " mprotect"])))
            elif x < .85: s.append("free %d" % i)
            elif x < .97: s.append("check")
            else: s.append("fork")
        ses.append(s + ["check"] + ["free %d" % i for i in range(12)] + ["check"])
    c.conform("guarded", exe, ses, "GuardTrace")
