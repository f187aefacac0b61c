from .core import *
W = ["nanosleep", "clock_nanosleep", "usleep", "sleep", "gettimeofday", "clock_gettime", "time"]
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("SleepMC", dict(MaxDur=5, SEC=3, SUB=2, MaxInt=2), inv=["FullSleep", "NeverLonger", "Emit"], spec="Spec", gen=True)
    c.mc("SleepMC", dict(MaxDur=9 if q else 14, SEC=4, SUB=2, MaxInt=3 if q else 4), inv=["FullSleep", "NeverLonger"], props=["Ends"], spec="Spec", name="SleepMC-deep")
    c.mc("TimeMC", dict(Years={598, 1599, 1896, 1970, 1999, 2095, 2396} if q else set(range(1, 9990, 45)), Count=3000 if q else 16500, Base=4, Max=4), inv=["Calendar", "Arith"])
    exe = c.build("time", wraps=W); exp = c.build("time", wraps=W, flavour="plain")
    ses = []
    DUR = [0, 1, 2, 3, 7, 10, 99, 500, 999, 1000, 1001, 1500, 1999, 2000, 59999, 60000, 999999, 1000000, 1000001, 1999999, 2000000, 2147483, 2147484, 4294967, 4294968, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 5 * 10**9 + 1, 10**12 + 999, 2**63 - 1, 2**63 // 1000, 10**15 + 123456]
    def dur(): return r.choice(DUR) if r.random() < .6 else r.getrandbits(r.randrange(1, 63))
    ERR = [22, 14, 1, 95]
    # the interruption patterns of the model, scaled to real durations
    for x in g:
        s = ["S"]; d, p = x["d"], x["p"]; rest = d * 2; pl = []
        for a in p:
            if a < 0: pl.append(-100 - r.choice(ERR))
            else: pl.append(r.choice([-2, 0]) if a == 0 else 1000 if a >= rest and rest else r.choice([-3, 1000 * a // rest]) if a < rest else 0); rest -= a
        for unit, per in (("msleep", 1000), ("microsleep", 10**6)):
            n = d // 3 * per + d % 3 * (per // 3) if d >= 0 else d
            s += ["plan " + " ".join(map(str, pl)), "%s %d" % (unit, n), "plan " + " ".join(map(str, pl)), "%s %d" % (unit, dur())]
        ses.append(s)
    for i in range(60 if q else 800):
        s = ["S"]
        for j in range(12):
            k = r.choice([0, 0, 1, 2, 3, 8, 40]); pl = [r.choice([-2, -3, 0, 1, 500, 999, 1000, r.randrange(1001)]) for _ in range(k)]
            if r.random() < .2: pl.append(-100 - r.choice(ERR))
            s += ["plan " + " ".join(map(str, pl)), "%s %d" % (r.choice(["msleep", "microsleep"]), dur() if r.random() < .9 else -r.choice([1, 999, 1000, 10**6, 2**40]))]
        ses.append(s)
    for d in DUR: ses.append(["S"] + ["%s %d" % (u, d) for u in ("msleep", "microsleep")] + sum([["plan -2 -3 -2 -3", "%s %d" % (u, d), "plan 1000 1000", "%s %d" % (u, d)] for u in ("msleep", "microsleep")], []))
    ses.append(["S", "plan " + " ".join(["1"] * 2500), "msleep 100000", "plan " + " ".join(["0"] * 2500), "microsleep 77"])
    # differences
    SEC = [0, 1, 2, 999, 1000, 86399, 2147483, 2147484, 10**6, 1000000000 - 1, 10**9, 500000000]
    for i in range(60 if q else 800):
        s = ["S"]
        for j in range(25):
            a = r.choice(SEC + [r.getrandbits(29)]); b = r.choice([a, a + 1, max(0, a - 1), r.choice(SEC), r.getrandbits(r.randrange(1, 29))]); F = [0, 1, 499, 999, 1000, 1001, 500000, 999000, 999999]
            au, bu = r.choice(F + [r.randrange(10**6)]), r.choice(F + [r.randrange(10**6)]); NS = [0, 1, 999999999, 500000000, 10**6, r.randrange(10**9)]
            s += ["now %d %d" % (a, au * 1000 + r.choice([0, 999])), "mspassed %d %d" % (b, bu), "tdiff %d %d %d %d" % (a, r.choice(NS), b, r.choice(NS))]
        ses.append(s)
    ses.append(["S"] + [x for a in SEC for b in SEC for x in ("now %d 0" % a, "mspassed %d %d" % (b, 0), "tdiff %d 0 %d 999999999" % (a, b), "tdiff %d 999999999 %d 0" % (a, b), "mspassed %d 999999" % b)])
    # instants behind 2038 and 2106 and before 1970, and differences of centuries
    for i in range(6 if q else 60):
        s = ["S"]
        for j in range(25):
            ba = r.choice([2**31 - 5, 2**31, 2**32 - 3, 2**32, 2**33 + 1, 2**34, -2**31, -2**31 - 7, -2**32, -10**9, r.randrange(-10**10, 10**10)]); a, b = r.choice([0, 1, 9, r.getrandbits(28)]), r.choice([0, 1, 10, r.getrandbits(28)]); us = lambda: r.choice([0, 1, 999, 1000, 999999, r.randrange(10**6)])
            s += ["base %d %d" % (ba, ba), "now %d %d" % (a, us() * 1000), "mspassed %d %d" % (b, us()), "tdiff %d %d %d %d" % (a, us() * 1000, b, us() * 1000 + 999)]
            k = r.choice([2**31 - 1, 2**31, 2**32, 2**32 + 2**31, 4294968, 5 * 10**9, r.getrandbits(r.randrange(1, 33))]); k *= 1 if a > b else -1 if a < b else 0
            s += ["base %d %d" % (k if k > 0 else 0, -k if k < 0 else 0), "now %d %d" % (a, us() * 1000), "mspassed %d %d" % (b, us()), "tdiff %d %d %d %d" % (a, us() * 1000, b, us() * 1000 + 999)]
        ses.append(s)
    # clocks and texts, in several time zones, across calendar boundaries
    TZS = ["UTC0", "XXX5:30", "YYY-12:45", "AAA11", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "ZZZ-0:00:01"]
    import calendar
    def at(y, m, d, h=0, mi=0, se=0): return calendar.timegm((y, m, d, h, mi, se))
    T = [0, 1, 59, 60, 3599, 3600, 86399, 86400, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 10**9 - 1, 10**9, 1234567890] + [at(y, m, d, 23, 59, 59) + k for (y, m, d) in [(1999, 12, 31), (2000, 2, 28), (2000, 2, 29), (2001, 2, 28), (2004, 2, 29), (2016, 12, 31), (2024, 2, 29), (2026, 3, 29), (2026, 10, 25), (2038, 1, 18), (2100, 2, 28), (2399, 12, 31), (2400, 2, 29), (2999, 12, 31), (1969, 12, 31), (1900, 2, 28), (1600, 12, 31), (999, 12, 31), (1999, 9, 9), (2009, 10, 9)] for k in (-86399, -43200, 0, 1)]
    for tz in TZS:
        s = ["S " + tz]
        for t in T + [r.randrange(-4 * 10**9, 4 * 10**10) for _ in range(30 if q else 1500)] + [at(r.randrange(1900, 2300), r.randrange(1, 13), r.randrange(1, 28), r.randrange(24), r.randrange(60), r.randrange(60)) for _ in range(30 if q else 1500)]:
            s += ["now %d %d" % (t, r.choice([0, 999999999, 999999000, 1000, 999, r.randrange(10**9)])), "text %d" % r.choice([20, 20, 21, 32, 100]), "stamp"] + (["utime"] if t > -2 * 10**9 else [])
        for n in range(0, 24): s.append("text %d" % n)
        ses.append(s)
    c.conform("time", exe, ses, "TimeTrace")
    c.conform("time-release-build", exp, ses[::2] if q else ses, "TimeTrace")
    # with the real clock and real signals
    exr = c.build("time", flavour="plain", name="time-real")
    c.conform("real-sleep", exr, [["S"] + ["real %s %d %d" % (u, r.choice([1, 3, 17, 40, 90]) * (1 if u == "m" else 1000) + (r.randrange(999) if u == "u" else 0), r.choice([500, 1500, 5000, 20000])) for _ in range(6 if q else 60) for u in "mu"] for _ in range(2)], "TimeTrace")
