from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("Daemon", dict(MaxFd=5 if q else 7), inv=["Detached", "Failed"], gen=True)
    exe = c.build("daemon", wraps=["fork", "vfork"]); exp = c.build("daemon", wraps=["fork", "vfork"], flavour="plain")
    ops = []
    for m, ff in g: ops += ["d %d %d 256 %s" % (ff, r.randrange(2), " ".join(str(i) for i, x in enumerate(m) if x))]
    for _ in range(40 if q else 600): ops.append("d %d %d %d %s" % (r.random() < .2, r.randrange(2), r.choice([128, 256, 256, 1024]), " ".join(str(i) for i in sorted(r.sample(range(100), r.randint(0, 30))))))
    ops += ["d 0 0 256 " + " ".join(map(str, range(100))), "d 0 1 256 0 1 2", "d 0 0 256", "d 0 1 256", "d 1 0 256 0 1 2", "d 0 1 256 63 64 65 99", "d 0 0 256 99"]
    # descriptors up to the limit, whatever it is
    for lim in (130, 200, 256, 257, 300, 512, 513, 1000, 1024, 1025, 1500, 2048, 4096, 5000, 10000, 65536, 70000) if q else [130 + 37 * k for k in range(50)] + [1 << k for k in range(8, 20)]:
        hi = sorted({lim - 1, lim - 2, lim // 2, *r.sample(range(3, lim), 4), *(x for x in (128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 65535, 65536) if x < lim)} - {120, 121, 122})
        ops += ["d 0 0 %d %s" % (lim, " ".join(map(str, [0, 1, 2] + hi))), "d 0 0 %d %d" % (lim, lim - 1), "d 0 1 %d %s" % (lim, " ".join(str(x) for x in [0, 2] + hi if not 100 <= x < 300))]
    ses = [["S"] + ops[i:i + 8] for i in range(0, len(ops), 8)]
    c.conform("daemonize", exp, ses, "DaemonTrace", unpriv=True, timeout=300)
    c.conform("daemonize-asan", exe, ses[:6] if q else ses, "DaemonTrace", unpriv=True, timeout=300)
