from .core import *
WR = ["pipe", "pipe2", "posix_spawnp", "posix_spawn", "posix_spawn_file_actions_init", "posix_spawn_file_actions_addclose", "posix_spawn_file_actions_adddup2", "waitpid"]
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("ProcMC", dict(Kids={1, 2}, MaxFd=15, Bases="{{}, {3, 4, 7}}", Len0=4 if q else 5, Cloexec=True), inv=["CallerExact", "ChildExact", "EofVisible", "Emit"], view="View", gen=True)
    c.mc("ProcMC", dict(Kids={1, 2, 3}, MaxFd=18, Bases="{{3, 6}}", Len0=3 if q else 4, Cloexec=True), inv=["CallerExact", "ChildExact", "EofVisible"], view="View", name="ProcMC-three")
    exe = c.build("proc", wraps=WR); exp = c.build("proc", wraps=WR, flavour="plain")
    d = c.scratch(); child = os.path.join(d, "child")
    s = sh(["gcc", "-O1", "-w", "-o", child, os.path.join(DRV, "child.c")])
    if s.returncode: raise CheckError(s.stdout)
    os.chmod(child, 0o755)
    ARGS = [[], ["-"], [hx("a b"), hx("-x"), "-", hx(b"\xff\n'\"$")], [hx("arg%d" % i) for i in range(40)]]
    def mk(hist, base):
        s = ["S " + " ".join(base)]; run_ = set(); code = {}
        for op, k, f in hist:
            if op == "open":
                lim = -1; bad = 0
                if f in (1, 2, 3):
                    if r.random() < .5: s.append("plan 1 %d" % f)
                    else: lim = 2 * f - 2 + r.randrange(2)
                elif f == 4:
                    x = r.randrange(5)
                    if x == 0: bad = r.choice([1, 2])
                    else: s.append("plan %d %d" % [(2, 1), (3, 1), (4, r.randint(1, 9)), (5, r.randint(1, 3))][x - 1])
                s.append("open %d %d %d %s" % (k, lim, bad, " ".join(r.choice(ARGS))))
                if f == 0:
                    run_.add(k); s.append("info %d" % k)
                    for o in run_: s.append("info %d" % o) if r.random() < .3 else None
                    if r.random() < .7: s.append("def %d %d" % (k, r.choice([0, 1, 2, 77, 128, 255])))
                    if r.random() < .6: s.append("say %d %s %s" % (k, r.choice("oe"), r.choice(["x", "hello", "y" * 500])))
            elif op == "eof": s.append("eofin %d" % k)
            elif op == "exit": s.append("exit %d %d" % (k, r.choice([0, 1, 3, 127, 200, 255])))
            else: s.append("close %d %d 0" % (k, r.choice([0, 0, 0, 1, 3]))); run_.discard(k)
        for k in sorted(run_, key=lambda _: r.random()): s.append("close %d %d 0" % (k, r.choice([0, 0, 2])))
        return s
    # drop a child's exit after its end-of-file (it has exited by itself)
    ses = []
    for h in r.sample(g, min(len(g), 250 if q else 6000)):
        o, eof = [], set()
        for op, k, f in h:
            if op == "eof": eof.add(k)
            if op == "close": eof.discard(k)
            if op == "exit" and k in eof: continue
            o.append((op, k, f))
        ses.append(mk(o, r.choice([[], [], ["3", "4c", "7"], ["3c", "5"], ["4", "6", "8c", "10"]])))
    for _ in range(25 if q else 600):      # longer histories with more children
        h = []; up = {}
        for _ in range(r.randint(6, 25)):
            k = r.randrange(1, 6)
            if k not in up: f = r.choice([0, 0, 0, 0, 1, 2, 3, 4]); h.append(("open", k, f)); up.update({k: "run"} if f == 0 else {})
            elif up[k] == "run" and r.random() < .5: x = r.choice(["eof", "exit"]); up[k] = x; h.append((x, k, 0))
            else: h.append(("close", k, 0)); del up[k]
        ses.append(mk(h, r.choice([[], ["3", "4c", "7"], ["%d%s" % (i, r.choice(["", "c"])) for i in range(3, 20, 2)]])))
    for fn, m in ((1, 3), (2, 1), (3, 1), (4, 9), (5, 3)):     # every single step fails, alone and with another child running
        for i in range(1, m + 1):
            ses.append(["S", "plan %d %d" % (fn, i), "open 1 -1 0", "open 1 -1 0", "info 1", "close 1 0 0"])
            ses.append(["S 3 4c", "open 2 -1 0", "plan %d %d" % (fn, i), "open 1 -1 0", "info 2", "say 2 o hi", "eofin 2", "close 2 0 0"])
    for lim in range(0, 9): ses.append(["S", "open 1 %d 0" % lim, "open 2 -1 0", "info 2", "close 2 0 0", "close 1 0 0"])
    for bad in (1, 2): ses.append(["S", "open 1 -1 %d" % bad, "open 3 -1 0", "open 1 -1 %d" % bad, "info 3", "close 3 0 0"])
    for e in (1, 2, 5): ses.append(["S", "open 1 -1 0", "def 1 9", "close 1 %d 0" % e])
    for ms in (20, 60): ses.append(["S", "open 1 -1 0", "def 1 42", "slow 1 %d" % (ms * 3), "close 1 0 %d" % max(5, ms // 4)])
    # a child which is stopped for a while is waited for to its end
    for ms in (10, 50): ses.append(["S", "open 1 -1 0", "def 1 42", "close 1 0 0 %d" % ms, "open 2 -1 0", "open 3 -1 0", "def 3 7", "close 3 %d 0 %d" % (ms % 3, ms), "say 2 o still", "eofin 2", "close 2 0 0 %d" % ms])
    # many arguments, long arguments, much text
    for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025] + ([] if q else [2047, 4096, 5000]):
        ses.append(["S", "open 1 -1 0 %s" % " ".join(hx("%x" % i) for i in range(n)), "info 1", "close 1 0 0"])
    for n in [63, 64, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 30000]:
        ses.append(["S", "open 1 -1 0 %s - %s" % (hx(bytes(r.randrange(1, 256) for _ in range(n))), hx("end")), "info 1", "say 1 o %s" % ("z" * n), "say 1 e %s" % ("y" * (n - 1)), "close 1 0 0"])
    for code in range(256): ses.append(["S", "open 1 -1 0", "exit 1 %d" % code, "close 1 0 0"]) if code % (8 if q else 1) in (0, 7) else None
    c.conform("processes", exe, ses, "ProcTrace", unpriv=True, env=dict(CHILD=child), timeout=300)
    c.conform("processes-release-build", exp, ses[::5] if q else ses, "ProcTrace", unpriv=True, env=dict(CHILD=child), timeout=300)
