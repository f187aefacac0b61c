from .core import *
from .bigs import big, mlist
SB = [1, 2, 3, 4, 6, 8, 12, 24, 40, 100, 1000, 4097]
TG = [1, 2, 3, 4, 8, 12, 40, 300]
def head(r, kind=None, isz=None):
    kind = kind or r.choice(["sb", "tg"])
    isz = isz or r.choice(SB if kind == "sb" else TG)
    kd = 16 if isz == 1 else 64
    return kind, isz, kd, "S %s %d %d %d %d%s" % (kind, isz, kd, r.choice([0, 0, 1, 2, 3]), r.randrange(4), " %d" % r.choice([0, 1, 3, 16]) if kind == "sb" else "")
def run(c):
    q = not c.thorough; r = c.rng
    gen = c.mc("SortedMC", dict(MaxLen=6 if q else 8, Keys={2, 4, 6}), inv=["IsSorted", "Bounds", "InsOK", "SrchOK"], props=["Progress", "Shrinks"], view="View", gen=True)
    exe = c.build("sorted")
    ses = []
    for i, h in enumerate(gen):
        last = h[-1].split()[0]
        kinds = ["sb"] if last == "srch" else ["sb", "tg"]
        kind = kinds[i % len(kinds)]
        isz = (SB if kind == "sb" else TG)[(i // 2) % (len(SB) if kind == "sb" else len(TG))]
        kd = 16 if isz == 1 else 64
        s = ["S %s %d %d %d %d%s" % (kind, isz, kd, 0, i % 4, " %d" % [0, 1, 3][i % 3] if kind == "sb" else "")]
        for j, op in enumerate(h):
            o, k = op.split()
            if o == "del": s.append(op); continue
            v = int(k) * kd + (j + 1) % kd
            if o == "srch": v = int(k) * kd
            s.append("%s %d%s" % (o, v, " r" if kind == "sb" and (i + j) % 2 else ""))
        ses.append(s)
    c.conform("tlc-transitions", exe, ses, "SortedTrace")
    ses = []
    # every position of lists of 0..40 distinct keys; search every key
    for n in list(range(0, 34 if q else 70)) + [63, 64, 65, 66]:
        kind, isz = ("sb", r.choice([4, 8, 24])) if n % 3 else ("tg", r.choice([4, 8, 12, 40]))
        s = ["S %s %d 2 %d %d%s" % (kind, isz, r.choice([0, 0]), r.randrange(4), " 0" if kind == "sb" else "")]
        if n: s.append("fill 4 %d 4" % n)
        for k in range(1, 2 * n + 4):
            if kind == "sb": s.append("srch %d%s" % (2 * k, " r" if k % 2 else ""))
            s += ["full 0", "sins %d%s" % (2 * k + 1, " r" if k % 3 == 0 and kind == "sb" else "")]
            s.append("DELV %d" % (2 * k + 1))
        # DELV: delete again by position = number of smaller items (distinct keys except ties)
        out = []
        for ln in s:
            if ln.startswith("DELV"):
                v = int(ln.split()[1]); k = v // 2
                # list holds 4,8,..4n (keys 2,4,..2n); v has key k: position is known unless equal key present
                p = sum(1 for i in range(n) if (4 + 4 * i) // 2 < k)
                if k % 2 == 0 and 2 <= k <= 2 * n:   # a tie: rebuild instead
                    out += [s[0]] + (["fill 4 %d 4" % n] if n else [])
                else: out += ["full 1", "del %d" % p]
            else: out.append(ln)
        # split at S lines
        cur = []
        for ln in out:
            if ln.startswith("S ") and cur: ses.append(cur); cur = []
            cur.append(ln)
        ses.append(cur)
    for i in range(150 if q else 1500):
        kind, isz, kd, h = head(r)
        s = [h]; used = set(); keys = r.choice([2, 5, 15]); m = (keys + 1) * kd; cnt = 0
        for _ in range(r.randint(5, 70)):
            x = r.random()
            if x < .6 and len(used) < m - 2:
                while True:
                    v = r.randrange(m)
                    if v not in used: break
                used.add(v); cnt += 1
                s.append("sins %d%s" % (v, " r" if kind == "sb" and r.random() < .5 else ""))
            elif x < .9 and kind == "sb": s.append("srch %d%s" % (r.randrange(m), " r" if r.random() < .5 else ""))
            elif x < .95 and cnt: s.append("del %d" % r.randrange(cnt)); cnt -= 1
        ses.append(s)
    for i in range(100 if q else 1000):   # sort unsorted lists
        kind, isz, kd, h = head(r)
        vs = r.sample(range(16 * kd if isz > 1 else 256), r.randint(0, 60))
        ses.append([h] + ["add %d" % v for v in vs] + ["sort"] + (["srch %d" % r.randrange(16 * kd) for _ in range(10)] if kind == "sb" else []))
    for kind in ("sb", "tg"):   # large lists: more than 65536 items
        s = ["S %s 4 1 0 0%s" % (kind, " 0" if kind == "sb" else ""), "full 0", "fill 0 70000 10"]
        used = set()
        for _ in range(12 if q else 60):
            while True:
                v = r.choice([r.randrange(700000), 700000 + r.randrange(1000), r.randrange(5), 655360 + r.randrange(-20, 20)])
                if v % 10 and v not in used: break
            used.add(v)
            s.append("sins %d" % v)
            if kind == "sb": s += ["srch %d" % v, "srch %d r" % (r.randrange(70000) * 10), "srch %d" % (r.randrange(70000) * 10 + 5)]
        ses.append(s)
    for i, n in enumerate([255, 256, 257, 1000, 4096, 32769, 65535, 65536, 65537, 70001, 131073]):   # sorting many
        kind, isz = ("sb", r.choice([3, 4, 8, 24])) if i % 2 else ("tg", r.choice([3, 4, 8, 12]))
        for kk in (kind, "tg" if kind == "sb" else "sb") if n > 65535 or not q else (kind,):
            s = ["S %s %d %d %d %d%s" % (kk, isz, r.choice([1, 1, 2, 64]), r.choice([0, 1]), r.randrange(4), " 0" if kk == "sb" else ""), "full 0", "mix %d %d %d" % (r.randrange(1000), n, r.choice([7919, 104729 % 16000 | 1, 16381])), "sort"]
            if kk == "sb": s += ["srch %d%s" % (r.randrange(n), r.choice(["", " r"])) for _ in range(6)]
            ses.append(s)
    for isz in [65535, 65536, 65537, 70001, 131073]:     # long items
        s = ["S sb %d 64 %d %d %d" % (isz, r.randrange(4), r.randrange(4), r.choice([0, 1, 3]))]
        vs = r.sample(range(16 * 64), 24)
        for v in vs[:12]: s.append("sins %d%s" % (v, r.choice(["", " r"])))
        s += ["srch %d" % v for v in vs[:14]] + ["del 3"]
        s += ["add %d" % v for v in vs[12:]] + ["sort"] + ["srch %d r" % v for v in vs]
        ses.append(s)
    big(c, [mlist(r, k, n) for k in ("sb", "tg") for n in (4400, 2200)])
    c.conform("random-and-boundary", exe, ses, "SortedTrace")
