from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    c.mc("FileListMC", dict(MaxEnt=2, MaxMask=2, MaxDir=2 if q else 3), inv=["Sound", "Escape", "Matcher"])
    g = c.mc("FileListMC", dict(MaxEnt=2, MaxMask=2, MaxDir=1), inv=["Emit"], constraint="Scripts", gen=True, name="FileListMC-scripts")
    if not q: c.mc("FileListMC", dict(MaxEnt=3, MaxMask=3, MaxDir=2), inv=["Sound", "Matcher"], name="FileListMC-large")
    exe = c.build("flist"); exp = c.build("flist", flavour="plain")
    ses = []
    by = {}
    for x in g: by.setdefault(json.dumps(x["h"]), []).append(bytes(x["m"]))
    keys = sorted(by)
    DIRS = [b"D", b"a*b", b"x?y", b"[z]", b"b\\c", b"\\", b"*", b".hid", b"we ird\xff", b"a[!b]c", b"\\*\\", b"q]", b"l\n", b"{a,b}", b"~root", b"~", b"-d", b"$HOME"]
    DEC = [b"aXb", b"xzy", b"z", b"bc", b"b", b"anything", b"abc", b"axc", b"*b", b"a", b"\\x\\"]
    def ls(d, m, f): return "ls %s %s %d" % (d if d == "NULL" else hx(d), hx(m), f)
    for k in keys if not q else keys:
        h = json.loads(k); d = r.choice(DIRS); s = ["S", "d " + hx(d)]
        for e in DEC[:]:
            if r.random() < .3 and e != d: s += ["d " + hx(e), "f " + hx(e + b"/decoy"), "f " + hx(e + b"/a")]
        for e in h: s.append("%s %s" % ("fd"[e["k"]], hx(d + b"/" + bytes(e["n"]))))
        ms = by[k]
        for m in (r.sample(ms, min(len(ms), 5)) if q else ms):
            for f in (r.sample(range(16), 5) if q else range(16)): s.append(ls(d + r.choice([b"", b"", b"/"]), m, f))
        ses.append(s)
    # larger directories with unusual names and links
    AB = [b"a", b"b", b"ab", b".", b".", b"..", b"..x", b"*", b"?", b"[", b"]", b"\\", b" ", b"\xff", b"\n", b"~", b"-", b"A", b"0", b"z"]
    def name(): return b"".join(r.choice(AB) for _ in range(r.randint(1, 4)))
    MS = [b"*", b"?", b"??", b"a*", b"*a", b"*.x", b".*", b".", b"..", b"..*", b".?*", b"*b*", b"[ab]*", b"[!a]*", b"[^.]*", b"[a-c]*", b"*[", b"[", b"a[", b"[]]*", b"[!]]*", b"\\**", b"\\?*", b"\\\\*", b"*\\\\", b"*\\*", b"?*?", b"**", b"*?", b"[.]*", b"\\.*", b"\xff*", b"[\\]*", b"a?b*", b"~*", b"~", b"A*", b"[[:alpha:]]*"]
    MS.remove(b"[[:alpha:]]*"); MS.remove(b"[\\]*")
    for i in range(60 if q else 600):
        d = r.choice(DIRS); s = ["S", "d " + hx(d)]; names = {name() for _ in range(r.randint(0, 12))} - {b".", b".."}
        for e in DEC: 
            if e != d and r.random() < .4: s += ["d " + hx(e)] + ["f " + hx(e + b"/" + n) for n in list(names)[:2]]
        for n in sorted(names):
            k = r.random()
            s.append("f " + hx(d + b"/" + n) if k < .5 else "d " + hx(d + b"/" + n) if k < .8 else "l %s %s" % (hx(d + b"/" + n), r.choice([hx(b"nowhere"), hx(b"."), hx(b"..")])))
            if .5 < k < .8 and r.random() < .3: s.append("f " + hx(d + b"/" + n + b"/inner"))
        for j in range(12):
            m = r.choice(MS) if r.random() < .7 or not names else r.choice(sorted(names))
            if m.endswith(b"\\") and not m.endswith(b"\\\\"): m += b"*"
            f = r.randrange(16)
            dd = r.choice([d, d + b"/", b"./" + d, b"./" + d + b"/", os.path.join(b".", d), b".//" + d, d + b"//", d + b"/."])
            s.append(ls(dd, m, f))
        s += [ls("NULL", r.choice(MS), r.randrange(16)), ls(b"", r.choice(MS), r.randrange(16)), ls(b".", b"*", r.randrange(16)), ls(b"./", b"*", r.randrange(16)), ls(d, b"", 0)]
        ses.append(s)
    # names that end or begin in dots, one and two letters long, as every kind, under every combination of flags
    DN = [x + y + z for x in (b"", b".", b"..", b"...") for y in (b"", b"a", b"ab", b"/"[:0]) for z in (b"", b".", b"..", b"...")]
    DN = sorted({x for x in DN if x not in (b"", b".", b"..")})
    for d in (b"D", b".hid", b"e.", b"e..", b"a*b"):
        for kind in "dfm":
            s = ["S", "d " + hx(d)] + ["%s %s" % (kind if kind != "m" else r.choice("df"), hx(d + b"/" + n)) for n in (DN if kind != "m" else r.sample(DN, 12))]
            s += [ls(dd, m, f) for f in range(16) for dd in (d, d + b"/") for m in (r.sample([b"*", b".*", b"..*", b"*.", b"*..", b"?", b"a*", b"??", b".?"], 3) if q else [b"*", b".*", b"..*", b"*.", b"*..", b"?", b"a*", b"??", b".?"])]
            ses.append(s)
    # error places
    for d in DIRS[:8]:
        ses.append(["S", "d " + hx(d), "f " + hx(d + b"/f")] + [x for f in range(16) for x in (ls(d, b"nomatch*", f), ls(d + b"x", b"*", f), ls(d + b"/f", b"*", f), ls(d + b"/sub", b"f", f))] +
                   ["chmod %s 000" % hx(d)] + [ls(d, m, f) for f in range(16) for m in (b"*", b"f")] + ["chmod %s 700" % hx(d), ls(d, b"*", 0)])
    # empty directory
    ses.append(["S", "d 44"] + [ls(b"D", m, f) for f in range(16) for m in (b"*", b".*", b".", b"a")])
    # the path limit, with plain and escaped directory names
    for d in (b"D", b"a*b", b"\\" * 3):
        esc = len(d) + sum(x in b"[?*\\" for x in d)
        for m in (b"*", b"f", b"f" * 3 + b"*"):
            s = ["S", "d " + hx(d), "f " + hx(d + b"/f"), "f " + hx(d + b"/fff")]
            for tot in list(range(4080, 4104)) + [4200, 5000, 2000]:
                pad = tot - esc - 1 - len(m); dd = (b"./" * (pad // 2)) + (b"" if pad % 2 == 0 else b"/") 
                if pad % 2: dd = b"./" * (pad // 2 - 1) + b".//"
                s += [ls(dd + d, m, r.randrange(16)), ls(dd + d, m, 0)]
            ses.append(s)
    for d in (b"*", b"\\", b"["):      # escapes double the length: deep directories of short names
        s = ["S"]; p = b""
        for k in range(20): p += (b"/" if p else b"") + d * 100; s.append("d " + hx(p)); s += [ls(p, b"*", 0), ls(p + b"/", b"x", 5)]
        s.append("f " + hx(p + b"/x"))
        for n in range(1, 21): s += [ls(b"/".join([d * 100] * n), b"*", r.randrange(16))]
        for n in range(1, 100, 7): s += [ls(b"/".join([d * 100] * 20) + b"/" * n, b"x", 4), ls(b"/".join([d * 100] * 20) + b"/." * n, b"x" * 1 + b"*", 0)]
        ses.append(s)
    c.conform("directory-search", exe, ses, "FileListTrace", unpriv=True)
    c.conform("directory-search-release-build", exp, ses[::3] if q else ses, "FileListTrace", unpriv=True)
