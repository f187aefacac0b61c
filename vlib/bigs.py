from .core import *
G = 2**32
def model(c):
    c.mc("BigStrMC", dict(Base=4, MaxN=9, MaxT=4, MaxD=2), inv=["Valid", "SearchOk", "SplitOk", "ArithOk", "CodecOk"])
def big(c, lines):
    """operations on strings of more than 2^32 bytes (memory-mapped aliases stand for them), one process each"""
    model(c)
    exe = c.build("bigs", wraps=["write"], flavour="fast")
    c.conform("beyond-4GB", exe, [["S"] + ([l] if isinstance(l, str) else l) for l in lines], "BigTrace", dict(Base=2**24), timeout=300, each=True)
def mlist(r, kind, cnt):
    """operations on lists of items of 1 MB around the offsets of 2 and 4 GB and at the end"""
    e = [0, 1, 2, 2046, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 4098, cnt - 2, cnt - 1]
    o = []
    if kind != "tg": o += ["s%d" % (2 * p + d) for p in e for d in (0, 1)] + ["s%d" % (2 * cnt + 2)] + ["s%d" % r.randrange(2 * cnt) for _ in range(10)]
    o += ["i%d" % (2 * (cnt - d) + 1) for d in (0, 1, 2, 3, 9)]
    if kind in ("sb", "tg"): o += ["p%d" % (cnt - d) for d in (0, 1, 2, 3)]
    return "mlist %s %d %s" % (kind, cnt, " ".join(o))
