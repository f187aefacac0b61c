from .core import *
from .bigs import big, G
import base64
ALPH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
def run(c):
    q = not c.thorough; r = c.rng
    g = c.mc("CodecMC", dict(Bytes={0, 1, 128, 255} if q else {0, 1, 63, 128, 255}, TextAlph={65, 47, 61, 10} if q else {65, 98, 47, 61, 10}, MaxBytes=4, MaxText=5), inv=["EncExact", "EncFails", "DecExact", "RoundTrip"], gen=True)
    exe = c.build("codec"); exu = c.build("codec", flavour="plain")
    ops = []
    for k, s, n in g:
        s = bytes(s)
        ops.append("enc " + hx(s) if k == "enc" else "%s %s %d" % (k, hx(s), n))
    for a in range(256):
        for _ in range(3):
            b = bytearray(r.randbytes(3)); b[_] = a; ops += ["enc " + hx(b), "r2h " + hx(b), "dec %s 4" % hx(base64.b64encode(bytes(b)))]
        if a: ops += ["dec %s 10" % hx(x) for x in (bytes([a]) + b"AAA", b"A" + bytes([a]) + b"AA", b"AA" + bytes([a]) + b"A", b"AAA" + bytes([a]), b"QUJD" + bytes([a]) + b"QQ=", b"AA" + bytes([a]) + b"=", b"A" + bytes([a]) + b"==")]
        ops.append("hv %d" % a)
    for a in ALPH:
        for b in r.sample(ALPH, 12 if q else 64):
            t = bytes([a, b]); ops += ["dec %s 4" % hx(t + b"=="), "dec %s 4" % hx(bytes([r.choice(ALPH)]) + t + b"="), "dec %s 4" % hx(r.choice([t + t, b"zz" + t]))]
    for n in range(0, 40):
        for _ in range(3 if q else 20):
            s = r.randbytes(n); t = base64.b64encode(s); need = 1 + len(t) // 4 * 3
            ops += ["enc " + hx(s), "r2h " + hx(s), "h2r " + hx(s.hex().upper() if r.random() < .5 else s.hex()), "sizes %d" % n]
            ops += ["dec %s %d" % (hx(t), k) for k in {0, 1, max(0, n - 1), n, n + 1, need - 1, need, need + 1, need + 60}]
            z = s.replace(b"\0", b"\1"); ops += ["encs %s %d" % (hx(z), k) for k in {0, 1, 4, 5, len(t) - 1 if t else 0, len(t), len(t) + 1, len(t) + 2, len(t) + 50}]
            if t:   # damaged texts
                m = bytearray(t)
                for _ in range(r.randint(1, 2)):
                    x = r.random(); p = r.randrange(len(m)) if m else 0
                    if not m: break
                    if x < .3: m[p] = r.randint(1, 255)
                    elif x < .5: m[p] = 61
                    elif x < .7: del m[p]
                    elif x < .9: m.insert(p, r.choice(b"=A \n-_."))
                    else: m += b"="
                ops.append("dec %s %d" % (hx(m), need + 8))
    for _ in range(300 if q else 4000):
        t = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([0, 1, 2, 3, 5, 7, 8, 16, 33, 64]))); ops.append("h2r " + hx(t))
        ops.append("h2r " + hx("%x" % r.getrandbits(r.choice([4, 8, 12, 60]))))
    for n in ((255, 256, 257, 1000, 3000) if q else (255, 256, 257, 1000, 3000, 5000, 5001, 5002)):
        s = r.randbytes(n); t = base64.b64encode(s); ops += ["enc " + hx(s), "r2h " + hx(s), "h2r " + hx(s.hex()), "dec %s %d" % (hx(t), 1 + len(t) // 4 * 3), "dec %s %d" % (hx(t), n - 1), "sizes %d" % n]
    for n in SWEEP if not q else [x for x in SWEEP if x <= 8193]:
        for m in (n, n * 3 // 4, n // 2):
            s = r.randbytes(m); t = base64.b64encode(s); need = 1 + len(t) // 4 * 3; i = r.randrange(len(t) - 4); z = s.replace(b"\0", b"\1")
            ops += r.sample(["enc " + hx(s), "r2h " + hx(s), "h2r " + hx(s.hex()), "dec %s %d" % (hx(t), need), "dec %s %d" % (hx(t), need + 9), "dec %s %d" % (hx(t[:i] + b"*" + t[i + 1:]), need), "dec %s %d" % (hx(t[:i] + t[i + 1:]), need), "encs %s %d" % (hx(z), len(t) + 1), "encs %s %d" % (hx(z), len(t)), "sizes %d" % m], 4 if n > 1000 and q else 10)
    ses = [["S"] + ops[i:i + 60] for i in range(0, len(ops), 60)]
    c.conform("codec", exe, ses, "CodecTrace")
    c.conform("codec-release-build", exu, ses[::4] if q else ses, "CodecTrace")
    big(c, ["enc 0 %d %s" % (G, "616263ff"[:2 * n]) for n in (1, 2, 3)] + ["encs 97 %d 6162 %d" % (G, x) for x in (0,)] + ["r2h 0 %d ff00a1" % G, "h2r 48 %d 664641" % (G + 1), "h2r 48 %d 6646" % (G + 1)]
           + ["dec 65 %d %s" % (G, t) for t in ("51513d3d", "5151513d", "51515151")])
