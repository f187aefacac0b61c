from .core import *
def run(c):
    q = not c.thorough; r = c.rng
    O = {0, 9, 10, 99, 100, 199, 200, 255}
    g = c.mc("Ipv4MC", dict(Alph={46, 48, 57, 97} if q else {46, 48, 57, 97, 32}, MaxLen=6 if q else 7, Groups={0, 1, 2, 3, 4, 9, 10} if q else {0, 1, 2, 3, 4, 5, 8, 9, 10, 12}, Octs={0, 9, 10, 100, 255} if q else O), inv=["Agrees", "RoundTrip"], gen=True)
    exe = c.build("codec"); exu = c.build("codec", flavour="plain")
    ops = []
    for s in g:
        s = bytes(s); ops += ["is4 " + hx(s)] + (["parse4 " + hx(s)] if r.random() < .5 else [])
    for a in range(256):       # every octet value in every position
        for p in range(4):
            b = bytearray(r.choice([r.randbytes(4), bytes(r.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255]) for _ in range(4))])); b[p] = a; ops.append("fmt4 " + hx(b))
            t = [str(x) for x in b]; t[p] = "0" * r.randrange(3) + t[p]; ops.append("parse4 " + hx(".".join(t))); ops.append("is4 " + hx(".".join(t)))
            w = [str(x).zfill(r.choice([1, 3])) for x in b]; ops.append("parse4 " + hx(".".join(w))); ops.append("is4 " + hx(".".join(w)))
    for a in range(1, 256):    # every character in every place
        for t in (b"1.2.3.%c", b"%c1.2.3.4", b"1.2%c3.4", b"1.2.3.4%c", b"1.%c.3.4"):
            x = t.replace(b"%c", bytes([a])); ops.append("is4 " + hx(x))
            if len(x.split(b".")) < 4: ops.append("parse4 " + hx(x))
    for _ in range(1500 if q else 30000):
        t = "".join(r.choice("0123456789....") for _ in range(r.randint(0, 18))); ops += ["is4 " + hx(t), "parse4 " + hx(t)]
        f = [str(r.choice([r.randrange(256), r.randrange(1000), r.randrange(10**6)])).zfill(r.choice([1, 1, 2, 3, 6])) for _ in range(r.choice([1, 2, 3, 4, 4, 4, 4, 5]))]
        t = ".".join(f); ops += ["is4 " + hx(t), "parse4 " + hx(t), "fmt4 " + hx(r.randbytes(4))]
    for n in SWEEP if not q else [x for x in SWEEP if x < 9000]:
        for t in (b"1" * n, b"." * n, b"1.2.3.4" + b"." * n, b"1.2.3.4" + b"9" * n, b"1.2.3" + b".4" * n, b"1." * n, b"0" * n + b"1.2.3.4", b"1.2.3.4" + b" " * n, b"1.2.3.4" + b"\n" * n, b"1.2.3.4" + b"x" * n, b" " * n + b"1.2.3.4"): ops.append("is4 " + hx(t))
        ops += ["parse4 " + hx(x) for x in (b"1.2.3." * 0 + b"0" * n, b"0" * n + b".1.2", b"x" * n)]
    ses = [["S"] + ops[i:i + 100] for i in range(0, len(ops), 100)]
    c.conform("ipv4", exe, ses, "CodecTrace")
    c.conform("ipv4-release-build", exu, ses[::4] if q else ses, "CodecTrace")
