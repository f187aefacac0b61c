/* bit arrays and byte swapping (C33); both headers are macros only */
#include "drv.h"
#include "bitarray.h"
#include <sys/mman.h>
#include "endianness.h"
static unsigned char *a; static size_t n, nb;
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; xfree(a); a = 0; n = nb = 0; ev_begin("S"); ev_end(); }
static void m(void) { ev_bytes("m", a, nb); ev_end(); }
static void be(const char *k, uint64_t x, int w) { ev_arr_begin(k); for(int i = w - 1; i >= 0; i--) ev_arr_int(x >> 8 * i & 255); ev_arr_end(); }
static void mem(const char *k, void *p, int w) { ev_bytes(k, p, w); }
void drv_op(int argc, char **argv) {
	if(IS("new")) {       /* new BITS PATTERN: an array of exactly the required size */
		xfree(a); n = num(argv[1]); nb = BA_SIZE_REQUIRED(n); a = xmalloc(nb); blob p = unhex(argv[2]); for(size_t i = 0; i < nb; i++) a[i] = p.n ? p.p[i % p.n] : 0;
		ev_begin("new"); ev_int("n", n); ev_int("bytes", nb); xfree(p.p); m(); return;
	}
	if(IS("set")) {       /* set HOW INDEX VALUE */
		int how = num(argv[1]), v = num(argv[3]); size_t i = num(argv[2]); int ii = i; signed char *s = (signed char*)a;
		switch(how) {
		case 0: if(v) BA_SET_TRUE(a, i); else BA_SET_FALSE(a, i); break;
		case 1: BA_SET(a, i, v); break;
		case 2: if(v) BA_SET_TRUE(s, ii); else BA_SET_FALSE(s, ii); break;
		case 3: BA_SET(s, ii, v ? 0x100 : 0); break;
		case 4: { unsigned char *base = a; BA_SET(base + 0, ii + 0, v && 1); break; }
		default: if(n == i + 1 || 1) BA_SET(a, i, !!v); else BA_SET(a, i, !v);
		}
		ev_begin("set"); ev_int("i", i); ev_int("v", !!v); m(); return;
	}
	if(IS("get") || IS("gets")) {
		int how = num(argv[1]), r; size_t i = num(argv[2]); signed char *s = (signed char*)a; int ii = i;
		if(IS("get")) r = how == 0 ? BA_GET(a, i) : how == 1 ? BA_GET(s, ii) : BA_GET(a + 0, ii + 0);
		else r = how == 0 ? BA_GET_SWAPPED(a, i) : how == 1 ? BA_GET_SWAPPED(s, ii) : BA_GET_SWAPPED(a + 0, ii + 0);
		ev_begin(argv[0]); ev_int("i", i); ev_int("r", r); m(); return;
	}
	if(IS("big")) { uint64_t x = num64(argv[1]); ev_begin("big"); ev_limbs("n", x); ev_limbs("r", BA_SIZE_REQUIRED(x)); ev_end(); return; }
	if(IS("sized")) {     /* sized TYPE N: the count in a narrower type, also as an expression */
		uint64_t x = num64(argv[2]), r[2]; size_t two = 2;
#define TY(T) { T v = (T)x, w = (T)(x ^ 1); int one = x & 1; x = v; r[0] = BA_SIZE_REQUIRED(v); r[1] = BA_SIZE_REQUIRED(one ? v : w ^ 1); }
		switch(num(argv[1])) { case 0: TY(unsigned char) break; case 1: TY(signed char) break; case 2: TY(unsigned short) break; case 3: TY(short) break; case 4: TY(unsigned) break; case 5: TY(int) break; case 6: TY(long) break; default: TY(unsigned long) }
		for(size_t i = 0; i < two; i++) { ev_begin("big"); ev_limbs("n", x); ev_limbs("r", r[i]); ev_end(); }
		return;
	}
	if(IS("far")) {       /* far SPAN INDEX: one bit of an array of 2^SPAN bits, all zero (pages which nobody touches take no memory) */
		int sp = num(argv[1]), k; uint64_t i = num64(argv[2]); size_t len = BA_SIZE_REQUIRED((size_t)1 << sp), pg = 4096, j, x, found = 0; static unsigned char vec[1 << 22];
		unsigned char *b = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(b == MAP_FAILED || (len + pg - 1) / pg > sizeof vec) die("mmap");
		madvise(b, len, MADV_NOHUGEPAGE);
		for(k = 0; k < 3; k++) {
			if(k == 0) BA_SET_TRUE(b, i); else if(k == 1) BA_SET_FALSE(b, i); else BA_SET(b, i, 1);
			ev_begin("far"); ev_int("hi", i >> 27); ev_int("lo", i & 0x7ffffff); ev_int("low32", !(i >> 32)); ev_int("v", k != 1); ev_int("get", BA_GET(b, i)); ev_int("gets", BA_GET_SWAPPED(b, i)); ev_int("getz", BA_GET_SWAPPED(b, (i & ~(uint64_t)7) + 7 - (i & 7))); ev_int("low", BA_GET(b, i & 0xffffffff));
			if(mincore(b, len, vec)) die("mincore");
			ev_arr_begin("nz"); for(j = 0; j < (len + pg - 1) / pg; j++) if(vec[j] & 1) for(x = j * pg; x < (j + 1) * pg && x < len; x++) if(b[x] && found++ < 20) ev_arr_triple(x >> 24, x & 0xffffff, b[x]);
			ev_arr_end(); ev_end(); found = 0;
		}
		munmap(b, len); return;
	}
	if(IS("swap")) {      /* swap WIDTH VALUE */
		int w = num(argv[1]); uint64_t x = num64(argv[2]), r, rr; uint16_t h = x, t; uint32_t l = x, u; int sl = (int)l;
		if(w == 2) { t = byteswap16(h); r = t; rr = (uint16_t)byteswap16(t); x = h; }
		else if(w == 4) { u = byteswap32(l); r = u; rr = (uint32_t)byteswap32(u); x = l; if((uint32_t)byteswap32(sl) != u) r = 0; }
		else { r = byteswap64(x); rr = byteswap64(r); }
		ev_begin("swap"); be("x", x, w); be("r", r, w); be("rr", rr, w); ev_end(); return;
	}
	if(IS("swap16")) { int f = num(argv[1]), k = num(argv[2]); ev_begin("swap16"); ev_int("from", f); ev_int("n", k); ev_arr_begin("r"); for(int i = f; i < f + k; i++) { uint16_t h = i; ev_arr_int((uint16_t)byteswap16(h)); } ev_arr_end(); ev_end(); return; }
	if(IS("le")) { uint32_t x = num64(argv[2]); if(num(argv[1]) == 2) { uint16_t h = x, o = le16(h); ev_begin("le"); be("x", h, 2); mem("b", &o, 2); } else { uint32_t o = le32(x); ev_begin("le"); be("x", x, 4); mem("b", &o, 4); } ev_end(); return; }
	if(IS("byte")) { int x = num(argv[1]), b[8]; for(int i = 0; i < 8; i++) b[i] = x >> (7 - i) & 1;
		ev_begin("byte"); ev_arr_begin("b"); for(int i = 0; i < 8; i++) ev_arr_int(b[i]); ev_arr_end();
#define E(k) x >> (k) & 1
		/* the bits given as expressions make the same byte */
		int em = BYTEM(E(7), E(6), E(5), E(4), E(3), E(2), E(1), E(0)), el = BYTEL(b[0] == 1, b[1] ? 1 : 0, b[2] && 1, b[3] != 0, b[4] == 1, b[5] ? 1 : 0, b[6] ^ 0, b[7] == 1);
		ev_int("em", em); ev_int("el", el);
		ev_int("bm", BYTEM(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7])); ev_int("bl", BYTEL(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7])); ev_end(); return; }
	die("op %s", argv[0]);
}
