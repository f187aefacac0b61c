/* MD5, SHA-512 (C22), CRC-32/CRC-32C, RC4 (C23).  Four contexts of each. */
#include "drv.h"
#include <unistd.h>
#include "big.h"
#include "md5.h"
#include "sha512.h"
#include "crc32.h"
#include "strlib.h"
void rc4(unsigned char* dst, const unsigned char* src, size_t len, const unsigned char* key, size_t keylen);
static md5_ctx *M[4]; static sha512_ctx *H[4]; static CRC32_CTX *C[4]; static int ctype[4];
void drv_end(void) {}
static void *fresh(void *old, size_t n) { xfree(old); void *p = xmalloc(n); memset(p, 0xA5, n); return p; }
extern int drv_cpu_limit;
void drv_session(int argc, char **argv) { drv_cpu_limit = argc > 1 ? num(argv[1]) : 20; ev_begin("S"); ev_end(); }
/* the data at an odd position of an exactly sized block, so that alignment varies and overruns show */
static unsigned char *place(blob s, int off, unsigned char **base) { *base = xmalloc(s.n + off); if(s.n) memcpy(*base + off, s.p, s.n); return *base + off; }
void drv_op(int argc, char **argv) {
	if(IS("ct")) { CRC32_InitTables(); CRC32C_InitTables(); ev_begin("ct"); ev_end(); return; }
	if(IS("ctc")) { if(num(argv[1])) CRC32C_InitTables(); else CRC32_InitTables(); ev_begin("ct"); ev_end(); return; }
	if(IS("ms")) { blob s = unhex_exact(argv[1]); char *o = xmalloc(33); memset(o, 'Q', 33); md5str(o, s.p, s.n); ev_begin("ms"); ev_bytes("b", s.p, s.n); ev_bytes("o", o, strnlen(o, 33)); ev_end(); xfree(o); xfree(s.p); return; }
	if(IS("rc4")) {   /* rc4 KEY DATA INPLACE OFF */
		blob k = unhex_exact(argv[1]), s = unhex_exact(argv[2]); int inpl = num(argv[3]), off = num(argv[4]); unsigned char *b1, *b2, *src = place(s, off, &b1), *dst = inpl ? src : (b2 = xmalloc(s.n + off), b2 + off);
		rc4(dst, src, s.n, k.p, k.n);
		unsigned char *back = xmalloc(s.n); rc4(back, dst, s.n, k.p, k.n);
		ev_begin("rc4"); ev_bytes("key", k.p, k.n); ev_bytes("b", s.p, s.n); ev_bytes("o", dst, s.n); ev_bytes("back", back, s.n); ev_end();
		xfree(back); xfree(b1); if(!inpl) xfree(b2); xfree(k.p); xfree(s.p); return;
	}
	if(IS("rc4z")) {   /* rc4z KEY N: zero bytes; the last 32 of the result */
		blob k = unhex_exact(argv[1]); size_t n = num64(argv[2]); unsigned char *z = big_map(n, 0), *o = big_map(n, 0x77);
		rc4(o, z, n, k.p, k.n);
		ev_begin("rc4z"); ev_bytes("key", k.p, k.n); ev_big("n", n); ev_bytes("o", o + n - 32, 32); ev_end();
		big_free(z, n); big_free(o, n); xfree(k.p); return;
	}
	int k = num(argv[1]) & 3;
	if(IS("mi")) { M[k] = fresh(M[k], sizeof *M[k]); md5_init(M[k]); ev_begin("mi"); ev_int("k", k); ev_end(); return; }
	if(IS("si")) { H[k] = fresh(H[k], sizeof *H[k]); sha512_init(H[k]); ev_begin("si"); ev_int("k", k); ev_end(); return; }
	if(IS("ci")) { C[k] = fresh(C[k], sizeof *C[k]); ctype[k] = num(argv[2]); if(ctype[k]) CRC32C_Init(C[k]); else CRC32_Init(C[k]); ev_begin("ci"); ev_int("k", k); ev_int("c", ctype[k]); ev_end(); return; }
	if(IS("mu") || IS("su") || IS("cu")) {
		blob s = unhex_exact(argv[2]); unsigned char *b, *p = place(s, num(argv[3]), &b);
		if(IS("mu")) md5_update(M[k], p, s.n); else if(IS("su")) sha512_update(H[k], p, s.n); else if(ctype[k]) CRC32C_Update(C[k], p, s.n); else CRC32_Update(C[k], p, s.n);
		ev_begin(argv[0]); ev_int("k", k); ev_int("c", ctype[k]); ev_bytes("b", s.p, s.n); ev_end(); xfree(b); xfree(s.p); return;
	}
	if(IS("mz") || IS("sz") || IS("cz")) {     /* up to 2^E zero bytes, from 2^F (0: nothing yet), in pieces of the given size (0: one) */
		size_t tot = (size_t)1 << num(argv[3]), from = num(argv[4]) ? (size_t)1 << num(argv[4]) : 0, pc = num64(argv[2]), i; if(!pc) pc = tot - from;
		unsigned char *z = big_map(pc, 0);
		for(i = from; i < tot; i += pc) { size_t n = tot - i < pc ? tot - i : pc; if(IS("mz")) md5_update(M[k], z, n); else if(IS("sz")) sha512_update(H[k], z, n); else if(ctype[k]) CRC32C_Update(C[k], z, n); else CRC32_Update(C[k], z, n); }
		ev_begin(argv[0]); ev_int("k", k); ev_int("c", ctype[k]); ev_int("e", num(argv[3])); ev_end(); big_free(z, pc); return;
	}
	if(IS("me")) { unsigned char *d = xmalloc(17); d[16] = 0x77; md5_end(M[k], d); ev_begin("me"); ev_int("k", k); ev_bytes("d", d, 16); ev_end(); xfree(d); return; }
	if(IS("se")) { unsigned char *d = sha512_end(H[k]); ev_begin("se"); ev_int("k", k); ev_bytes("d", d, 64); ev_end(); return; }
	if(IS("cf")) { unsigned char *d = xmalloc(4); if(ctype[k]) CRC32C_Final(d, C[k]); else CRC32_Final(d, C[k]); ev_begin("cf"); ev_int("k", k); ev_bytes("d", d, 4); ev_end(); xfree(d); return; }
	die("op %s", argv[0]);
}
