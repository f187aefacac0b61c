/* operations on strings of more than 2^32 bytes: N times the byte F, then a tail */
#include "drv.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "big.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "strlib.h"
#include "sblist.h"
#include "tglist.h"
#include "tgilist.h"
#include "bmap.h"
extern int drv_cpu_limit;
extern void *(*mem_big_alloc)(size_t); extern void (*mem_big_free)(void *, size_t);
/* memory for the library: its first and last chunk are real */
static void *ba(size_t n) { void *p = big_str(n - 64, 0x51, 0, 0, 0x51); if(mmap(p, BIGCHUNK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) die("big head"); return p; }
static void bf(void *p, size_t n) { big_free(p, n - 64); }
void drv_end(void) {}
/* glibc 2.39's AVX memrchr looks at the length modulo 2^32 */
void *memrchr(const void *p, int c, size_t n) { while(n--) if(((const unsigned char*)p)[n] == (unsigned char)c) return (char*)p + n; return 0; }
/* writes are recorded, not done: position in the source and amount; at most PIECE bytes are taken at a time */
static const char *wbase; static int wfd; static size_t wsum, wpiece; static int wok, wcalls, won;
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n) {
	if(!won) return __real_write(fd, p, n);
	if(wpiece && n > wpiece) n = wpiece;
	if(n > 0x7ffff000) n = 0x7ffff000;
	if((const char*)p != wbase + wsum) wok = 0;
	wsum += n; wcalls++; return n;
}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; drv_cpu_limit = 400; mem_reset(); mem_big_alloc = ba; mem_big_free = bf; ev_begin("S"); ev_end(); }
static size_t N; static int F; static blob T;
static unsigned char *B;
static void desc(const char *op) { ev_begin(op); ev_int("f", F); ev_big("n", N); ev_bytes("t", T.p, T.n); }
static void pieces(stringptrlist *l, char *base) {
	ev_arr_begin("ps"); for(size_t i = 0; l && i < stringptrlist_getsize(l); i++) {
		stringptr *s = stringptrlist_get(l, i); size_t a = s->ptr - base; ev_obj_begin(); ev_big("at", a); ev_big("len", s->size); ev_int("nul", s->ptr[s->size] == 0); ev_obj_end(); }
	ev_arr_end();
}
/* lists of items of 1 MB, of which only the first pages are real: item i holds 2 i */
typedef struct { int k; char pad[(1 << 20) - 4]; } mb;
static tglist(mb) MT; static bmap(mb, int) MM; static bmap(int, mb) MV; static int *mctx;
static int cmpmb(const void *a, const void *b) { int x = *(int*)a, y = *(int*)b; return (x > y) - (x < y); }
static int cmpmbr(const void *a, const void *b, void *c) { return c == &mctx ? cmpmb(a, b) : 7; }
static void *mitems(size_t cnt) {
	mb *m = mmap(0, (cnt + 4) * sizeof *m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED) die("mitems"); for(size_t i = 0; i < cnt; i++) m[i].k = 2 * i; return m;
}
/* mlist KIND COUNT OP.. : sK search, iK insert sorted (and delete again), pI insert at (and delete again) */
static void mlist(int argc, char **argv) {
	size_t cnt = num(argv[2]), i; mb *m = mitems(cnt); const char *kind = argv[1]; static mb tmp, one; sblist *l = 0; int *small = 0;
	int sb = !strcmp(kind, "sb"), tg = !strcmp(kind, "tg"), mk = !strcmp(kind, "mapk"), mv = !strcmp(kind, "mapv");
	if(sb) { l = sblist_new(sizeof(mb), 4); l->items = (void*)m; l->count = cnt; l->capa = cnt + 4; }
	if(tg) { memset(&MT, 0, sizeof MT); MT.items = m; MT.count = cnt; MT.capa = cnt + 4; }
	if(mk || mv) { small = xmalloc((cnt + 4) * 4); for(i = 0; i < cnt; i++) small[i] = 2 * i; }
	if(mk) { bmap_init(&MM, cmpmb); MM.keys.items = m; MM.keys.count = cnt; MM.keys.capa = cnt + 4; MM.values.items = small; MM.values.count = cnt; MM.values.capa = cnt + 4; }
	if(mv) { bmap_init(&MV, cmpmb); MV.keys.items = small; MV.keys.count = cnt; MV.keys.capa = cnt + 4; MV.values.items = m; MV.values.count = cnt; MV.values.capa = cnt + 4; }
#define AT(i) (sb ? ((mb*)sblist_get(l, i))->k : tg ? tglist_get(&MT, i).k : mk ? bmap_getkey(&MM, i).k : bmap_getval(&MV, i).k)
#define SIZE() (sb ? sblist_getsize(l) : tg ? tglist_getsize(&MT) : mk ? bmap_getsize(&MM) : bmap_getsize(&MV))
	ev_begin("mlist"); ev_int("c", cnt); ev_arr_begin("ps");
	for(int a = 3; a < argc; a++) {
		long k = num(argv[a] + 1), r = -5, n = -1, x = -1, y = -1, z = -1; int kk = k; char o = argv[a][0];
		one.k = k; memset(&tmp, 0, sizeof tmp);
		if(o == 's') {
			if(sb) r = a % 2 ? sblist_bsearch(l, &one, cmpmb) : sblist_bsearch_r(l, &one, cmpmbr, &mctx);
			if(mk) { r = bmap_find(&MM, one); int *q = bmap_get(&MM, one); if(bmap_contains(&MM, one) != (r != -1) || (q ? *q : -1) != (r == -1 ? -1 : k)) r = -6; }
			if(mv) { r = bmap_find(&MV, kk); mb *q = bmap_get(&MV, kk); if(bmap_contains(&MV, kk) != (r != -1) || (q ? q->k : -1) != (r == -1 ? -1 : k)) r = -6; }
			if(tg) die("mlist search");
		} else {
			if(o == 'i') {
				if(sb) r = a % 2 ? sblist_insert_sorted(l, &one, cmpmb) : sblist_insert_sorted_r(l, &one, cmpmbr, &mctx);
				if(tg) r = tglist_insert_sorted(&MT, one, cmpmb);
				if(mk) r = bmap_insert(&MM, one, kk);
				if(mv) r = bmap_insert(&MV, kk, one);
			} else {
				one.k = -9; r = k;
				if(sb && !sblist_insert(l, &one, k)) r = -6;
				if(tg && !tglist_insert(&MT, one, k)) r = -6;
			}
			n = SIZE();
			if(r >= 0) { x = r ? AT(r - 1) : -1; y = AT(r); z = r + 1 < n ? AT(r + 1) : -1; }
			if(r >= 0) { if(sb) sblist_delete(l, r); else if(tg) tglist_delete(&MT, r); else if(mk) bmap_delete(&MM, r); else bmap_delete(&MV, r); }
		}
		ev_obj_begin(); ev_str("o", o == 's' ? "s" : o == 'i' ? "i" : "p"); ev_int("k", k); ev_int("r", r); ev_int("n", n); ev_int("x", x); ev_int("y", y); ev_int("z", z);
		ev_int("m", SIZE()); ev_int("last", AT(cnt - 1)); ev_obj_end();
	}
	ev_arr_end(); ev_end();
	if(l) { l->items = 0; l->count = 0; sblist_free(l); }
	munmap(m, (cnt + 4) * sizeof *m); xfree(small);
}
/* OP F N TAIL ... */
void drv_op(int argc, char **argv) {
	if(IS("mlist")) { mlist(argc, argv); return; }
	if(IS("blist")) {   /* positions in a list of items of N bytes */
		size_t isz = num64(argv[1]), cnt = num64(argv[2]), i; char *m = (char*)0x100000; sblist *l = sblist_new(isz, 4);
		if(!l) die("sblist_new"); 
		l->items = m; l->count = l->capa = cnt;
		ev_begin("blist"); ev_big("n", isz); ev_int("c", cnt); ev_arr_begin("ps");
		for(i = 0; i <= cnt; i++) { char *p = sblist_get(l, i); ev_obj_begin(); ev_int("null", !p); ev_big("at", p ? (size_t)(p - m) : 0); ev_obj_end(); }
		ev_arr_end(); ev_end(); l->items = 0; l->count = 0; sblist_free(l); return;
	}
	F = num(argv[1]); N = num64(argv[2]); T = unhex_exact(argv[3]); B = big_str(N, F, T.p, T.n, IS("h2r") || IS("dec") || IS("fromchar") || IS("encs") ? 0 : 0x5a);
	size_t tot = N + T.n; stringptr s = { (char*)B, tot };
	if(IS("eq") || IS("here")) {
		size_t n2 = num64(argv[4]); blob t2 = unhex_exact(argv[5]); unsigned char *b2 = big_str(n2, F, t2.p, t2.n, 0x5b); stringptr d = { (char*)b2, n2 + t2.n };
		int r = IS("eq") ? stringptr_eq(&s, &d) : stringptr_here(&s, num64(argv[6]), &d);
		desc(argv[0]); ev_big("n2", n2); ev_bytes("t2", t2.p, t2.n); if(IS("here")) ev_big("p", num64(argv[6])); ev_int("r", !!r); ev_end(); big_free(b2, n2 + t2.n); xfree(t2.p);
	} else if(IS("contains")) {
		blob t2 = unhex_exact(argv[4]); stringptr d = { (char*)t2.p, t2.n }; int r = stringptr_contains(&s, &d);
		desc("contains"); ev_bytes("d", t2.p, t2.n); ev_int("r", !!r); ev_end(); xfree(t2.p);
	} else if(IS("rchr")) {
		char *r = stringptr_rchr(&s, num(argv[4])); desc("rchr"); ev_int("c", num(argv[4])); ev_int("null", !r); ev_big("r", r ? r - s.ptr : 0); ev_end();
	} else if(IS("shl") || IS("shr")) {
		size_t n = num64(argv[4]); int r = IS("shl") ? stringptr_shiftleft(&s, n) : stringptr_shiftright(&s, n);
		desc(argv[0]); ev_big("k", n); ev_int("r", !!r); ev_big("at", s.ptr - (char*)B); ev_big("len", s.size); ev_int("nul", IS("shl") ? s.ptr[s.size] == 0 || !r : 1); ev_end();
	} else if(IS("chomp")) {
		size_t r = stringptr_chomp(&s); desc("chomp"); ev_int("r", r); ev_big("len", s.size); ev_int("at", s.ptr - (char*)B); ev_end();
	} else if(IS("splitc") || IS("splits")) {
		blob t2 = unhex_exact(argv[4]); stringptr d = { (char*)t2.p, t2.n }; stringptrlist *l = IS("splitc") ? stringptr_splitc(&s, t2.p[0]) : stringptr_splits(&s, &d);
		desc(argv[0]); ev_bytes("d", t2.p, t2.n); pieces(l, (char*)B); ev_end(); if(l) stringptrlist_free(l); xfree(t2.p);
	} else if(IS("repl") || IS("concat")) {
		blob t2 = unhex_exact(argv[4]), t3 = unhex_exact(argv[5]); stringptr d = { (char*)t2.p, t2.n }, w = { (char*)t3.p, t3.n };
		stringptr *r = IS("repl") ? stringptr_replace(&s, &d, &w) : stringptr_concat(&d, &s, &w, (stringptr*)0);
		desc(argv[0]); ev_bytes("d", t2.p, t2.n); ev_bytes("w", t3.p, t3.n); ev_int("null", !r); ev_big("len", r ? r->size : 0); ev_bytes("o", r && r->size > 32 ? r->ptr + r->size - 32 : "", r && r->size > 32 ? 33 : 0); ev_end();
		stringptr_free(r); xfree(t2.p); xfree(t3.p);
	} else if(IS("copy") || IS("dup") || IS("dupn")) {
		stringptr *r = IS("copy") ? stringptr_copy(&s) : 0; char *q = IS("dup") ? stringptr_strdup(&s) : IS("dupn") ? strdup_n(s.ptr, s.size) : r ? r->ptr : 0; size_t len = r ? r->size : s.size;
		desc("copy"); ev_int("null", !q); ev_big("len", len); ev_bytes("o", q ? q + len - 32 : "", q ? 33 : 0); ev_end(); if(r) stringptr_free(r); else free(q);
	} else if(IS("fromchar")) {
		stringptr o; stringptr_fromchar((char*)B, &o); desc("fromchar"); ev_big("len", o.size); ev_end();
	} else if(IS("enc")) {
		size_t cap = BASE64ENC_BUFSIZE(tot); unsigned char *o = big_map(cap, 0x51); base64enc((char*)o, B, tot);
		desc("enc"); ev_bytes("o", o + cap - 41, 41); ev_end(); big_free(o, cap);
	} else if(IS("encs")) {
		size_t cap = BASE64ENC_BUFSIZE(tot) + num(argv[4]); unsigned char *o = big_map(cap, 0x51); int r = base64enc_str((char*)o, B, cap);
		desc("encs"); ev_int("x", num(argv[4])); ev_int("r", r); ev_bytes("o", o + BASE64ENC_BUFSIZE(tot) - 41, 41); ev_end(); big_free(o, cap);
	} else if(IS("dec")) {
		size_t cap = BASE64DEC_BUFSIZE(tot); unsigned char *o = big_map(cap, 0x51); size_t r = base64dec(o, (char*)B, cap);
		desc("dec"); ev_big("r", r); ev_bytes("o", r > 30 ? o + r - 30 : o, 31); ev_end(); big_free(o, cap);
	} else if(IS("r2h")) {
		unsigned char *o = big_map(tot * 2 + 1, 0x51); raw2hex((char*)o, B, tot);
		desc("r2h"); ev_bytes("o", o + tot * 2 - 40, 41); ev_end(); big_free(o, tot * 2 + 1);
	} else if(IS("h2r")) {
		size_t cap = (tot + 1) / 2; unsigned char *o = big_map(cap, 0x51); size_t r = hex2raw((char*)B, o);
		desc("h2r"); ev_big("r", r); ev_bytes("o", o + cap - 20, 20); ev_end(); big_free(o, cap);
	} else if(IS("save")) {
		char fn[] = "/tmp/ulzbigXXXXXX"; int fd = mkstemp(fn); close(fd);
		wbase = s.ptr; wsum = 0; wok = 1; wcalls = 0; wpiece = num64(argv[4]); won = 1; size_t r = stringptr_tofile(fn, &s); won = 0; unlink(fn);
		desc("save"); ev_big("r", r); ev_big("sum", wsum); ev_int("ok", wok); ev_end();
	} else if(IS("load")) {   /* a file with a hole of N bytes, then the tail */
		char fn[] = "/tmp/ulzbigXXXXXX"; int fd = mkstemp(fn); if(pwrite(fd, T.p, T.n, N) != (ssize_t)T.n) { unlink(fn); die("hole"); } close(fd);
		stringptr *r = stringptr_fromfile(fn); unlink(fn);
		desc("load"); ev_int("null", !r); ev_big("len", r ? r->size : 0); ev_bytes("o", r && r->size > 32 ? r->ptr + r->size - 32 : "", r && r->size > 32 ? 33 : 0); ev_end(); stringptr_free(r);
	} else die("op %s", argv[0]);
	big_free(B, tot); xfree(T.p);
}
