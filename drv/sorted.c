/* sorted insert / sort / bsearch.  S sb <itemsize> <kd> <ord> <mag> <blk> | S tg <type> <kd> <ord> <mag> */
#include "drv.h"
#include "sblist.h"
#include "tglist.h"
#include "item.h"
#include "fail.h"
static int kind; static size_t isz; static long kd, ord, mag; static int full;
static sblist *SB;
typedef struct { unsigned char b[1]; } t1; typedef struct { unsigned char b[2]; } t2; typedef struct { unsigned char b[3]; } t3;
typedef struct { unsigned char b[4]; } t4; typedef struct { unsigned char b[8]; } t8; typedef struct { unsigned char b[12]; } t12;
typedef struct { unsigned char b[40]; } t40; typedef struct { unsigned char b[300]; } t300;
#define TYPES X(1) X(2) X(3) X(4) X(8) X(12) X(40) X(300)
#define X(n) static tglist(t##n) *G##n;
TYPES
#undef X
static size_t count(void) {
	if(kind == 0) return sblist_getsize(SB);
#define X(n) if(isz == n) return tglist_getsize(G##n);
	TYPES
#undef X
	return 0;
}
static unsigned char *at(size_t i) {
	if(kind == 0) return sblist_get(SB, i);
#define X(n) if(isz == n) return (void*) &tglist_get(G##n, i);
	TYPES
#undef X
	return 0;
}
static long rank(long v) { long k = v / kd; return ord == 0 ? k : ord == 1 ? -k : ord == 2 ? k / 2 : -(k / 3); }
static long want = -1, argbad, calls; static void *ctxwant; static int ctxobj;
static int present(long v) { size_t n = count(); for(size_t i = 0; i < n; i++) if(it_dec(at(i), isz) == v) return 1; return 0; }
static int cmpv(long a, long b) {
	long ra = rank(a), rb = rank(b), d = ra < rb ? -1 : ra > rb;
	if(mag == 0) return d;
	if(mag == 1) return ra - rb;
	if(mag == 2) return d < 0 ? INT_MIN : d > 0 ? INT_MAX : 0;
	return d * (256 << (calls % 3));
}
static int cmp(const void *a, const void *b) {
	long x = it_dec(a, isz), y = it_dec(b, isz);
	calls++;
	if(want >= 0 && kind != 0) {       /* only sblist.h fixes the order of the two arguments */
		long o = x == want ? y : x;
		if((x != want && y != want) || o == want || (count() <= 2000 && !present(o))) argbad++;
	} else if(want >= 0) {
		if(x != want) argbad++;
		else if(y == want || (count() <= 2000 && !present(y))) argbad++;
		else if(y < 0) argbad++;
	}
	return cmpv(x, y);
}
static int cmp3(const void *a, const void *b, void *c) { if(c != ctxwant) argbad++; return cmp(a, b); }
static void post(void) {
	size_t n = count();
	ev_int("n", n);
	int f = full && n <= 80;
	ev_int("full", f);
	ev_arr_begin("st");
	if(f) for(size_t i = 0; i < n; i++) ev_arr_int(it_dec(at(i), isz));
	ev_arr_end(); ev_end();
}
static void drop(void) {
	if(SB) sblist_free(SB); SB = 0;
#define X(n) if(G##n) tglist_free(G##n); G##n = 0;
	TYPES
#undef X
}
void drv_end(void) { drop(); }
void drv_session(int argc, char **argv) {
	mem_fail_at = armed = 0;
	drop();
	kind = strcmp(argv[1], "sb") != 0; isz = num(argv[2]); kd = num(argv[3]); ord = num(argv[4]); mag = num(argv[5]); full = 1;
	if(kind == 0) SB = sblist_new(isz, num(argv[6]));
#define X(n) if(kind && isz == n) G##n = tglist_new();
	TYPES
#undef X
	ev_begin("S"); ev_int("kd", kd); ev_int("ord", ord); ev_end();
}
static unsigned char tmp[16384];
static long add(long v) {
	unsigned char *t = kind ? tmp : xmalloc(isz); long r = 0;   /* exact block: reading past the item is seen */
	it_enc(t, isz, v);
	if(kind == 0) { r = sblist_add(SB, t); xfree(t); return r; }
#define X(n) if(isz == n) { t##n o; memcpy(&o, tmp, n); return tglist_add(G##n, o); }
	TYPES
#undef X
	return -5;
}
void drv_op(int argc, char **argv) {
	if(IS("fail")) { armed = num(argv[1]); return; }
	arm();
	long v = argc > 1 ? num(argv[1]) : 0, r = -5; int usectx = argc > 2 && !strcmp(argv[2], "r");
	calls = argbad = 0; want = -1; ctxwant = &ctxobj;
	if(IS("full")) full = v;
	else if(IS("add")) { r = add(v); ev_begin("add"); ev_int("v", v); ev_int("r", r); ev_int("oom", oomd()); post(); }
	else if(IS("fill")) {
		long k = num(argv[2]), st = num(argv[3]); r = 0;
		for(long i = 0; i < k; i++) r += add(v + i * st) == 1;
		ev_begin("fill"); ev_int("v", v); ev_int("k", k); ev_int("step", st); ev_int("r", r); post();
	}
	else if(IS("mix")) {
		long k = num(argv[2]), mu = num(argv[3]); r = 0;
		for(long i = 0; i < k; i++) r += add(v + i * mu % k) == 1;
		ev_begin("mix"); ev_int("v", v); ev_int("k", k); ev_int("mu", mu); ev_int("r", r); post();
	}
	else if(IS("sins")) {
		unsigned char *t = xmalloc(isz); it_enc(t, isz, v);
		want = v;
		if(kind == 0) r = usectx ? sblist_insert_sorted_r(SB, t, cmp3, ctxwant) : sblist_insert_sorted(SB, t, cmp);
#define X(n) else if(isz == n) { t##n *o = (void*)t; r = tglist_insert_sorted(G##n, *o, cmp); }
		TYPES
#undef X
		xfree(t); want = -1;
		ev_begin("sins"); ev_int("v", v); ev_int("r", r); ev_int("oom", oomd()); ev_int("argbad", argbad); post();
	}
	else if(IS("srch")) {
		unsigned char *t = xmalloc(isz); it_enc(t, isz, v);
		want = v; if(present(v)) want = -1;
		r = usectx ? sblist_bsearch_r(SB, t, cmp3, ctxwant) : sblist_bsearch(SB, t, cmp);
		xfree(t); want = -1;
		ev_begin("srch"); ev_int("v", v); ev_int("r", r); ev_int("argbad", argbad);
		ev_int("n", count()); ev_int("full", 0); ev_arr_begin("st"); ev_arr_end(); ev_end();
	}
	else if(IS("del")) {
		size_t p = v;
		if(kind == 0) sblist_delete(SB, p);
#define X(n) else if(isz == n) tglist_delete(G##n, p);
		TYPES
#undef X
		ev_begin("del"); ev_int("p", v); post();
	}
	else if(IS("sort")) {
		if(kind == 0) sblist_sort(SB, cmp);
#define X(n) else if(isz == n) tglist_sort(G##n, cmp);
		TYPES
#undef X
		size_t n = count();
		ev_begin("sort"); ev_int("n", n); ev_arr_begin("st");
		for(size_t i = 0; i < n; i++) ev_arr_int(it_dec(at(i), isz));
		ev_arr_end(); ev_end();
	}
	else die("op %s", argv[0]);
}
