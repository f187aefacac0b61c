/* tlist histories.  S <itemsize> */
#include "drv.h"
#include "tlist.h"
#include "item.h"
#include "fail.h"
static tlist *L; static size_t isz; static int full; static long serial;
/* address -> serial of the item currently living there */
struct am { void *p; long s; }; static struct am *am; static size_t amc, amn;
static void amset(void *p, long s);
static size_t amh(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 30; }
static void amgrow(void) {
	struct am *o = am; size_t oc = amc; amc = amc ? amc * 4 : 1024; am = xcalloc(amc, sizeof *am); amn = 0;
	for(size_t i = 0; i < oc; i++) if(o[i].p) amset(o[i].p, o[i].s);
	xfree(o);
}
static void amset(void *p, long s) {
	if(amn * 2 >= amc) amgrow();
	size_t i = amh(p) % amc; while(am[i].p && am[i].p != p) i = (i + 1) % amc;
	if(!am[i].p) amn++; am[i].p = p; am[i].s = s;
}
static long amget(void *p) { if(!amc) return -1; size_t i = amh(p) % amc; while(am[i].p && am[i].p != p) i = (i + 1) % amc; return am[i].p ? am[i].s : -1; }
static void post(int force) {
	size_t n = tlist_getsize(L); int f = force || (full && n <= 64);
	ev_int("n", n); ev_int("full", f);
	ev_arr_begin("st"); if(f) for(size_t i = 0; i < n; i++) { void *p = tlist_get(L, i); ev_arr_int(p ? it_dec(p, isz) : -8); } ev_arr_end();
	ev_arr_begin("ad"); if(f) for(size_t i = 0; i < n; i++) ev_arr_int(amget(tlist_get(L, i))); ev_arr_end();
	ev_end();
}
static void drop(void) { if(L) tlist_free(L); L = 0; xfree(am); am = 0; amc = amn = 0; serial = 0; }
void drv_end(void) { drop(); }
void drv_session(int argc, char **argv) { mem_fail_at = armed = 0; drop(); isz = num(argv[1]); full = 1; L = tlist_new(isz); ev_begin("S"); post(0); }
static long put(long v, size_t p, int app) {
	unsigned char *t = xmalloc(isz); it_enc(t, isz, v);
	long r = app ? tlist_append(L, t) : tlist_insert(L, p, t);
	xfree(t);
	if(r == 1) amset(tlist_get(L, app ? tlist_getsize(L) - 1 : p), ++serial);
	return r;
}
void drv_op(int argc, char **argv) {
	if(IS("fail")) { armed = num(argv[1]); return; }
	arm();
	long v = argc > 1 ? num(argv[1]) : 0, r; size_t p = argc > 2 ? strtoull(argv[2], 0, 0) : 0;
	if(IS("full")) full = v;
	else if(IS("add")) { r = put(v, 0, 1); ev_begin("add"); ev_int("v", v); ev_int("r", r); ev_int("oom", oomd()); ev_int("id", serial); post(0); }
	else if(IS("addr")) { long n = num(argv[2]), m = num(argv[3]), id = serial + 1; r = 0; for(long i = 0; i < n; i++) r += put((v + i) % m, 0, 1) == 1; ev_begin("addr"); ev_int("v", v); ev_int("k", n); ev_int("m", m); ev_int("r", r); ev_int("id", id); post(0); }
	else if(IS("ins")) { r = put(v, p, 0); ev_begin("ins"); ev_int("v", v); ev_int("p", POSARG(p)); ev_int("r", r); ev_int("oom", oomd()); ev_int("id", serial); post(0); }
	else if(IS("get")) { p = strtoull(argv[1], 0, 0); void *q = tlist_get(L, p); r = q ? it_dec(q, isz) : -1; ev_begin("get"); ev_int("p", POSARG(p)); ev_int("r", r); post(0); }
	else if(IS("delr")) { p = strtoull(argv[1], 0, 0); r = tlist_delete(L, p); ev_begin("delr"); ev_int("p", POSARG(p)); ev_int("r", r); post(0); }
	else if(IS("clear")) { tlist_free_items(L); ev_begin("clear"); post(0); }
	else if(IS("dump")) { ev_begin("dump"); post(1); }
	else die("op %s", argv[0]);
}
