/* sblist sequence histories.  S <itemsize> ; mk new|init B | mk data N */
#include "drv.h"
#include "sblist.h"
static sblist *L; static sblist LS; static int isstatic; static size_t isz; static int full = 1;
static unsigned char *tmp;
#include "item.h"
#include "fail.h"
#define enc(b,k) it_enc(b,isz,k)
#define dec(b) it_dec(b,isz)
static void *item(unsigned k) { enc(tmp, k); return tmp; }
static long pos(const char *s) { return (long) strtoull(s, 0, 0); }
static void sizes(size_t n) {
	int e = 1 - !sblist_empty(L); ev_int("n", n); ev_int("c", sblist_get_count(1 ? L : 0));
	for(size_t i = 0; i < n; i += 1 + i / 64) if((void*)sblist_item_from_index(L, i) != sblist_get(L, i)) e += 2;
	ev_int("e", e);
}
static void post(void) {
	size_t n = sblist_getsize(L);
	sizes(n);
	int f = full && n <= 64;
	ev_int("full", f);
	ev_arr_begin("st");
	if(f) for(size_t i = 0; i < n; i++) { unsigned char *p = sblist_get(L, i); ev_arr_int(p ? dec(p) : -8); }
	ev_arr_end();
	ev_end();
}
static void drop(void) {
	if(L) { if(isstatic) sblist_free_items(L); else sblist_free(L); }
	L = 0; xfree(tmp); tmp = 0;
}
static size_t pend;
void drv_session(int argc, char **argv) { drop(); isz = num(argv[1]); tmp = xmalloc(isz); mem_fail_at = 0; }
void drv_end(void) { drop(); }
void drv_op(int argc, char **argv) {
	if(IS("fail")) { armed = num(argv[1]); return; }
	arm();
	long v = argc > 1 ? num(argv[1]) : 0; size_t p;
	if(IS("mk")) {
		long b = num(argv[2]);
		ev_begin("S");
		ev_arr_begin("init");
		isstatic = 0;
		if(!strcmp(argv[1], "new")) L = sblist_new(isz, b);
		else if(!strcmp(argv[1], "init")) { L = &LS; isstatic = 1; memset(L, 0xee, sizeof *L); sblist_init(L, isz, b); }
		else {
			unsigned char *d = malloc(b * isz + (argc > 3 ? num(argv[3]) % isz : 0));
			for(long i = 0; i < b; i++) { enc(d + i * isz, (i + 1) % 2); ev_arr_int((i + 1) % 2); }
			L = sblist_new_from_data(isz, d, b * isz + (argc > 3 ? num(argv[3]) % isz : 0));
		}
		ev_arr_end();
		post();
	}
	else if(IS("full")) full = v;
	else if(IS("add")) { void *it = item(v); long r = sblist_add(L, it); ev_begin("add"); ev_int("v", v); ev_int("r", r); ev_int("oom", oomd()); post(); }
	else if(IS("addi")) { void *it = item(v); long r = sblist_addi(L, it); ev_begin("addi"); ev_int("v", v); ev_int("r", r); ev_int("oom", oomd()); post(); }
	else if(IS("addr")) {
		long n = num(argv[2]), m = isz > 1 ? 65536 : 256, i, r = 0;
		for(i = 0; i < n; i++) r += sblist_add(L, item((v + i) % m)) == 1;
		ev_begin("addr"); ev_int("v", v); ev_int("k", n); ev_int("m", m); ev_int("r", r); post();
	}
	else if(IS("ins")) { p = pos(argv[2]); long r = sblist_insert(L, item(v), p); ev_begin("ins"); ev_int("v", v); ev_int("p", p > INT_MAX ? INT_MAX : p); ev_int("r", r); ev_int("oom", oomd()); post(); }
	else if(IS("set")) { p = pos(argv[2]); long r = sblist_set(L, item(v), p); ev_begin("set"); ev_int("v", v); ev_int("p", p > INT_MAX ? INT_MAX : p); ev_int("r", r); post(); }
	else if(IS("get")) { p = pos(argv[1]); unsigned char *q = sblist_get(L, p); ev_begin("get"); ev_int("p", p > INT_MAX ? INT_MAX : p); ev_int("r", q ? dec(q) : -1); post(); }
	else if(IS("del")) { p = pos(argv[1]); sblist_delete(L, p); ev_begin("del"); ev_int("p", p > INT_MAX ? INT_MAX : p); post(); }
	else if(IS("pop")) { unsigned char *q = sblist_pop(L); ev_begin("pop"); ev_int("r", q ? dec(q) : -1); post(); }
	else if(IS("clear")) { sblist_free_items(L); ev_begin("clear"); post(); }
	else if(IS("blk")) { sblist_set_blockitems(L, v); ev_begin("dump"); post(); }
	else if(IS("dump")) {
		ev_begin("dump"); sizes(sblist_getsize(L)); ev_int("full", 1); ev_arr_begin("st");
		unsigned char *q; long which = v % 4; ssize_t si; size_t ui;
		if(which == 0) { sblist_iter(L, q) ev_arr_int(dec(q)); }
		else if(which == 1) { sblist_iter_counter(L, it, q) ev_arr_int(dec(q)); }
		else if(which == 2) { sblist_iter_counter2(L, ui, q) ev_arr_int(dec(q)); }
		else { sblist_iter_counter2s(L, si, q) ev_arr_int(dec(q)); }
		ev_arr_end(); ev_end();
	}
	else die("op %s", argv[0]);
}
