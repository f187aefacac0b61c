/* tglist / tgilist sequence histories.
 * S tg <type> <dyn> | S tgi <type> <idx> <dyn> */
#include "drv.h"
#include "tglist.h"
#include "tgilist.h"
#include "item.h"
#include "fail.h"
typedef struct { unsigned char b[1]; } s1; typedef struct { unsigned char b[3]; } s3; typedef struct { unsigned char b[12]; } s12;
typedef struct { unsigned char b[40]; } s40; typedef struct { int a; char *p; double d; } sm; typedef struct { unsigned char b[300]; } s300;
typedef char *cptr; typedef double dbl; typedef unsigned long long ull; typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32;
static const char *tname, *iname; static int dyn, full, active;
/* scalars whose bytes may be changed by assignment (padding, NaN) are avoided: sm is encoded by field */
static void encsm(sm *o, unsigned v) { memset(o, 0, sizeof *o); o->a = v; o->p = (char*)(uintptr_t)(v * 7919ul + 3); o->d = v * 0.5 + 1; }
static long decsm(const sm *o) { long v = o->a; return o->p == (char*)(uintptr_t)(v * 7919ul + 3) && o->d == v * 0.5 + 1 ? v : -7; }
static void encd(double *o, unsigned v) { *o = v * 0.25 - 3; }
static long decd(const double *o) { double x = (*o + 3) * 4; return x >= 0 && x < 1e9 && (long)x == x ? (long)x : -7; }
#define ENC(T, o, v) do { if(!strcmp(#T, "sm")) encsm((void*)(o), v); else if(!strcmp(#T, "dbl")) encd((void*)(o), v); else it_enc(o, sizeof *(o), v); } while(0)
#define DEC(T, o) (!strcmp(#T, "sm") ? decsm((void*)(o)) : !strcmp(#T, "dbl") ? decd((void*)(o)) : it_dec(o, sizeof *(o)))
#define TTYPES X(s1) X(s3) X(s12) X(s40) X(sm) X(s300) X(cptr) X(dbl) X(ull) X(u8) X(u16) X(u32)
#define ITYPES X(sm, u8) X(sm, u16) X(sm, u32) X(sm, size_t) X(s300, u8) X(s300, u16) X(u32,u16) X(u32,u32) X(s40, u8) X(s3, u32) X(ull, size_t) X(cptr, u8) X(dbl, int) X(s12, short)
#define X(T) static tglist(T) *G_##T, GS_##T;
TTYPES
#undef X
#define X(T, I) static tgilist(T, I) *I_##T##_##I, IS_##T##_##I;
ITYPES
#undef X
static void drop(void) {
	if(!active) return;
	active = 0;
#define X(T) if(!iname && !strcmp(tname, #T)) { if(dyn) tglist_free(G_##T); else tglist_free_items(G_##T); }
	TTYPES
#undef X
#define X(T, I) if(iname && !strcmp(tname, #T) && !strcmp(iname, #I)) { if(dyn) tgilist_free(I_##T##_##I); else tgilist_free_items(I_##T##_##I); }
	ITYPES
#undef X
}
void drv_end(void) { drop(); }
static void post_common(size_t n, int f) {
	ev_int("n", n); ev_int("full", f);
	/* every way to ask for the size and for emptiness, as operands too */
#define X(T) if(!iname && !strcmp(tname, #T)) { ev_int("c", tglist_get_count(G_##T)); ev_int("e", 1 - !tglist_empty(G_##T) + 2 * (tglist_itemsize(G_##T) != sizeof(T)) + 4 * (tglist_get_count(1 ? G_##T : 0) - n)); }
	TTYPES
#undef X
#define X(T, I) if(iname && !strcmp(tname, #T) && !strcmp(iname, #I)) { ev_int("c", tgilist_getsize(1 ? I_##T##_##I : 0)); ev_int("e", 1 - !tgilist_empty(I_##T##_##I) + 2 * (tgilist_itemsize(I_##T##_##I) != sizeof(T))); }
	ITYPES
#undef X
	ev_arr_begin("st");
}
static void post(void) {
#define X(T) if(!iname && !strcmp(tname, #T)) { size_t n = tglist_getsize(G_##T); int f = full && n <= 64; post_common(n, f); if(f) for(size_t i = 0; i < n; i++) ev_arr_int(DEC(T, &tglist_get(G_##T, i))); }
	TTYPES
#undef X
#define X(T, I) if(iname && !strcmp(tname, #T) && !strcmp(iname, #I)) { size_t n = tgilist_getsize(I_##T##_##I); int f = full && n <= 64; post_common(n, f); if(f) for(size_t i = 0; i < n; i++) ev_arr_int(DEC(T, &tgilist_get(I_##T##_##I, i))); }
	ITYPES
#undef X
	ev_arr_end(); ev_end();
}
void drv_session(int argc, char **argv) {
	mem_fail_at = armed = 0;
	drop();
	static char a[32], b[32]; int ok = 0;
	snprintf(a, 32, "%s", argv[2]); tname = a; iname = 0;
	if(!strcmp(argv[1], "tgi")) { snprintf(b, 32, "%s", argv[3]); iname = b; dyn = num(argv[4]); } else dyn = num(argv[3]);
#define X(T) if(!iname && !strcmp(tname, #T)) { ok = 1; if(dyn) G_##T = tglist_new(); else { G_##T = &GS_##T; memset(G_##T, 0xee, sizeof *G_##T); tglist_init(G_##T); } }
	TTYPES
#undef X
#define X(T, I) if(iname && !strcmp(tname, #T) && !strcmp(iname, #I)) { ok = 1; if(dyn) I_##T##_##I = tgilist_new(); else { I_##T##_##I = &IS_##T##_##I; memset(I_##T##_##I, 0xee, sizeof *I_##T##_##I); tgilist_init(I_##T##_##I); } }
	ITYPES
#undef X
	if(!ok) die("type %s %s", tname, iname ? iname : "");
	active = 1; full = 1;
	ev_begin("S"); ev_arr_begin("init"); ev_arr_end(); post();
}
static unsigned tgl; /* positions at the end alternate between a value and an expression on the list */
void drv_op(int argc, char **argv) {
	if(IS("fail")) { armed = num(argv[1]); return; }
	arm();
	long v = argc > 1 ? num(argv[1]) : 0, r = -5; size_t p = argc > 2 ? num(argv[2]) : 0;
	if(IS("full")) { full = v; return; }
	if(IS("get") || IS("del")) p = v;
	if(IS("addr")) {
		long n = num(argv[2]), m = num(argv[3]); r = 0;
		for(long i = 0; i < n; i++) {
			long w = (v + i) % m;
#define X(T) if(!iname && !strcmp(tname, #T)) { T o; ENC(T, &o, w); r += tglist_add(G_##T, o) == 1; }
			TTYPES
#undef X
#define X(T, I) if(iname && !strcmp(tname, #T) && !strcmp(iname, #I)) { T o; ENC(T, &o, w); r += tgilist_add(I_##T##_##I, o) == 1; }
			ITYPES
#undef X
		}
		ev_begin("addr"); ev_int("v", v); ev_int("k", n); ev_int("m", m); ev_int("r", r); post(); return;
	}
#define X(T) if(!iname && !strcmp(tname, #T)) { T o; ENC(T, &o, v); \
		if(IS("add")) r = tglist_add(G_##T, o); \
		else if(IS("ins")) r = p == tglist_getsize(G_##T) && tgl++ % 2 ? tglist_insert(G_##T, o, tglist_getsize(G_##T)) : tglist_insert(G_##T, o, p); \
		else if(IS("set")) r = tglist_set(G_##T, o, p); \
		else if(IS("get")) r = DEC(T, &tglist_get(G_##T, p)); \
		else if(IS("del")) if(p + 1 == tglist_getsize(G_##T) && tgl++ % 2) tglist_delete(G_##T, tglist_getsize(G_##T) - 1); else tglist_delete(G_##T, p); \
		else if(IS("clear")) while(!tglist_empty(G_##T)) tglist_delete(G_##T, tglist_getsize(G_##T) - 1); \
		else if(IS("dump")) { ev_begin("dump"); post_common(tglist_getsize(G_##T), 1); size_t i; tglist_foreach(G_##T, i) ev_arr_int(DEC(T, &tglist_get(G_##T, i))); ev_arr_end(); ev_end(); return; } \
		else die("op %s", argv[0]); }
	TTYPES
#undef X
#define X(T, I) if(iname && !strcmp(tname, #T) && !strcmp(iname, #I)) { T o; ENC(T, &o, v); \
		if(IS("add")) r = tgilist_add(I_##T##_##I, o); \
		else if(IS("ins")) r = p == tgilist_getsize(I_##T##_##I) && tgl++ % 2 ? tgilist_insert(I_##T##_##I, o, tgilist_getsize(I_##T##_##I)) : tgilist_insert(I_##T##_##I, o, p); \
		else if(IS("set")) r = tgilist_set(I_##T##_##I, o, p); \
		else if(IS("get")) r = DEC(T, &tgilist_get(I_##T##_##I, p)); \
		else if(IS("del")) if(p + 1 == tgilist_getsize(I_##T##_##I) && tgl++ % 2) tgilist_delete(I_##T##_##I, tgilist_getsize(I_##T##_##I) - 1); else tgilist_delete(I_##T##_##I, p); \
		else if(IS("clear")) while(!tgilist_empty(I_##T##_##I)) tgilist_delete(I_##T##_##I, 0); \
		else if(IS("dump")) { size_t n = tgilist_getsize(I_##T##_##I); ev_begin("dump"); post_common(n, 1); for(size_t i = 0; i < n; i++) ev_arr_int(DEC(T, &tgilist_get(I_##T##_##I, i))); ev_arr_end(); ev_end(); return; } \
		else die("op %s", argv[0]); }
	ITYPES
#undef X
	ev_begin(argv[0]);
	if(IS("get") || IS("del")) ev_int("p", p);
	else if(!IS("clear")) { ev_int("v", v); if(!IS("add")) ev_int("p", p); if(!IS("set")) ev_int("oom", oomd()); }
	if(!IS("del") && !IS("clear")) ev_int("r", r);
	post();
}
