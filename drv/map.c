/* bmap / hbmap histories.  S b <type> <rev> <dyn> | S h <nbuck> <hash> <rev> */
#include "drv.h"
#include "bmap.h"
#include "hbmap.h"
#include "item.h"
typedef struct { unsigned char b[24]; } v24; typedef struct { unsigned char b[12]; } k12; typedef struct { unsigned char b[300]; } v300;
typedef unsigned char u8; typedef const char *cs; typedef unsigned long long ull;
static int rev, full, which, dyn, hb; static int active;
/* string keys: one interned copy per number */
static char *strs[200000];
static cs skey(long k) { if(!strs[k]) { char t[20]; snprintf(t, 20, "k%06ld", k); strs[k] = xstrdup(t); } return strs[k]; }
static int cmpint(const void *a, const void *b) { int x = *(int*)a, y = *(int*)b; return rev ? (y > x) - (y < x) : (x > y) - (x < y); }
static int cmpstr(const void *a, const void *b) { int r = strcmp(*(cs*)a, *(cs*)b); return rev ? -r : r; }
static int cmpk12(const void *a, const void *b) { long x = it_dec(a, 12), y = it_dec(b, 12); int r = (x > y) - (x < y); return (rev ? -r : r) * 1000; }
static bmap(int, int) *B0, B0s; static bmap(cs, v24) *B1, B1s; static bmap(k12, ull) *B2, B2s; static bmap(int, v300) *B3, B3s; static bmap(cs, u8) *B4, B4s;
static unsigned hident(const int k) { return k; }
static unsigned hzero(const int k) { return 0; }
static unsigned hmax(const int k) { return 0xffffffffu - k; }
static unsigned hmul(const int k) { return k * 2654435761u; }
static unsigned hmod(const int k) { return k % 3 == 0 ? 5 : 63; }
typedef unsigned (*hf)(const int);
static hf hfs[] = { hident, hzero, hmax, hmul, hmod };
static hbmap(int, v24, 1) H1s; static hbmap(int, v24, 2) H2s; static hbmap(int, v24, 3) H3s; static hbmap(int, v24, 7) H7s; static hbmap(int, v24, 64) H64s; static hbmap(int, v24, 70000) H70000s;
static void *H;
#define HT X(1) X(2) X(3) X(7) X(64) X(70000)
static unsigned hstr(const char *s) { unsigned h = 5381; while(*s) h = h * 33 + (unsigned char)*s++; return h; }
static hbmap(char*, ull, 5) *HS;
static int cmpcs(const void *a, const void *b) { return strcmp(*(char**)a, *(char**)b); }
#define BT X(0, int, int) X(1, cs, v24) X(2, k12, ull) X(3, int, v300) X(4, cs, u8)
#define MKK(T, var, k) T var; if(!strcmp(#T, "int")) *(int*)&var = k; else if(!strcmp(#T, "cs")) *(cs*)&var = skey(k); else it_enc(&var, sizeof var, k)
#define GETK(T, p) (!strcmp(#T, "int") ? *(int*)(p) : !strcmp(#T, "cs") ? atol(*(cs*)(p) + 1) : it_dec(p, sizeof *(p)))
static void drop(void) {
	if(!active) return; active = 0;
	if(hb) {
		if(which == 5) { hbmap_fini(HS, 0); free(HS); return; }
#define X(n) if(which == n) { if(dyn) { __typeof__(H##n##s) *h = H; hbmap_fini(h, 0); free(h); } else hbmap_fini(&H##n##s, 0); }
		HT
#undef X
	} else {
#define X(n, K, V) if(which == n) { bmap_fini(B##n, 0); if(dyn) free(B##n); }
		BT
#undef X
	}
}
void drv_end(void) { drop(); }
void drv_session(int argc, char **argv) {
	drop();
	hb = argv[1][0] == 'h'; full = 1;
	if(!hb) {
		which = num(argv[2]); rev = num(argv[3]); dyn = num(argv[4]);
#define X(n, K, V) if(which == n) { bmap_compare_func f = !strcmp(#K, "int") ? cmpint : !strcmp(#K, "cs") ? cmpstr : cmpk12; if(dyn) B##n = bmap_new(f); else { B##n = &B##n##s; memset(B##n, 0xee, sizeof *B##n); bmap_init(B##n, f); } }
		BT
#undef X
	} else {
		which = num(argv[2]); rev = num(argv[4]); dyn = argc > 5 ? num(argv[5]) : 0;
		hf f = hfs[num(argv[3])];
		if(which == 5) { HS = hbmap_new(cmpcs, hstr, 5); }
#define X(n) if(which == n) { if(dyn) H = hbmap_new(cmpint, f, n); else { memset(&H##n##s, 0xee, sizeof H##n##s); hbmap_init(&H##n##s, cmpint, f); H = &H##n##s; } }
		HT
#undef X
	}
	active = 1; int meta = 0;   /* a new map is empty and knows its types */
	if(!hb) {
#define X(n, K, V) if(which == n) meta = bmap_getkeysize(B##n) == sizeof(K) && bmap_getvalsize(B##n) == sizeof(V) && 2 * bmap_getkeysize(B##n) == 2 * sizeof(K) && bmap_getsize(1 ? B##n : 0) == 0;
		BT
#undef X
	} else {
		if(which == 5) meta = hbmap_getbucketcount(HS) == 5 && hbmap_getkeysize(HS) == sizeof(char*) && hbmap_getvalsize(HS) == sizeof(ull);
#define X(n) if(which == n) meta = hbmap_getbucketcount(&H##n##s) == n && hbmap_getkeysize(&H##n##s) == sizeof(int) && hbmap_getvalsize(&H##n##s) == sizeof(v24) && 10 / hbmap_getbucketcount(&H##n##s) == 10 / n;
		HT
#undef X
	}
	ev_begin("S"); ev_int("rev", rev); ev_int("meta", meta); ev_end();
}
static unsigned tgl; /* deletes alternate between an index and a find expression */
static void post(int force) {
#define X(n, K, V) if(which == n) { size_t c = bmap_getsize(B##n); int f = force || (full && c <= 40); ev_int("n", c); ev_int("full", f); \
	ev_arr_begin("ks"); if(f) for(size_t i = 0; i < c; i++) ev_arr_int(GETK(K, &bmap_getkey(B##n, i))); ev_arr_end(); \
	ev_arr_begin("vs"); if(f) for(size_t i = 0; i < c; i++) ev_arr_int(it_dec(&bmap_getval(B##n, i), sizeof(V))); ev_arr_end(); }
	BT
#undef X
	ev_end();
}
static void hpost(int f) {
	static int ks[300000], vs[300000]; size_t c = 0; hbmap_iter it;
	if(!full && !f) { ev_int("full", 0); ev_arr_begin("ks"); ev_arr_end(); ev_arr_begin("vs"); ev_arr_end(); ev_end(); return; }
	if(which == 5) { hbmap_foreach(HS, it) { if(c >= 300000) break; ks[c] = atol(hbmap_getkey(HS, it) + 1); vs[c++] = it_dec(&hbmap_getval(HS, it), 8); } }
#define X(n) if(which == n) { __typeof__(H##n##s) *h = H; hbmap_foreach(h, it) { if(c >= 300000) break; ks[c] = hbmap_getkey(h, it); vs[c++] = it_dec(&hbmap_getval(h, it), 24); } }
	HT
#undef X
	ev_int("full", 1);
	ev_arr_begin("ks"); for(size_t i = 0; i < c; i++) ev_arr_int(ks[i]); ev_arr_end();
	ev_arr_begin("vs"); for(size_t i = 0; i < c; i++) ev_arr_int(vs[i]); ev_arr_end();
	ev_end();
}
void drv_op(int argc, char **argv) {
	long k = argc > 1 ? num(argv[1]) : 0, v = argc > 2 ? num(argv[2]) : 0, r = -5; size_t p;
	long failn = argc > 3 && argv[3][0] == '!' ? num(argv[3] + 1) : 0, f0 = mem_failed;
	if(IS("full")) { full = k; return; }
	if(!hb) {
		p = !strcmp(argv[0], "setp") ? v : k;
#define X(n, K, V) if(which == n) { \
		if(IS("ins") || IS("insn")) { MKK(K, kk, k); V vv; it_enc(&vv, sizeof vv, v); mem_fail_at = failn; r = IS("ins") ? bmap_insert(B##n, kk, vv) : bmap_insert_nocheck(B##n, kk, vv); mem_fail_at = 0; } \
		else if(IS("insr")) { long c = num(argv[3]), st = num(argv[4]); r = 0; for(long i = 0; i < c; i++) { MKK(K, kk, k + i * st); V vv; it_enc(&vv, sizeof vv, v + i); r += bmap_insert(B##n, kk, vv) != -1; } } \
		else if(IS("find")) { MKK(K, kk, k); r = bmap_find(B##n, kk); } \
		else if(IS("has")) { MKK(K, kk, k); r = bmap_contains(B##n, kk); } \
		else if(IS("get")) { MKK(K, kk, k); V *q = bmap_get(B##n, kk); r = q ? it_dec(q, sizeof *q) : -1; } \
		else if(IS("setp")) { V vv; it_enc(&vv, sizeof vv, k); bmap_setvalue(B##n, vv, p); } \
		else if(IS("delp")) { if(tgl++ & 1) { K kk; memcpy(&kk, &bmap_getkey(B##n, p), sizeof kk); bmap_delete(B##n, bmap_find(B##n, kk)); } else bmap_delete(B##n, p); } \
		else if(!IS("dump")) die("op %s", argv[0]); }
		BT
#undef X
		ev_begin(argv[0]);
		if(IS("ins") || IS("insn")) { ev_int("k", k); ev_int("v", v); ev_int("r", r); ev_int("oom", mem_failed > f0); }
		else if(IS("insr")) { ev_int("k", k); ev_int("v", v); ev_int("cnt", num(argv[3])); ev_int("step", num(argv[4])); ev_int("r", r); }
		else if(IS("setp")) { ev_int("v", k); ev_int("p", p); }
		else if(IS("delp")) ev_int("p", p);
		else if(!IS("dump")) { ev_int("k", k); ev_int("r", r); }
		post(IS("dump"));
		return;
	}
	hbmap_iter it = -1, j; long ik = -1, iv = -1;
#define HOPS(h, KK, VT, GK) { VT vv; it_enc(&vv, sizeof vv, v); KK; \
		if(IS("hins") || IS("hinsn")) { mem_fail_at = failn; it = IS("hins") ? hbmap_insert(h, kk, vv) : hbmap_insert_nocheck(h, kk, vv); mem_fail_at = 0; } \
		else if(IS("hfind")) it = hbmap_find(h, kk); \
		else if(IS("hhas")) r = hbmap_contains(h, kk); \
		else if(IS("hget")) { VT *q = hbmap_get(h, kk); r = q ? it_dec(q, sizeof *q) : -1; } \
		else if(IS("hset")) { j = hbmap_find(h, kk); if(j != (hbmap_iter)-1) hbmap_setvalue(h, vv, j); } \
		else if(IS("hdel")) { j = hbmap_find(h, kk); if(j == (hbmap_iter)-1); else if(tgl++ & 1) hbmap_delete(h, hbmap_find(h, kk)); else hbmap_delete(h, j); } \
		else if(IS("hdelall")) { hbmap_foreach(h, j) { while(hbmap_iter_index_valid(h, j)) hbmap_delete(h, j); } } \
		if(it != (hbmap_iter)-1) { if(!hbmap_iter_valid(h, it)) ik = iv = -3; else { ik = GK(hbmap_getkey(h, it)); iv = it_dec(&hbmap_getval(h, it), sizeof(VT)); } } }
#define GKI(x) (x)
#define GKS(x) atol((x) + 1)
	if(IS("hinsr")) {
		long c = num(argv[3]), st = num(argv[4]), base = v; r = 0;
		for(long i = 0; i < c; i++) {
			if(which == 5) { char *kk = (char*)skey(k + i * st); ull vv; it_enc(&vv, 8, base + i); r += hbmap_insert(HS, kk, vv) != (hbmap_iter)-1; }
#define X(n) if(which == n) { __typeof__(H##n##s) *h = H; int kk = k + i * st; v24 vv; it_enc(&vv, 24, base + i); r += hbmap_insert(h, kk, vv) != (hbmap_iter)-1; }
			HT
#undef X
		}
		ev_begin("hinsr"); ev_int("k", k); ev_int("v", v); ev_int("cnt", c); ev_int("step", st); ev_int("r", r); hpost(0); return;
	}
	if(which == 5) HOPS(HS, char *kk = (char*)skey(k), ull, GKS)
#define X(n) if(which == n) { __typeof__(H##n##s) *h = H; HOPS(h, int kk = k, v24, GKI) }
	HT
#undef X
	ev_begin(argv[0]);
	if(IS("hins") || IS("hinsn")) { ev_int("k", k); ev_int("v", v); ev_int("ik", ik); ev_int("iv", iv); ev_int("oom", mem_failed > f0); }
	else if(IS("hfind")) { ev_int("k", k); ev_int("ik", ik); ev_int("iv", iv); }
	else if(IS("hhas") || IS("hget")) { ev_int("k", k); ev_int("r", r); }
	else if(IS("hset")) { ev_int("k", k); ev_int("v", v); }
	else if(IS("hdel")) ev_int("k", k);
	else if(!IS("hdump") && !IS("hdelall")) die("op %s", argv[0]);
	hpost(IS("hdump") || IS("hdelall"));
}
