/* Ownership: containers of pointers to heap payloads.  Kinds: sb tg tgi tl bm hb hl.
 * After every operation the event lists the payloads still allocated, the
 * frees of anything not allocated, and the number of other live blocks. */
#include "drv.h"
#include "sblist.h"
#include "tlist.h"
#include "hashlist.h"
#include "tglist.h"
#include "tgilist.h"
#include "bmap.h"
#include "hbmap.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "filelist.h"
typedef char *pp;
static char kind[8]; static int dyn;
static sblist *SB, SBs; static tlist *TL; static hashlist *HL;
static tglist(pp) *TG, TGs; static tgilist(pp, unsigned) *TI, TIs;
static bmap(pp, pp) *BM, BMs; static hbmap(pp, pp, 3) *HB, HBs;
static struct { void *p; long serial; } pay[400000]; static int np;
static long B0, F0, armed;
#define K(s) (!strcmp(kind, s))
static int cmp(const void *a, const void *b) { return strcmp(*(pp*)a, *(pp*)b); }
static unsigned hsh(const pp s) { unsigned h = 0; for(char *q = s; *q; q++) h = h * 31 + *q; return h; }
static long idof(void *p) { for(int i = np; i-- > 0;) if(pay[i].p == p && mem_id(p) == pay[i].serial) return i + 1; return 0; }
static long mk(const char *txt) { char *p = malloc(24); snprintf(p, 24, "%s", txt); pay[np].p = p; pay[np].serial = mem_id(p); return ++np; }
static void begin(void) { B0 = mem_badfree; F0 = mem_failed; mem_fail_at = armed; armed = 0; }
static void called(void) { mem_fail_at = 0; }
static void fin(void) {
	long alive = 0;
	ev_arr_begin("live"); for(int i = 0; i < np; i++) if(mem_id(pay[i].p) && mem_id(pay[i].p) == pay[i].serial) { ev_arr_int(i + 1); alive++; } ev_arr_end();
	ev_int("bad", mem_badfree - B0); ev_int("int", mem_live - alive); ev_int("oom", mem_failed > F0); ev_end();
}
static int open_;
static void dropit(int f, int deep) {
	if(K("sb")) { if(f) sblist_free_values(SB); if(dyn) sblist_free(SB); else sblist_free_items(SB); }
	else if(K("tl")) { if(f) TL = tlist_free_deep(TL); else TL = tlist_free(TL); }
	else if(K("hl")) hashlist_free(HL);
	else if(K("tg")) { if(f) { tglist_free_values(TG) } if(dyn) tglist_free(TG); else tglist_free_items(TG); }
	else if(K("tgi")) { if(f) { tgilist_free_values(TI) } if(dyn) tgilist_free(TI); else tgilist_free_items(TI); }
	else if(K("bm")) { bmap_fini(BM, f); if(dyn) free(BM); }
	else if(K("hb")) { hbmap_fini(HB, f); if(dyn) free(HB); }
	open_ = 0;
}
static void drop(void) { if(open_) dropit(0, 0); }
void drv_end(void) { drop(); }
static int mkcont(void) {
	void *r = 0;
	if(K("sb")) { if(dyn) r = SB = sblist_new(sizeof(pp), dyn - 1); else { r = SB = &SBs; sblist_init(SB, sizeof(pp), 3); } }
	else if(K("tl")) r = TL = tlist_new(sizeof(pp));
	else if(K("hl")) r = HL = hashlist_new(dyn > 1 ? dyn : 5, sizeof(pp));
	else if(K("tg")) { if(dyn) r = TG = tglist_new(); else { r = TG = &TGs; tglist_init(TG); } }
	else if(K("tgi")) { if(dyn) r = TI = tgilist_new(); else { r = TI = &TIs; tgilist_init(TI); } }
	else if(K("bm")) { if(dyn) r = BM = bmap_new(cmp); else { r = BM = &BMs; bmap_init(BM, cmp); } }
	else if(K("hb")) { if(dyn) r = HB = hbmap_new(cmp, hsh, 3); else { r = HB = &HBs; hbmap_init(HB, cmp, hsh); } }
	else die("kind %s", kind);
	return r != 0;
}
void drv_session(int argc, char **argv) {
	drop(); mem_reset(); np = 0; armed = 0; B0 = F0 = 0;
	snprintf(kind, sizeof kind, "%s", argv[1]); dyn = num(argv[2]);
	open_ = mkcont();
#ifdef BMAP_USE_TGILIST
	int it = K("tgi") || K("bm") || K("hb");
#else
	int it = K("tgi");
#endif
	ev_begin("S"); ev_int("it", it); fin();
}
static size_t size(void) { return K("sb") ? sblist_getsize(SB) : K("tl") ? tlist_getsize(TL) : K("tg") ? tglist_getsize(TG) : K("tgi") ? tgilist_getsize(TI) : K("bm") ? bmap_getsize(BM) : 0; }
static void *at(size_t i) { return K("sb") ? *(pp*)sblist_get(SB, i) : K("tl") ? *(pp*)tlist_get(TL, i) : K("tg") ? tglist_get(TG, i) : K("tgi") ? tgilist_get(TI, i) : K("bm") ? bmap_getval(BM, i) : 0; }
void drv_op(int argc, char **argv) {
	if(IS("fail")) { armed = num(argv[1]); return; }
	if(IS("ctor")) {   /* constructor while memory runs out, then normally */
		dropit(0, 0); begin(); int r = mkcont(); called(); ev_begin("ctor"); ev_int("r", r); 
		if(!r) open_ = mkcont(); else open_ = 1;
		fin(); return;
	}
	if(IS("put")) {    /* put KEY POS */
		long k = 0, v = mk("v"), old = 0, newkey = 0, r; char *vp = pay[v - 1].p, *kp = 0; size_t pos = num(argv[2]) % (size() + 1);
		if(K("bm") || K("hb")) { char t[20]; snprintf(t, 20, "k%s", argv[1]); k = mk(t); kp = pay[k - 1].p;
			char **o; if(K("bm")) o = bmap_get(BM, kp); else o = hbmap_get(HB, kp);
			old = o ? idof(*o) : 0; newkey = !o;
		}
		begin();
		if(K("sb")) r = num(argv[1]) % 2 ? sblist_add(SB, &vp) : sblist_insert(SB, &vp, pos);
		else if(K("tl")) r = num(argv[1]) % 2 ? tlist_append(TL, &vp) : tlist_insert(TL, pos, &vp);
		else if(K("hl")) r = hashlist_add(HL, num(argv[1]) * 2654435761u, &vp) == 0;
		else if(K("tg")) r = num(argv[1]) % 2 ? tglist_add(TG, vp) : tglist_insert(TG, vp, pos);
		else if(K("tgi")) r = num(argv[1]) % 2 ? tgilist_add(TI, vp) : tgilist_insert(TI, vp, pos);
		else if(K("bm")) r = bmap_insert(BM, kp, vp) != -1;
		else r = hbmap_insert(HB, kp, vp) != (hbmap_iter)-1;
		called();
		ev_begin("put"); ev_int("k", k); ev_int("v", v); ev_int("old", old); ev_int("newkey", newkey); ev_int("r", r); fin();
	} else if(IS("many")) {    /* that many values (maps: under new keys in ascending order), at the end */
		long n = num(argv[1]), i, r = 1, p0 = np; begin();
		for(i = 0; i < n; i++) {
			char *kp = 0, *vp; if(K("bm") || K("hb")) { char t[20]; snprintf(t, 20, "m%08ld", (long)np); kp = pay[mk(t) - 1].p; }
			vp = pay[mk("v") - 1].p;
			r &= K("sb") ? sblist_add(SB, &vp) : K("tl") ? tlist_append(TL, &vp) : K("hl") ? hashlist_add(HL, i * 2654435761u, &vp) == 0 : K("tg") ? tglist_add(TG, vp) : K("tgi") ? tgilist_add(TI, vp)
				: K("bm") ? bmap_insert(BM, kp, vp) != -1 : hbmap_insert(HB, kp, vp) != (hbmap_iter)-1;
		}
		called(); ev_begin("many"); ev_int("from", p0 + 1); ev_int("to", np); ev_int("keyed", K("bm") || K("hb")); ev_int("r", r); fin();
	} else if(IS("set")) {
		if(!size()) return;
		size_t i = num(argv[1]) % size(); long v = mk("w"), old = idof(at(i)); char *vp = pay[v - 1].p; begin();
		if(K("sb")) sblist_set(SB, &vp, i); else if(K("tg")) tglist_set(TG, vp, i); else if(K("tgi")) tgilist_set(TI, vp, i); else if(K("bm")) bmap_setvalue(BM, vp, i); else *(pp*)tlist_get(TL, i) = vp;
		called(); ev_begin("put"); ev_int("k", 0); ev_int("v", v); ev_int("old", old); ev_int("newkey", 0); ev_int("r", 1); fin();
	} else if(IS("del") || IS("deld") || IS("pop")) {
		long k = 0, v = 0; int deep = IS("deld");
		if(K("hb")) {
			hbmap_iter it; long n = num(argv[1]); int f = 0; hbmap_foreach(HB, it) { if(n-- == 0) { f = 1; break; } } if(!f) return;
			k = idof(hbmap_getkey(HB, it)); v = idof(hbmap_getval(HB, it)); begin(); hbmap_delete(HB, it); called();
		} else {
			if(!size()) return;
			size_t i = IS("pop") ? size() - 1 : num(argv[1]) % size(); v = idof(at(i)); if(K("bm")) k = idof(bmap_getkey(BM, i));
			begin();
			if(K("sb")) { if(IS("pop")) sblist_pop(SB); else sblist_delete(SB, i); }
			else if(K("tl")) { if(deep) tlist_delete_deep(TL, i); else tlist_delete(TL, i); }
			else if(K("tg")) tglist_delete(TG, i); else if(K("tgi")) tgilist_delete(TI, i); else bmap_delete(BM, i);
			called();
		}
		ev_begin("del"); ev_int("k", k); ev_int("v", v); ev_int("deep", deep); fin();
	} else if(IS("pfree")) {  /* the program frees a payload it took back */
		long i = num(argv[1]); if(i < 1 || i > np || mem_id(pay[i - 1].p) != pay[i - 1].serial) return;
		begin(); free(pay[i - 1].p); called(); ev_begin("pfree"); ev_int("i", i); fin();
	} else if(IS("clear")) {  /* tlist_free_items / _deep, sblist_free_items */
		int deep = num(argv[1]); begin();
		if(K("tl")) { if(deep) tlist_free_items_deep(TL); else tlist_free_items(TL); }
		else if(K("sb")) { if(deep) sblist_free_values(SB); sblist_free_items(SB); }
		else if(K("tg")) { if(deep) { tglist_free_values(TG) } else return; }
		else return;
		called(); ev_begin("clear"); ev_int("deep", deep); fin();
	} else if(IS("drop")) {
		int f = num(argv[1]); if(!(K("bm") || K("hb"))) f = f ? 2 : 0;
		begin(); dropit(f, 0); called(); ev_begin("drop"); ev_int("f1", f & 1); ev_int("f2", f >> 1 & 1); fin();
		open_ = mkcont();
	} else if(IS("flist")) {
		filelist fl; memset(&fl, 0, sizeof fl); stringptr d = { argv[1], strlen(argv[1]) }, m = { argv[2], strlen(argv[2]) }; long l0 = mem_live;
		begin(); int r = filelist_search(&fl, &d, &m, num(argv[3])); called();
		long cnt = r ? -1 : (long)stringptrlist_getsize(fl.files);
		if(!r) filelist_free(&fl);
		ev_begin("flist"); ev_int("r", r); ev_int("cnt", cnt); ev_int("leak", mem_live - l0); fin();
	} else die("op %s", argv[0]);
}
