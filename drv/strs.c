/* length-counted strings and lists of them.  "S" starts a session with empty
 * lists; "fail n" makes the n-th allocation of the next operation fail.  Every
 * event carries oom (a failure was delivered), leak (blocks gained after the
 * result was released) and bad (frees of something that is not a live block). */
#include "drv.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "kvlist.h"
#include "sptrlist.h"
#include "stringlist.h"
#include "strlib.h"
static long L0, B0, F0, armed;
static long bufs(void);          /* item buffers the lists hold: a failing add may keep the room it made */
static void begin(void) { L0 = mem_live - bufs(); B0 = mem_badfree; F0 = mem_failed; mem_fail_at = armed; armed = 0; }
static void called(void) { mem_fail_at = 0; }
static void fin(void) { ev_int("oom", mem_failed > F0); ev_int("leak", mem_live - bufs() - L0); ev_int("bad", mem_badfree - B0); ev_end(); }
static void ev_sp(const char *k, stringptr *s) {  /* result string: bytes and NUL termination */
	char n[32]; snprintf(n, sizeof n, "%snul", k);
	if(s && s->size > 100000000) { ev_bytes(k, "", 0); ev_int(n, -2); return; }
	ev_bytes(k, s ? s->ptr : "", s ? s->size : 0); ev_int(n, s ? s->ptr[s->size] == 0 : -1);
}
/* view under edit (C13): an exactly sized buffer and a stringptr into it */
static stringptr V; static char *vbuf;
static stringptrlist *L; static kvlist *K; static sptrlist *P, PS; static stringlist *T;
static long bufs(void) { return (L && mem_is_live(L->items)) + (K && mem_is_live(K->items)) + (P && mem_is_live(P->items)) + (T && mem_is_live(T->items)); }
static blob arena[20000]; static char inl[20000]; static int na;
static blob keep(const char *h) { if(na >= 20000) die("arena"); return arena[na++] = unhex(h); }
/* strings stored by reference have no terminator behind them: only the length counts */
static blob keepx(const char *h) { if(na >= 20000) die("arena"); return arena[na++] = unhex_exact(h); }
static void drop(void) {
	xfree(vbuf); vbuf = 0; V.ptr = 0; V.size = 0;
	mem_quiet++;
	if(L) sblist_free(L); if(K) sblist_free(K); if(P == &PS) sptrlist_free_items(P); else if(P) sptrlist_free(P); if(T) sblist_free(T);
	mem_quiet--;
	L = K = P = T = 0;
	while(na) { xfree(arena[--na].p); inl[na] = 0; }
}
void drv_end(void) { drop(); }
void drv_session(int argc, char **argv) {
	drop(); mem_reset(); armed = 0;
	long blk = argc > 1 ? num(argv[1]) : 4;
	L = stringptrlist_new(blk); K = kv_new(blk); T = stringlist_new(blk);
	if(blk & 1) { memset(&PS, 0xee, sizeof PS); P = &PS; sptrlist_init(P, blk); } else P = sptrlist_new(blk);
	ev_begin("S"); ev_end();
}
static int cmpsp(const void *x, const void *y) {
	const stringptr *a = x, *b = y; size_t n = a->size < b->size ? a->size : b->size; int r = n ? memcmp(a->ptr, b->ptr, n) : 0;
	return r ? r : a->size < b->size ? -1 : a->size > b->size;
}
static void pieces(stringptrlist *l, char *base) {
	ev_int("null", !l); ev_arr_begin("ps"); int nul = 1;
	for(size_t i = 0; l && i < stringptrlist_getsize(l); i++) { stringptr *s = stringptrlist_get(l, i); ev_arr_bytes(s->ptr, s->size); if(s->ptr[s->size]) nul = 0; }
	ev_arr_end(); ev_int("nul", nul);
	ev_arr_begin("at"); for(size_t i = 0; l && i < stringptrlist_getsize(l); i++) ev_arr_int(stringptrlist_get(l, i)->ptr - base); ev_arr_end();
}
void drv_op(int argc, char **argv) {
	blob a = {0}, b = {0}, c = {0};
	if(IS("fail")) { armed = num(argv[1]); return; }
	if(IS("splitc") || IS("splits") || IS("lines")) {
		stringptrlist *l; a = unhex(argv[1]); stringptr s = { (char*)a.p, a.n }, d;
		char *base = s.ptr; blob copy = unhex(argv[1]);
		if(IS("splits")) { b = unhex_exact(argv[2]); d.ptr = (char*)b.p; d.size = b.n; }
		begin();
		if(IS("splits")) l = stringptr_splits(&s, &d); else if(IS("lines")) l = stringptr_linesplit(&s); else l = stringptr_splitc(&s, num(argv[2]));
		called();
		ev_begin(IS("lines") ? "splitc" : argv[0]); ev_bytes("s", copy.p, copy.n);
		if(IS("splits")) ev_bytes("d", b.p, b.n); else { unsigned char ch = IS("lines") ? 10 : num(argv[2]); ev_bytes("d", &ch, 1); }
		pieces(l, base);
		if(l) stringptrlist_free(l);
		fin(); xfree(copy.p);
	} else if(IS("repl")) {
		a = unhex(argv[1]); b = unhex_exact(argv[2]); c = unhex_exact(argv[3]); blob copy = unhex(argv[1]);
		stringptr s = { (char*)a.p, a.n }, d = { (char*)b.p, b.n }, w = { (char*)c.p, c.n };
		begin(); stringptr *r = stringptr_replace(&s, &d, &w); called();
		memset(a.p, 'Z', a.n); memset(c.p, 'Z', c.n);   /* the result is independent */
		ev_begin("repl"); ev_bytes("s", copy.p, copy.n); ev_bytes("d", b.p, b.n); c = (xfree(c.p), unhex(argv[3])); ev_bytes("w", c.p, c.n); ev_int("null", !r); ev_sp("r", r);
		stringptr_free(r); fin(); xfree(copy.p);
	} else if(IS("concat")) {
		blob x[8]; stringptr s[8]; int n = argc - 1; if(n > 7) die("concat");
		for(int i = 0; i < n; i++) { x[i] = unhex_exact(argv[i + 1]); s[i].ptr = (char*)x[i].p; s[i].size = x[i].n; }
		begin(); stringptr *r = 0;
		switch(n) {
		case 1: r = stringptr_concat(s, (stringptr*)0); break;
		case 2: r = stringptr_concat(s, s + 1, (stringptr*)0); break;
		case 3: r = stringptr_concat(s, s + 1, s + 2, (stringptr*)0); break;
		case 4: r = stringptr_concat(s, s + 1, s + 2, s + 3, (stringptr*)0); break;
		case 5: r = stringptr_concat(s, s + 1, s + 2, s + 3, s + 4, (stringptr*)0); break;
		case 6: r = stringptr_concat(s, s + 1, s + 2, s + 3, s + 4, s + 5, (stringptr*)0); break;
		case 7: r = stringptr_concat(s, s + 1, s + 2, s + 3, s + 4, s + 5, s + 6, (stringptr*)0); break;
		}
		called();
		ev_begin("concat"); ev_arr_begin("ps"); for(int i = 0; i < n; i++) { ev_arr_bytes(x[i].p, x[i].n); } ev_arr_end();
		for(int i = 0; i < n; i++) { if(x[i].n) memset(x[i].p, 'Z', x[i].n); xfree(x[i].p); }
		ev_int("null", !r); ev_sp("r", r); stringptr_free(r); fin();
	} else if(IS("tostr") || IS("tostrdos")) {
		begin(); stringptr *r = IS("tostr") ? stringptrlist_tostring(L) : stringptrlist_tostring_dos(L); called();
		ev_begin(argv[0]); ev_int("null", !r); ev_sp("r", r); stringptr_free(r); fin();
	}
	/* ---------------------------------------------------------- single strings */
	else if(IS("eq") || IS("contains")) {
		a = unhex_exact(argv[1]); b = unhex_exact(argv[2]); stringptr s = { (char*)a.p, a.n }, d = { (char*)b.p, b.n };
		int r = IS("eq") ? stringptr_eq(&s, &d) : stringptr_contains(&s, &d);
		ev_begin(argv[0]); ev_bytes("s", a.p, a.n); ev_bytes("d", b.p, b.n); ev_int("r", !!r); ev_end();
	} else if(IS("here")) {
		a = unhex_exact(argv[1]); b = unhex_exact(argv[3]); stringptr s = { (char*)a.p, a.n }, d = { (char*)b.p, b.n };
		uint64_t p = num64(argv[2]); int r = stringptr_here(&s, p, &d);
		ev_begin("here"); ev_bytes("s", a.p, a.n); ev_int("p", p > INT_MAX ? INT_MAX : (long)p); ev_bytes("d", b.p, b.n); ev_int("r", !!r); ev_end();
	} else if(IS("rchr")) {
		a = unhex_exact(argv[1]); stringptr s = { (char*)a.p, a.n }; char *r = stringptr_rchr(&s, num(argv[2]));
		ev_begin("rchr"); ev_bytes("s", a.p, a.n); ev_int("c", num(argv[2]) & 255); ev_int("r", r ? r - s.ptr : -1); ev_end();
	} else if(IS("hash")) {    /* the same bytes at another alignment, with other bytes behind them */
		a = unhex(argv[1]); int off = num(argv[2]); char *t = xmalloc(a.n + off + (off & 1 ? 3 : 0) + 1); memset(t, 'a' + off, a.n + off); memcpy(t + off, a.p, a.n);
		if(off & 1) memset(t + off + a.n, 'q' + off, 3);
		stringptr s = { t + off, a.n }; uint32_t h = stringptr_hash(&s);
		ev_begin("hash"); ev_bytes("s", a.p, a.n); ev_limbs("h", h); ev_end(); xfree(t);
	} else if(IS("copy") || IS("dup") || IS("dupn") || IS("fmt")) {
		a = IS("dupn") || IS("fmt") ? unhex(argv[1]) : unhex_exact(argv[1]); b = unhex(argv[1]); stringptr s = { (char*)a.p, a.n }, *r = 0, t = {0}; char *q = 0;
		begin();
		if(IS("copy")) r = stringptr_copy(&s);
		else if(IS("dup")) q = stringptr_strdup(&s);
		else if(IS("dupn")) q = strdup_n(s.ptr, num(argv[2]));
		else r = stringptr_format("%s", s.ptr);
		called();
		size_t qn = IS("dupn") ? (size_t)num(argv[2]) : a.n;
		if(a.n) memset(a.p, 'Z', a.n);
		if(q) { t.ptr = q; t.size = qn; }
		ev_begin(argv[0]); ev_bytes("s", b.p, b.n); if(IS("dupn")) ev_int("n", qn);
		ev_int("null", r == 0 && q == 0); ev_sp("r", r ? r : q ? &t : 0);
		stringptr_free(r); free(q); fin();
	} else if(IS("fromchar")) {
		a = unhex(argv[1]); stringptr o, *r = stringptr_fromchar((char*)a.p, &o);
		ev_begin("fromchar"); ev_bytes("s", a.p, a.n); ev_int("same", r == &o && o.ptr == (char*)a.p); ev_int("n", o.size); ev_end();
	} else if(IS("new")) {   /* an uninitialised string of a given length */
		size_t n = num64(argv[1]); begin(); stringptr *r = stringptr_new(n); called();
		ev_begin("new"); ev_int("n", n); ev_int("null", !r);
		ev_int("size", r ? (long)r->size : -1); ev_int("nul", r ? r->ptr[n] == 0 : -1);
		ev_int("own", r ? mem_is_live(r) && r->ptr >= (char*)(r + 1) && r->ptr + n + 1 <= (char*)r + mem_size(r) : -1);
		int ok = 1; if(r) { memset(r->ptr, 'q', n); ok = r->size == n && r->ptr[n] == 0; } ev_int("keeps", ok);
		stringptr_free(r); ev_int("gone", r == 0); stringptr_free(r); fin();
	} else if(IS("acc")) {   /* accessors on a string, on an expression and on no string */
		a = unhex_exact(argv[1]); stringptr two[2] = { SP_INIT((char*)a.p, a.n), SP_INIT(0, 0) }, *s = two, *z = 0, *e = two + 1, *m = SPMAKE((char*)a.p, a.n); char *P = (char*)a.p;
		ev_begin("acc"); ev_bytes("s", a.p, a.n);
		ev_arr_begin("n"); ev_arr_int(stringptr_getsize(s)); ev_arr_int(stringptr_getsize(&two[0])); ev_arr_int(stringptr_getsize(1 ? s : e)); ev_arr_int(stringptr_getsize_s(s)); ev_arr_int(stringptr_getsize_s(s + 0)); ev_arr_int(stringptr_getsize(m)); ev_arr_int(stringptr_getsize_s(1 ? m : z)); ev_arr_end();
		ev_arr_begin("g"); ev_arr_int(stringptr_get(s) == P); ev_arr_int(stringptr_get(two + 0) == P); ev_arr_int(stringptr_get_s(s) == P); ev_arr_int(stringptr_get(m) == P); ev_arr_int(stringptr_get_s(1 ? s : z) == P); ev_arr_end();
		ev_arr_begin("e"); ev_arr_int(!!stringptr_empty(s)); ev_arr_int(!!stringptr_empty(1 ? s : e)); ev_arr_int(!!stringptr_empty_s(s)); ev_arr_int(!!stringptr_empty_s(m)); ev_arr_int(1 - !stringptr_empty(s)); ev_arr_int(1 - !stringptr_empty_s(s)); ev_arr_end();
		ev_arr_begin("z"); ev_arr_int(stringptr_getsize_s(z) == 0); ev_arr_int(stringptr_get_s(z) == 0); ev_arr_int(!!stringptr_empty_s(z)); ev_arr_int(!!stringptr_empty_s(e)); ev_arr_int(!!stringptr_empty(e)); ev_arr_int(stringptr_getsize(e) == 0); ev_arr_int(SPNIL == 0); ev_arr_end();
		ev_end();
	} else if(IS("lit")) {   /* strings made from literals and arrays */
		static char arr[7] = "ar\0ray"; static stringptr si = SPINITIALIZER("in\0it"), se = SPINITIALIZER("");
		stringptr *x[] = { SPLITERAL(""), SPLITERAL("a"), SPL("lit\0eral"), SPLITERAL(arr), &si, &se, SPLITERAL("\377\n") };
		SPDECLAREC(dc, arr + 1); SPDECLAREC(dn, (char*)"declared");
		ev_begin("lit"); ev_arr_begin("ps"); for(size_t i = 0; i < sizeof x / sizeof *x; i++) { ev_arr_bytes(x[i]->ptr, x[i]->size); } ev_arr_bytes(dc->ptr, dc->size); ev_arr_bytes(dn->ptr, dn->size); ev_arr_end();
		ev_int("at", dc == &dc_storage && dc->ptr == arr + 1 && EQ(SPL("x"), SPL("x")) && !EQ(SPL("x"), SPL("y"))); ev_end();
	} else if(IS("cmp")) {   /* mem_equal, str_equal, strlitlen */
		a = unhex(argv[1]); b = unhex(argv[2]); size_t n = num(argv[3]); char *x = (char*)a.p, *y = (char*)b.p;
		ev_begin("cmp"); ev_bytes("s", a.p, a.n); ev_bytes("d", b.p, b.n); ev_int("n", n);
		ev_int("m", !!mem_equal(x, y, n)); ev_int("m2", 1 - !mem_equal(1 ? x : y, 1 ? y : x, 1 ? n : 0)); ev_int("t", !!str_equal(x, y)); ev_int("t2", 1 - !str_equal(1 ? x : y, 1 ? y : x));
		ev_int("l", strlitlen("") == 0 && strlitlen("abc") == 3 && strlitlen("a\0c") == 3 && 2 * strlitlen("ab") == 4); ev_end();
	} else if(IS("vset")) {   /* the view under edit */
		xfree(vbuf); b = unhex(argv[1]); vbuf = (char*)b.p; V.ptr = vbuf; V.size = b.n; 
		ev_begin("vset"); ev_bytes("s", V.ptr, V.size); ev_end(); b.p = 0;
	} else if(IS("shl") || IS("shr")) {
		size_t n = num64(argv[1]); int r = IS("shl") ? stringptr_shiftleft(&V, n) : stringptr_shiftright(&V, n);
		ev_begin(argv[0]); ev_int("n", n > INT_MAX ? INT_MAX : (long)n); ev_int("r", !!r); ev_sp("v", &V); ev_int("at", V.ptr - vbuf); ev_end();
	} else if(IS("chomp")) {
		size_t r = stringptr_chomp(&V);
		ev_begin("chomp"); ev_int("r", r); ev_sp("v", &V); ev_int("at", V.ptr - vbuf); ev_end();
	}
	/* ----------------------------------------------------------------- lists */
	else if(IS("ladd") || IS("ladddup")) {
		inl[na] = 1; a = keepx(argv[1]); int r; stringptr s = { (char*)a.p, a.n };
		begin(); r = IS("ladd") ? stringptrlist_add(L, s.ptr, s.size) : stringptrlist_add_strdup(L, &s); called();
		ev_begin(argv[0]); ev_bytes("s", a.p, a.n); ev_int("r", !!r);
		if(IS("ladddup") && a.n) memset(a.p, 'Z', a.n);
		a.p = 0; fin();
	} else if(IS("ladopt")) { /* a heap string handed over */
		a = unhex(argv[1]); char *h = malloc(a.n + 1); memcpy(h, a.p, a.n + 1);
		begin(); int r = stringptrlist_add(L, h, a.n); called(); if(!r) free(h);
		ev_begin("ladd"); ev_bytes("s", a.p, a.n); ev_int("r", !!r); fin();
	} else if(IS("lins") || IS("linss")) {
		inl[na] = 1; a = keepx(argv[2]); long r; size_t i = num64(argv[1]);
		begin(); if(IS("lins")) r = !!(stringptrlist_insert(L, i, (char*)a.p, a.n)); else r = (long)(stringptrlist_insert_sorted(L, (char*)a.p, a.n, cmpsp)); called();
		ev_begin(argv[0]); ev_int("i", i > INT_MAX ? INT_MAX : (long)i); ev_bytes("s", a.p, a.n); ev_int("r", r); a.p = 0; fin();
	} else if(IS("lempty")) {
		ev_begin("lempty"); ev_arr_begin("n"); ev_arr_int(stringptrlist_getsize(L)); ev_arr_int(kv_getsize(K)); ev_arr_int(sptrlist_get_count(P)); ev_arr_int(stringlist_getsize(T)); ev_arr_int(sblist_get_count(L)); ev_arr_end();
		ev_arr_begin("e"); ev_arr_int(!!stringptrlist_empty(L)); ev_arr_int(!!sblist_empty(L)); ev_arr_int(1 - !stringptrlist_empty(1 ? L : K)); ev_arr_end(); ev_end();
	} else if(IS("lset")) {
		inl[na] = 1; a = keepx(argv[2]); int r = stringptrlist_set(L, num(argv[1]), (char*)a.p, a.n);
		ev_begin("lset"); ev_int("i", num(argv[1])); ev_bytes("s", a.p, a.n); ev_int("r", !!r); ev_end(); a.p = 0;
	} else if(IS("lget")) {
		stringptr *s = stringptrlist_get(L, num(argv[1]));
		ev_begin("lget"); ev_int("i", num(argv[1])); ev_int("null", !s); ev_bytes("s", s ? s->ptr : "", s ? s->size : 0); ev_end();
	} else if(IS("ldump")) {
		ev_begin("ldump"); ev_arr_begin("ps"); for(size_t i = 0; i < stringptrlist_getsize(L); i++) { stringptr *s = stringptrlist_get(L, i); ev_arr_bytes(s->ptr, s->size); } ev_arr_end(); ev_end();
	} else if(IS("lfind")) {
		a = unhex_exact(argv[1]); stringptr s = { (char*)a.p, a.n }; long r = stringptrlist_find(L, &s); int q = stringptrlist_contains(L, &s);
		ev_begin("lfind"); ev_bytes("s", a.p, a.n); ev_int("r", r); ev_int("c", !!q); ev_end();
	} else if(IS("ldup")) {
		begin(); long r = stringptrlist_dup_entries(L); called();
		for(int i = 0; i < na; i++) if(r == -1 && inl[i] && arena[i].n) memset(arena[i].p, 'Y', arena[i].n);  /* copies are independent */
		ev_begin("ldup"); ev_int("r", r);
		ev_arr_begin("ps"); for(size_t i = 0; i < stringptrlist_getsize(L); i++) { stringptr *s = stringptrlist_get(L, i); ev_arr_bytes(s->ptr, s->size); } ev_arr_end();
		ev_int("nul", ({ int ok = 1; for(size_t i = 0; i < stringptrlist_getsize(L) && (r == -1 || i < (size_t)r); i++) { stringptr *s = stringptrlist_get(L, i); if(s->ptr[s->size]) ok = 0; } ok; }));
		ev_arr_begin("heap"); for(size_t i = 0; i < stringptrlist_getsize(L); i++) ev_arr_int(mem_is_live(stringptrlist_get(L, i)->ptr)); ev_arr_end();
		fin();
	} else if(IS("lfreestr")) {
		begin(); stringptrlist_freestrings(L); called();
		ev_begin("lfreestr"); ev_int("n", stringptrlist_getsize(L)); int z = 1; for(size_t i = 0; i < stringptrlist_getsize(L); i++) if(stringptrlist_get(L, i)->ptr || stringptrlist_get(L, i)->size) z = 0; ev_int("z", z); fin();
	} else if(IS("lfreeall") || IS("lfree")) {
		begin(); if(IS("lfree")) stringptrlist_free(L); else stringptrlist_freeall(L); called();
		ev_begin(argv[0]); ev_int("live", mem_live); L = 0; fin();
		L = stringptrlist_new(num(argv[1])); 
	} else if(IS("kadd")) {
		a = keepx(argv[1]); begin(); int r = kv_add(K, (char*)a.p, a.n, (void*)(intptr_t)num(argv[2])); called();
		ev_begin("kadd"); ev_bytes("s", a.p, a.n); ev_int("v", num(argv[2])); ev_int("r", !!r); a.p = 0; fin();
	} else if(IS("kset")) {
		a = keepx(argv[2]); int r = kv_set(K, num(argv[1]), (char*)a.p, a.n, (void*)(intptr_t)num(argv[3]));
		ev_begin("kset"); ev_int("i", num(argv[1])); ev_bytes("s", a.p, a.n); ev_int("v", num(argv[3])); ev_int("r", !!r); ev_end(); a.p = 0;
	} else if(IS("kget")) {
		stringptrv *s = kv_get(K, num(argv[1]));
		ev_begin("kget"); ev_int("i", num(argv[1])); ev_int("null", !s); ev_bytes("s", s ? s->ptr : "", s ? s->size : 0); ev_int("v", s ? (long)(intptr_t)s->value : 0); ev_int("n", kv_getsize(K)); ev_end();
	} else if(IS("kfind")) {
		a = unhex_exact(argv[1]); stringptr s = { (char*)a.p, a.n }; void *v = (void*)(intptr_t)-77; int r = kv_find(K, &s, &v);
		ev_begin("kfind"); ev_bytes("s", a.p, a.n); ev_int("r", !!r); ev_int("v", (long)(intptr_t)v); ev_end();
	} else if(IS("many")) { /* many N K A B: lists of N entries A with B at index K; runs of equal entries are reported */
		size_t n = num64(argv[1]), k = num64(argv[2]), i; a = unhex_exact(argv[3]); b = unhex_exact(argv[4]); stringptr sa = { (char*)a.p, a.n }, sb = { (char*)b.p, b.n };
		mem_quiet++; stringptrlist *l = stringptrlist_new(1024); kvlist *kv = kv_new(1024); sptrlist *pl = sptrlist_new(1024); stringlist *tl = stringlist_new(1024);
		char *ta = "ta", *tb = "tb";
		for(i = 0; i < n; i++) { stringptr *e = i == k ? &sb : &sa; void *v = (void*)(intptr_t)i; char *t = i == k ? tb : ta;
			if(!stringptrlist_add(l, e->ptr, e->size) || !kv_add(kv, e->ptr, e->size, v) || !sptrlist_add(pl, v) || !stringlist_add(tl, t)) die("many"); }
		void *va = (void*)-77, *vb = (void*)-77; int fa = kv_find(kv, &sa, &va), fb = kv_find(kv, &sb, &vb);
		ev_begin("many"); ev_int("n", n); ev_int("k", k); ev_bytes("a", a.p, a.n); ev_bytes("b", b.p, b.n);
		ev_int("la", stringptrlist_find(l, &sa)); ev_int("lb", stringptrlist_find(l, &sb)); ev_int("ca", !!stringptrlist_contains(l, &sa)); ev_int("cb", !!stringptrlist_contains(l, &sb));
		ev_int("fa", !!fa); ev_int("fb", !!fb); ev_int("va", (intptr_t)va); ev_int("vb", (intptr_t)vb);
		ev_int("dup", stringptrlist_dup_entries(l));
		size_t fresh = 0, run = 0; stringptr *q = 0, *s; int same = 1;
		ev_arr_begin("runs");
		for(i = 0; i < stringptrlist_getsize(l); i++) { s = stringptrlist_get(l, i); fresh += s->ptr != sa.ptr && s->ptr != sb.ptr;
			if(q && q->size == s->size && !memcmp(q->ptr, s->ptr, s->size)) run++; else { if(q) { ev_obj_begin(); ev_bytes("s", q->ptr, q->size); ev_int("n", run); ev_obj_end(); } q = s; run = 1; } }
		if(q) { ev_obj_begin(); ev_bytes("s", q->ptr, q->size); ev_int("n", run); ev_obj_end(); }
		ev_arr_end(); ev_int("fresh", fresh);
		for(i = 0; i < sblist_getsize(pl); i++) if(sptrlist_get(pl, i) != (void*)(intptr_t)i) same = 0;
		size_t it = 0, at = n; char *t; { stringlist_foreach(tl, t) { if(t == tb) at = it; else if(t != ta) same = 0; it++; } }
		ev_int("same", same && sblist_getsize(pl) == n); ev_int("it", it); ev_int("at", at);
		stringptrlist_freestrings(l); stringptrlist_free(l); kv_free(kv); sptrlist_free(pl); stringlist_free(tl); mem_quiet--; ev_end();
	} else if(IS("padd")) {
		void *p = (void*)(intptr_t)num(argv[1]); begin(); int r = sptrlist_add(P, p); called();
		ev_begin("padd"); ev_int("v", num(argv[1])); ev_int("r", !!r); fin();
	} else if(IS("pset")) {
		void *p = (void*)(intptr_t)num(argv[2]); int r = sptrlist_set(P, p, num(argv[1]));
		ev_begin("pset"); ev_int("i", num(argv[1])); ev_int("v", num(argv[2])); ev_int("r", !!r); ev_end();
	} else if(IS("pall")) {
		ev_begin("pall"); ev_arr_begin("vs"); for(size_t i = 0; i < sptrlist_get_count(P); i++) ev_arr_int((intptr_t)sptrlist_get(P, i)); ev_arr_end(); ev_end();
	} else if(IS("tadd") || IS("tadddup")) {
		a = keep(argv[1]); char *q = (char*)a.p; begin(); int r = IS("tadd") ? stringlist_add(T, q) : stringlist_add_dup(T, q); called();
		ev_begin(argv[0]); ev_bytes("s", a.p, a.n); ev_int("r", !!r); if(IS("tadddup") && a.n) memset(a.p, 'Z', a.n); a.p = 0; fin();
	} else if(IS("tget")) {
		char *s = stringlist_get(T, num(argv[1])); ev_begin("tget"); ev_int("i", num(argv[1])); ev_int("null", !s); ev_cbytes("s", s); ev_end();
	} else if(IS("tdel")) {
		stringlist_delete(T, num(argv[1])); ev_begin("tdel"); ev_int("i", num(argv[1])); ev_end();
	} else if(IS("tall")) {
		char *s; ev_begin("tall"); ev_arr_begin("ps"); { stringlist_foreach(T, s) ev_arr_bytes(s, strlen(s)); } ev_arr_end();
		size_t i, n = 0; stringlist_iter(T, i) n++; ev_int("n", n); ev_end();
	} else die("op %s", argv[0]);
	xfree(a.p); xfree(b.p); xfree(c.p);
}
