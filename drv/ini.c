/* INI lookups.  S ; line HEX ... ; sect NAME ; next ; val SECT KEY ... */
#include "drv.h"
#include "iniparser.h"
#include "stringptrlist.h"
static stringptrlist *L; static blob keepb[100000]; static int nk; static ini_section cur;
static void drop(void) { if(L) stringptrlist_free(L); L = 0; while(nk) xfree(keepb[--nk].p); }
void drv_end(void) { drop(); }
void drv_session(int argc, char **argv) {
	drop(); L = stringptrlist_new(4);
	for(int i = 1; i < argc; i++) { blob b = unhex_exact(argv[i]); keepb[nk++] = b; stringptrlist_add(L, (char*)b.p, b.n); }
	ev_begin("S"); ev_arr_begin("ls"); for(int i = 0; i < nk; i++) ev_arr_bytes(keepb[i].p, keepb[i].n); ev_arr_end(); ev_end();
	memset(&cur, 0, sizeof cur);
}
void drv_op(int argc, char **argv) {
	blob a = argc > 1 && !IS("valat") && !IS("full") ? unhex_exact(argv[1]) : (blob){0, 0}; stringptr k = {(char*)a.p, a.n};
	if(IS("sect")) { cur = iniparser_get_section(L, &k); ev_begin("sect"); ev_bytes("n", a.p, a.n); ev_int("st", cur.startline); ev_int("ct", cur.linecount); ev_end(); }
	else if(IS("next")) { ini_section p = cur; cur = iniparser_get_next_section(L, &k, &p); ev_begin("next"); ev_bytes("n", a.p, a.n); ev_int("pst", p.startline); ev_int("pct", p.linecount); ev_int("st", cur.startline); ev_int("ct", cur.linecount); ev_end(); }
	else if(IS("full")) { cur = iniparser_file_as_section(L); ev_begin("full"); ev_int("st", cur.startline); ev_int("ct", cur.linecount); ev_end(); }
	else if(IS("count")) { size_t r = iniparser_count_sections(L); ev_begin("count"); ev_int("r", r); ev_end(); }
	else if(IS("val") || IS("valat")) {     /* val KEY | valat OFF KEY */
		if(IS("valat")) { a = unhex_exact(argv[2]); k.ptr = (char*)a.p; k.size = a.n; }
		stringptr v = {(char*)1, 77777}; long r = -9; size_t off = IS("valat") ? num(argv[1]) : 0;
		if(IS("val")) iniparser_getvalue(L, &cur, &k, &v); else r = iniparser_getvalue_at(L, &cur, &k, &v, cur.startline + off);
		int in = -1; for(int i = 0; i < nk; i++) if(v.ptr && (unsigned char*)v.ptr >= keepb[i].p && (unsigned char*)v.ptr <= keepb[i].p + keepb[i].n && keepb[i].n) in = i;
		ev_begin(argv[0]); ev_bytes("k", a.p, a.n); ev_int("st", cur.startline); ev_int("ct", cur.linecount); ev_int("off", off); ev_int("r", r); ev_int("null", !v.ptr); ev_int("sz", v.size); ev_int("in", in); ev_bytes("v", v.ptr, v.ptr && v.size < (1 << 22) ? v.size : 0); ev_end();
	} else die("op %s", argv[0]);
	xfree(a.p);
}
