/* text search and character classes (C25) */
#include "drv.h"
#include "strlib.h"
#include "strswitch.h"
/* the case lists, each as the set of characters it catches */
#define SET(N, L) static int N(char c) { switch(c) { case L: return 1; default: return 0; } }
SET(s_uc, STRSWITCH_LETTERS_UC) SET(s_lc, STRSWITCH_LETTERS_LC) SET(s_let, STRSWITCH_LETTERS) SET(s_num, STRSWITCH_NUMBERS) SET(s_alpha, STRSWITCH_ALPHA) SET(s_math, STRSWITCH_MATH_OPS)
SET(s_nac, STRSWITCH_NON_ALPHA_C) SET(s_nash, STRSWITCH_NON_ALPHA_SH) SET(s_na, STRSWITCH_NON_ALPHA) SET(s_pr, STRSWITCH_PRINTABLE) SET(s_cpr, STRSWITCH_C_PRINTABLE) SET(s_shpr, STRSWITCH_SH_PRINTABLE)
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; ev_begin("S"); ev_end(); }
static long off(const char *r, const char *h, size_t n) { return !r ? -1 : r < h || r > h + n ? -2 : r - h; }
void drv_op(int argc, char **argv) {
	if(IS("cls")) {
		char b[3], l[3], u[3]; b[0] = 'a'; b[1] = num(argv[1]); b[2] = 'Z'; memcpy(l, b, 3); memcpy(u, b, 3);
		makelower(l + 1); makeupper(u + 1);
		ev_begin("cls"); ev_int("c", (unsigned char)b[1]); ev_int("let", !!isLetter(b + 1)); ev_int("lo", !!isLower(b + 1)); ev_int("up", !!isUpper(b + 1)); ev_int("num", !!isNumber(b + 1)); ev_int("alpha", !!isAlpha(b + 1));
		ev_int("ml", (unsigned char)l[1]); ev_int("mu", (unsigned char)u[1]); char c = b[1];
		ev_arr_begin("sw"); ev_arr_int(s_uc(c)); ev_arr_int(s_lc(c)); ev_arr_int(s_let(c)); ev_arr_int(s_num(c)); ev_arr_int(s_alpha(c)); ev_arr_int(s_math(c)); ev_arr_end();
		ev_arr_begin("sp"); ev_arr_int(s_nac(c)); ev_arr_int(s_nash(c)); ev_arr_int(s_na(c)); ev_arr_int(s_pr(c)); ev_arr_int(s_cpr(c)); ev_arr_int(s_shpr(c)); ev_arr_end();
		ev_int("near", l[0] == 'a' && l[2] == 'Z' && u[0] == 'a' && u[2] == 'Z'); ev_end(); return;
	}
	if(IS("has")) {
		int nl = !strcmp(argv[1], "null"); blob h = unhex(nl ? "-" : argv[1]); int c = num(argv[2]);
		int r = containsChar(nl ? 0 : (char*)h.p, (char)c); ev_begin("has"); ev_bytes("h", h.p, h.n); ev_int("nl", nl); ev_int("c", c); ev_int("r", !!r); ev_end(); xfree(h.p); return;
	}
	int nh = !strcmp(argv[1], "null"), nn = !strcmp(argv[2], "null"); blob h = unhex(nh ? "-" : argv[1]), n = IS("ends") ? unhex(argv[2]) : unhex_exact(nn ? "-" : argv[2]), h0 = unhex(nh ? "-" : argv[1]); long r;
	char *H = nh ? 0 : (char*)h.p, *N = nn ? 0 : (char*)n.p; size_t nlen = nn ? (size_t)num(argv[3]) : n.n;
	if(IS("uc")) r = off(strstr_uc(H, N, nlen), H, h.n);
	else if(IS("star")) r = off(strstar(H, N, nlen), H, h.n);
	else if(IS("word")) r = off(findword(H, N, nlen), H, h.n);
	else if(IS("ends")) r = !!strends(H, N);
	else { die("op %s", argv[0]); return; }
	ev_begin(argv[0]); ev_bytes("h", h.p, h.n); ev_bytes("n", n.p, n.n); ev_int("nl", nh || nn); ev_int("r", r); ev_int("same", !memcmp(h.p, h0.p, h.n + 1)); ev_end();
	xfree(h.p); xfree(n.p); xfree(h0.p);
}
