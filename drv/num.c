/* integer <-> text, plus other small text codecs (C20, C21, C24, C25, C26 use their own files) */
#include "drv.h"
#include "strlib.h"
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; ev_begin("S"); ev_end(); }
static int numlen(uint64_t n, unsigned b) { int l = 0; do { l++; n /= b > 1 ? b : 2; } while(n); return l; }
static void res(const char *op, const char *r, char *buf, size_t cap) {
	ev_int("null", !r); int in = r && r >= buf && r < buf + cap; size_t n = in ? strnlen(r, buf + cap - r) : 0;
	ev_int("in", r ? in && r + n < buf + cap : 1); ev_bytes("o", in ? r : "", n); ev_end();
}
void drv_op(int argc, char **argv) {
	uint64_t v = argc > 1 && !IS("pi") && !IS("pl") ? num64(argv[1]) : 0;
	if(IS("nts")) {    /* nts VALUE BASE MAXLEN FLAGS : buffer exactly as documented */
		unsigned base = num(argv[2]); size_t ml = num(argv[3]); int fl = num(argv[4]); uint64_t m = (fl & NTS_SIGNED_TYPE) && v >> 63 ? -v : v;
		size_t cap = (ml ? ml : (size_t)numlen(m, base)) + ((fl & NTS_SIGNED_TYPE) ? 1 : 0) + 1; char *b = xmalloc(cap); memset(b, 'Q', cap);
		char *r = numberToString(v, base, b, ml, fl);
		ev_begin("nts"); ev_limbs("w", v); ev_int("b", base); ev_int("ml", ml); ev_int("pad", !!(fl & NTS_PAD)); ev_int("sg", !!(fl & NTS_SIGNED_TYPE)); ev_int("low", !!(fl & NTS_LOWERCASE_CHARS)); res("nts", r, b, cap); xfree(b);
		return;
	}
	if(IS("pi") || IS("pl")) {
		blob s = unhex_exact(argv[1]); int64_t r = IS("pi") ? (int64_t) strtoint((char*)s.p, s.n) : strtoint64((char*)s.p, s.n);
		ev_begin(argv[0]); ev_bytes("s", s.p, s.n); ev_limbs("r", r); ev_end(); xfree(s.p); return;
	}
	if(IS("nullb")) { int ok = !intToString(v, 0) && !uintToString(v, 0) && !int64ToString(v, 0) && !uint64ToString(v, 0); ev_begin("nullb"); ev_int("ok", ok); ev_end(); return; }
	size_t cap = IS("itoa") ? 12 : IS("utoa") ? 11 : 0; int sg = IS("itoa") || IS("i32") || IS("i64"), w32 = IS("itoa") || IS("utoa") || IS("i32") || IS("u32"); char *r, *b;
	/* suitable length: the digits, a sign for signed types, the terminator */
	if(IS("i32")) cap = numlen((int32_t)v < 0 ? -(int64_t)(int32_t)v : (int32_t)v, 10) + 2;
	if(IS("u32")) cap = numlen((uint32_t)v, 10) + 1;
	if(IS("i64")) cap = numlen(v >> 63 ? -v : v, 10) + 2;
	if(IS("u64")) cap = numlen(v, 10) + 1;
	b = xmalloc(cap); memset(b, 'Q', cap);
	if(IS("itoa")) r = itoa((int)v, b); else if(IS("utoa")) r = utoa((unsigned)v, b);
	else if(IS("i32")) r = intToString((int)v, b); else if(IS("u32")) r = uintToString((unsigned)v, b);
	else if(IS("i64")) r = int64ToString((int64_t)v, b); else if(IS("u64")) r = uint64ToString(v, b);
	else { die("op %s", argv[0]); return; }
	ev_begin("conv"); ev_str("fn", argv[0]); ev_limbs("w", v); ev_int("sg", sg); ev_int("w32", w32); res(argv[0], r, b, cap); xfree(b);
}
