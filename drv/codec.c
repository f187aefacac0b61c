/* base64, hex (C21) and IPv4 (C24) */
#include "drv.h"
#include "strlib.h"
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; ev_begin("S"); ev_end(); }
void drv_op(int argc, char **argv) {
	if(IS("hv")) { char c = num(argv[1]); ev_begin("hv"); ev_int("c", (unsigned char)c); ev_int("r", hexval(&c)); ev_end(); return; }
	if(IS("sizes")) { size_t n = num(argv[1]); ev_begin("sizes"); ev_int("n", n); ev_int("eb", BASE64ENC_BYTES(n)); ev_int("es", BASE64ENC_BUFSIZE(n)); ev_int("db", BASE64DEC_BYTES(n)); ev_int("ds", BASE64DEC_BUFSIZE(n)); ev_end(); return; }
	if(IS("enc")) {
		blob s = unhex_exact(argv[1]); size_t cap = BASE64ENC_BUFSIZE(s.n); char *o = xmalloc(cap); memset(o, 'Q', cap);
		base64enc(o, s.p, s.n); size_t l = strnlen(o, cap);
		ev_begin("enc"); ev_bytes("s", s.p, s.n); ev_bytes("o", o, l); ev_int("nul", l < cap); ev_end(); xfree(o); xfree(s.p); return;
	}
	if(IS("encs")) {
		blob s = unhex(argv[1]); size_t cap = num(argv[2]); char *o = xmalloc(cap); memset(o, 'Q', cap);
		int r = base64enc_str(o, s.p, cap); size_t l = strnlen(o, cap);
		ev_begin("encs"); ev_bytes("s", s.p, s.n); ev_int("n", cap); ev_int("r", r); ev_bytes("o", o, l); ev_int("nul", l < cap); ev_end(); xfree(o); xfree(s.p); return;
	}
	if(IS("dec")) {
		blob s = unhex(argv[1]); size_t cap = num(argv[2]); unsigned char *o = xmalloc(cap); memset(o, 'Q', cap);
		size_t r = base64dec(o, (char*)s.p, cap);
		ev_begin("dec"); ev_bytes("s", s.p, s.n); ev_int("n", cap); ev_int("r", r > 1000000 ? 1000000 : r); ev_bytes("o", o, r <= cap ? r : 0); ev_int("nul", r < cap ? o[r] == 0 : 0); ev_end(); xfree(o); xfree(s.p); return;
	}
	if(IS("r2h")) {
		blob s = unhex_exact(argv[1]); size_t cap = s.n * 2 + 1; char *o = xmalloc(cap); memset(o, 'Q', cap);
		raw2hex(o, s.p, s.n); size_t l = strnlen(o, cap);
		ev_begin("r2h"); ev_bytes("s", s.p, s.n); ev_bytes("o", o, l); ev_int("nul", l < cap); ev_end(); xfree(o); xfree(s.p); return;
	}
	if(IS("h2r")) {
		blob s = unhex(argv[1]); size_t cap = (s.n + 1) / 2; unsigned char *o = xmalloc(cap); memset(o, 'Q', cap);
		size_t r = hex2raw((char*)s.p, o);
		ev_begin("h2r"); ev_bytes("s", s.p, s.n); ev_int("r", r > 1000000 ? 1000000 : r); ev_bytes("o", o, cap); ev_end(); xfree(o); xfree(s.p); return;
	}
	if(IS("fmt4")) {
		blob a = unhex_exact(argv[1]); char *o = xmalloc(16); memset(o, 'Q', 16); unsigned char *b = xmalloc(4); memset(b, 0x55, 4);
		stringfromipv4(a.p, o); size_t l = strnlen(o, 16); int is = 0, pr = 0;
		if(l < 16) { is = isnumericipv4(o); pr = ipv4fromstring(o, b); }
		ev_begin("fmt4"); ev_bytes("a", a.p, 4); ev_bytes("o", o, l); ev_int("len", l < 16 ? (long)l : 99); ev_int("is", is); ev_int("pr", pr); ev_bytes("back", b, 4); ev_end(); xfree(o); xfree(b); xfree(a.p); return;
	}
	if(IS("is4")) { blob s = unhex(argv[1]); int r = isnumericipv4((char*)s.p); ev_begin("is4"); ev_bytes("s", s.p, s.n); ev_int("r", r); ev_end(); xfree(s.p); return; }
	if(IS("parse4")) { blob s = unhex(argv[1]); unsigned char *b = xmalloc(4); memset(b, 0x55, 4); int r = ipv4fromstring((char*)s.p, b); ev_begin("parse4"); ev_bytes("s", s.p, s.n); ev_int("r", r); ev_bytes("b", b, 4); ev_end(); xfree(b); xfree(s.p); return; }
	die("op %s", argv[0]);
}
