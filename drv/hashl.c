/* hashlist histories.  S <buckets> <datasize> */
#include "drv.h"
#include "hashlist.h"
#include "item.h"
static hashlist *H; static size_t isz; static sblist *ids[4096]; static int nids;
static long bid(sblist *b) { if(!b) return 0; for(int i = 0; i < nids; i++) if(ids[i] == b) return i + 1; if(nids >= 4096) return -1; ids[nids++] = b; return nids; }
static void drop(void) { if(H) hashlist_free(H); H = 0; nids = 0; }
void drv_end(void) { drop(); }
void drv_session(int argc, char **argv) { drop(); isz = num(argv[2]); H = hashlist_new(num(argv[1]), isz); ev_begin("S"); ev_int("nb", num(argv[1])); ev_end(); }
static const char *hid(uint32_t h) { static char t[16]; snprintf(t, 16, "h%u", h); return t; }   /* a label to the specification */
void drv_op(int argc, char **argv) {
	uint32_t h = argc > 1 ? strtoul(argv[1], 0, 0) : 0; long r;
	if(IS("add")) {
		long v = num(argv[2]), failn = argc > 3 ? num(argv[3]) : 0, f0 = mem_failed; unsigned char *t = xmalloc(isz); it_enc(t, isz, v);
		mem_fail_at = failn; r = hashlist_add(H, h, t); mem_fail_at = 0; xfree(t);
		ev_begin("add"); ev_str("h", hid(h)); ev_int("v", v); ev_int("r", r); ev_int("oom", mem_failed > f0); ev_int("b", bid(hashlist_get(H, h))); ev_end();
	} else if(IS("get")) {
		sblist *b = hashlist_get(H, h);
		ev_begin("get"); ev_str("h", hid(h)); ev_int("b", bid(b)); ev_arr_begin("vs"); if(b) for(size_t i = 0; i < sblist_getsize(b); i++) ev_arr_int(it_dec(sblist_get(b, i), isz)); ev_arr_end(); ev_end();
	} else if(IS("bdel")) {   /* delete the i-th (mod size) value of the hash's bucket */
		sblist *b = hashlist_get(H, h);
		if(b && sblist_getsize(b)) { size_t i = num(argv[2]) % sblist_getsize(b); sblist_delete(b, i); ev_begin("bdel"); ev_int("b", bid(b)); ev_int("i", i); ev_end(); }
	} else if(IS("iter")) {
		hashlist_iterator it; void *p; int again = 0; size_t n = 0;
		memset(&it, 0xee, sizeof it); hashlist_iterator_init(&it);
		ev_begin("iter"); ev_arr_begin("vs"); while((p = hashlist_next(H, &it)) && n++ < 100000) ev_arr_int(it_dec(p, isz)); ev_arr_end();
		for(int i = 0; i < 4; i++) if(hashlist_next(H, &it)) again++;
		ev_int("again", again); ev_end();
	} else if(IS("buck")) {
		hashlist_bucket_iterator it; sblist *b; int again = 0; size_t n = 0;
		memset(&it, 0xee, sizeof it); hashlist_bucket_iterator_init(&it);
		ev_begin("buck"); ev_arr_begin("bs"); while((b = hashlist_bucket_next(H, &it)) && n++ < 100000) ev_arr_int(bid(b)); ev_arr_end();
		for(int i = 0; i < 4; i++) if(hashlist_bucket_next(H, &it)) again++;
		ev_int("again", again); ev_end();
	} else die("op %s", argv[0]);
}
