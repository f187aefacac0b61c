/* ssalloc.  Built with -DSSA_MAXELEM= -DSSA_ELEMSIZE= */
#include "drv.h"
#include "ssalloc.c"
#include "item.h"
#define ES SSA_ELEMSIZE
static long offs[SSA_MAXELEM + 8]; static int vals[SSA_MAXELEM + 8]; static size_t nlive; static long serial;
static char *first;   /* address of the first block handed out after init: script slot 0 */
#define BASE ((char*)&SSA_POOL)
void drv_end(void) {}
void drv_session(int argc, char **argv) {
	memset(&SSA_POOL, 0x5a, sizeof SSA_POOL); SSINIT; nlive = 0; serial = 0; first = 0;
	ev_begin("S"); ev_int("n", SSA_MAXELEM); ev_int("es", ES); ev_int("ps", sizeof SSA_POOL); ev_end();
}
static int cmpl(const void *a, const void *b) { long x = *(long*)a, y = *(long*)b; return (x > y) - (x < y); }
static int rd(char *p) { unsigned char *b = (void*)p; int v = b[0]; for(size_t i = 0; i < ES; i++) if(b[i] != (i < 1 ? v : it_mix(v, i))) return -7; return v; }
static void dofree(char *p) {
	long o = p - BASE;
	SSFREE(p);
	ev_begin("free"); ev_int("off", o); ev_end();
	for(size_t i = 0; i < nlive; i++) if(offs[i] == o) { memmove(offs + i, offs + i + 1, (nlive - i - 1) * sizeof *offs); nlive--; break; }
}
void drv_op(int argc, char **argv) {
	if(IS("alloc")) {
		size_t size = argc > 1 ? strtoull(argv[1], 0, 0) : ES; char *p = SSALLOC(size); int v = ++serial & 255;
		if(p) { for(size_t i = 0; i < ES; i++) p[i] = i < 1 ? v : it_mix(v, i); if(nlive < SSA_MAXELEM + 8) { offs[nlive++] = p - BASE; if(!first) first = p; } }
		ev_begin("alloc"); ev_int("size", size > INT_MAX ? INT_MAX : size); ev_int("off", p ? p - BASE : -1); ev_int("v", v); ev_end();
	}
	else if(IS("allocs")) for(long n = num(argv[1]); n--;) { char *a[2] = {"alloc", 0}; drv_op(1, a); }
	else if(IS("free")) dofree((first ? first : BASE) + num(argv[1]) * ES + (argc > 2 ? num(argv[2]) : 0));
	else if(IS("freel")) { if(nlive) dofree(BASE + offs[num(argv[1]) % nlive]); }   /* one of the live blocks */
	else if(IS("freenull")) { SSFREE((char*)0); ev_begin("free"); ev_int("off", -1); ev_end(); }
	else if(IS("freestack")) { char b[64]; SSFREE(b); SSFREE(b + ES % 64); ev_begin("free"); ev_int("off", -1); ev_end(); }
	else if(IS("read")) {
		qsort(offs, nlive, sizeof *offs, cmpl);
		ev_begin("read"); ev_arr_begin("offs"); for(size_t i = 0; i < nlive; i++) ev_arr_int(offs[i]); ev_arr_end();
		ev_arr_begin("vs"); for(size_t i = 0; i < nlive; i++) ev_arr_int(rd(BASE + offs[i])); ev_arr_end(); ev_end();
	}
	else die("op %s", argv[0]);
}
