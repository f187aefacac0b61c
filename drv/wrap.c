/* malloc-family interposition (ld --wrap): accounting and failure injection */
#include "drv.h"
#include <stdarg.h>
long mem_live, mem_live_bytes, mem_calls, mem_failed, mem_fail_at, mem_badfree;
int mem_fail_all, mem_quiet;
struct ent { const void *p; size_t n; long id; };
static struct ent *tab; static size_t tcap, tused; static long serial;
static size_t hsh(const void *p) { uintptr_t x = (uintptr_t)p >> 3; x *= 0x9E3779B97F4A7C15ull; return x >> 20; }
#define TOMB ((const void*)1)
static struct ent *find(const void *p) {
	if(!tcap) return 0;
	for(size_t i = hsh(p) % tcap;; i = (i + 1) % tcap) {
		if(!tab[i].p) return 0;
		if(tab[i].p == p) return &tab[i];
	}
}
static void ins(const void *p, size_t n, long id) {
	if(tused * 2 + 16 > tcap) {
		struct ent *o = tab; size_t oc = tcap;
		tcap = tcap ? tcap * 2 : 4096; tab = xcalloc(tcap, sizeof *tab); tused = 0;
		for(size_t i = 0; i < oc; i++) if(o[i].p && o[i].p != TOMB) {
			size_t j = hsh(o[i].p) % tcap;
			while(tab[j].p) j = (j + 1) % tcap;
			tab[j] = o[i]; tused++;
		}
		xfree(o);
	}
	size_t i = hsh(p) % tcap;
	while(tab[i].p && tab[i].p != TOMB) i = (i + 1) % tcap;
	if(!tab[i].p) tused++;
	tab[i].p = p; tab[i].n = n; tab[i].id = id;
}
int mem_is_live(const void *p) { return p && p != TOMB && find(p) != 0; }
size_t mem_size(const void *p) { struct ent *e = find(p); return e ? e->n : 0; }
long mem_id(const void *p) { struct ent *e = p ? find(p) : 0; return e ? e->id : 0; }
void mem_forget(const void *p) {
	struct ent *e = p ? find(p) : 0;
	if(e) { mem_live--; mem_live_bytes -= e->n; e->p = TOMB; }
}
void mem_reset(void) {
	xfree(tab); tab = 0; tcap = tused = 0; serial = 0;
	mem_live = mem_live_bytes = mem_calls = mem_failed = mem_fail_at = mem_badfree = 0;
	mem_fail_all = 0;
}
void *(*mem_big_alloc)(size_t); void (*mem_big_free)(void *, size_t);   /* for blocks above 1 GB */
#define BIG(n) (mem_big_alloc && (n) > ((size_t)1 << 30))
static int fails(void) {
	mem_calls++;
	if(mem_fail_at > 0) {
		if(mem_fail_at == 1) {
			mem_failed++;
			if(!mem_fail_all) mem_fail_at = 0;
			return 1;
		}
		mem_fail_at--;
	}
	return 0;
}
static void *note(void *p, size_t n) {
	if(p) { ins(p, n, ++serial); mem_live++; mem_live_bytes += n; }
	return p;
}
void *__wrap_malloc(size_t n) { if(BIG(n)) return note(mem_big_alloc(n), n); if(fails()) { errno = ENOMEM; return 0; } return note(xmalloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { if(fails()) { errno = ENOMEM; return 0; } return note(xcalloc(a, b), a * b); }
void *__wrap_realloc(void *o, size_t n) {
	struct ent *e; void *p; size_t on = 0;
	if(!o) return __wrap_malloc(n);
	if(fails()) { errno = ENOMEM; return 0; }
	e = find(o);
	if(BIG(n) || (e && BIG(e->n))) {   /* contents: the first and last bytes */
		size_t k; void *b = __wrap_malloc(n); on = e ? e->n : 0; k = on < n ? on : n; if(k > 65536) { memcpy((char*)b + k - 65536, (char*)o + k - 65536, 65536); k = 65536; } memcpy(b, o, k); __wrap_free(o); return b;
	}
	if(e) { on = e->n; e->p = TOMB; mem_live--; mem_live_bytes -= on; }
	/* always move: stale pointers into the old block become visible */
	if(n == 0) { xfree(o); return 0; }
	p = xrealloc(o, n);
	return note(p, n);
}
void *__wrap_reallocarray(void *o, size_t a, size_t b) { return __wrap_realloc(o, a * b); }
void __wrap_free(void *p) {
	if(!p) return;
	struct ent *e = find(p);
	if(e) { e->p = TOMB; mem_live--; mem_live_bytes -= e->n; if(BIG(e->n)) { mem_big_free(p, e->n); return; } }
	else { mem_badfree++; if(mem_quiet) return; }
	xfree(p);
}
char *__wrap_strndup(const char *s, size_t n) {
	size_t l = strnlen(s, n); char *r = __wrap_malloc(l + 1);
	if(r) { memcpy(r, s, l); r[l] = 0; }
	return r;
}
char *__wrap_strdup(const char *s) { size_t l = strlen(s) + 1; char *r = __wrap_malloc(l); if(r) memcpy(r, s, l); return r; }
char *__wrap___strdup(const char *s) { return __wrap_strdup(s); }
int __wrap_posix_memalign(void **o, size_t a, size_t n) {
	if(fails()) return ENOMEM;
	extern int __real_posix_memalign(void **, size_t, size_t);
	int r = __real_posix_memalign(o, a, n); if(!r) note(*o, n); return r;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p; return __wrap_posix_memalign(&p, a < sizeof p ? sizeof p : a, n) ? 0 : p; }
int __wrap_vasprintf(char **o, const char *f, va_list a) {
	va_list b; va_copy(b, a); int n = vsnprintf(0, 0, f, b); va_end(b);
	if(n < 0) return -1;
	*o = __wrap_malloc(n + 1); if(!*o) return -1;
	return vsnprintf(*o, n + 1, f, a);
}
int __wrap_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vasprintf(o, f, a); va_end(a); return r; }
