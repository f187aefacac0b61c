/* logger (C31): every call with four descriptors open, 1 and 2 among them */
#include "drv.h"
#include "logger.h"
#include "optparser.h"
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
static int fds[4] = { 1, 2, -1, -1 }; static long long now; static int clobber = 5;
ssize_t __real_write(int, const void *, size_t);
/* a successful call may leave any value in errno */
ssize_t __wrap_write(int f, const void *p, size_t n) { ssize_t r = __real_write(f, p, n); if(r >= 0) errno = clobber; return r; }
time_t __wrap_time(time_t *t) { if(t) *t = now; return now; }
void drv_end(void) {}
static void drain(int show) {
	for(int i = 0; i < 4; i++) {
		off_t n = lseek(fds[i], 0, SEEK_END); unsigned char *b = xmalloc(n + 1); lseek(fds[i], 0, SEEK_SET);
		if(n > 0 && read(fds[i], b, n) != n) die("read back");
		if(show) ev_arr_bytes(b, n); xfree(b); if(ftruncate(fds[i], 0)) die("truncate"); lseek(fds[i], 0, SEEK_SET);
	}
}
void drv_session(int argc, char **argv) {
	(void)argc; (void)argv; setenv("TZ", "UTC0", 1); tzset();
	if(fds[2] < 0) for(int i = 0; i < 4; i++) { int f = memfd_create("log", 0); if(f < 0) die("memfd"); if(i < 2) { fflush(stdout); dup2(f, fds[i]); close(f); } else fds[i] = f; }
	drain(0); clobber = 5; now = 0; ev_begin("S"); ev_end();
}
static void begin(const char *op, int f) { ev_begin(op); ev_int("fd", f); }
static void finish(void) { ev_arr_begin("out"); drain(1); ev_arr_end(); ev_end(); }
/* arguments: TYPE:VALUE with VALUE hex bytes, N for a null pointer, or a number */
static struct arg { int t, null; blob b; uint64_t w; stringptr sp, *spp; char *cp; int i; unsigned u; long l; unsigned long ul; vario v; } A[16]; static int na;
static void args(int from, int argc, char **argv) {
	na = 0;
	for(int i = from; i < argc && na < 12; i++, na++) {
		struct arg *a = &A[na]; char *v = argv[i] + 2; a->t = argv[i][0] - '0'; a->null = 0; a->b = unhex("-"); a->w = 0; a->v.type = a->t;
		if(a->t <= 2) { if(*v == 'N') { a->null = 1; a->cp = 0; a->spp = 0; } else { a->b = unhex(v); a->cp = (char*)a->b.p; a->sp.ptr = (char*)a->b.p; a->sp.size = a->b.n; a->spp = &a->sp; } }
		else a->w = num64(v);
		a->i = a->w; a->u = a->w; a->l = a->w; a->ul = a->w;
		a->v.ptr = a->t == VT_STRINGPTR ? (void*)&a->spp : a->t <= 2 ? (void*)&a->cp : a->t == VT_INT ? (void*)&a->i : a->t == VT_UNSIGNED ? (void*)&a->u : a->t == VT_LONG ? (void*)&a->l : (void*)&a->ul;
	}
}
static void evargs(void) {
	ev_arr_begin("a"); for(int i = 0; i < na; i++) { ev_obj_begin(); ev_int("t", A[i].t); ev_int("null", A[i].null); ev_bytes("s", A[i].b.p, A[i].b.n); ev_limbs("w", A[i].w); ev_obj_end(); xfree(A[i].b.p); } ev_arr_end();
}
/* long texts: what arrived is written as a number of repetitions of the piece and the rest */
static void runs(blob pc) {
	ev_arr_begin("out");
	for(int i = 0; i < 4; i++) {
		off_t n = lseek(fds[i], 0, SEEK_END), k = 0; unsigned char *b = xmalloc(n + 1); lseek(fds[i], 0, SEEK_SET);
		for(off_t d = 0, g; d < n; d += g) if((g = read(fds[i], b + d, n - d)) <= 0) die("read back");
		while((size_t)(n - k * pc.n) >= pc.n && !memcmp(b + k * pc.n, pc.p, pc.n)) k++;
		off_t left = n - k * pc.n; if(left > 300) left = 300;
		ev_obj_begin(); ev_int("k", k); ev_bytes("rest", b + k * pc.n, left); ev_obj_end();
		xfree(b); if(ftruncate(fds[i], 0)) die("truncate"); lseek(fds[i], 0, SEEK_SET);
	}
	ev_arr_end(); ev_end();
}
#define V(i) (na > i ? &A[i].v : VNIL)
void drv_op(int argc, char **argv) {
	int f = argc > 1 ? num(argv[1]) : 1, fd = fds[f - 1 & 3];
	if(IS("errno")) { clobber = num(argv[1]); return; }
	if(IS("now")) { now = strtoll(argv[1], 0, 10); return; }
	if(IS("put")) { begin("put", f); args(2, argc, argv); log_put(fd, V(0), V(1), V(2), V(3), V(4), V(5), V(6), V(7), V(8), V(9), V(10), V(11), VNIL); evargs(); finish(); return; }
	if(IS("puts")) { begin("puts", f); args(2, argc, argv); if(A[0].t == 0) log_puts(fd, A[0].spp); else log_putc(fd, A[0].cp); evargs(); finish(); return; }
	if(IS("putd")) { begin("putd", f); uint64_t w = num64(argv[2]); int s = num(argv[3]); log_putd(fd, w, s); ev_limbs("w", w); ev_int("sg", !!s); finish(); return; }
	if(IS("putln")) { begin("putln", f); log_putln(fd); finish(); return; }
	if(IS("space")) { begin("space", f); log_putspace(fd); finish(); return; }
	if(IS("error")) {    /* error FD ERRNO MSG; FD 2 also through the macro */
		begin("error", f); int e = num(argv[2]); args(3, argc, argv); char *d = xstrdup(strerror(e)); errno = e;
		if(f == 2 && e % 2) log_perror(A[0].cp); else log_puterror(fd, A[0].cp);
		ev_bytes("descr", d, strlen(d)); xfree(d); evargs(); finish(); return;
	}
	if(IS("stamp")) { begin("stamp", f); long long hi = now / 1000000, lo = now % 1000000; if(lo < 0) lo += 1000000, hi--; ev_int("hi", hi); ev_int("lo", lo); log_timestamp(fd); finish(); return; }
	if(IS("big")) {      /* big FD KIND PIECE K */
		blob pc = unhex(argv[3]); long k = num(argv[4]); char *t = xmalloc(pc.n * k + 1), *q = t; for(long i = 0; i < k; i++, q += pc.n) memcpy(q, pc.p, pc.n); *q = 0;
		stringptr sp = { t, pc.n * k }; const char *kind = argv[2]; char *d = xstrdup(strerror(2)); begin("big", f); errno = 2;
		if(!strcmp(kind, "puts")) log_puts(fd, &sp); else if(!strcmp(kind, "putc")) log_putc(fd, t); else if(!strcmp(kind, "put")) log_put(fd, VARIS(&sp), VNIL); else if(!strcmp(kind, "putv")) log_put(fd, VARIC(t), VNIL); else if(!strcmp(kind, "putm")) log_put(fd, VARISL(""), VARICC((const char*)t), VARISL(""), VNIL); else log_puterror(fd, t);
		ev_str("kind", kind); ev_bytes("p", pc.p, pc.n); ev_int("k", k); ev_bytes("descr", d, strlen(d)); runs(pc); xfree(d); xfree(t); xfree(pc.p); return;
	}
	if(IS("macro")) {    /* the argument macros */
		unsigned long w = num64(argv[2]); stringptr s = { "ab\0c", 4 };
		if(f < 1 || f > 4) die("fd"); begin("put", f);
		log_put(fd, VARIS(&s), VARISL("lit"), VARIC("cs"), VARICC("ccs"), VARII((int)w), VARIU((unsigned)w), VARIL((long)w), VARIUL(w), VNIL);
		ev_arr_begin("a");
		static const struct { int t; const char *s; int n; } T[8] = { {0, "ab\0c", 4}, {0, "lit", 3}, {1, "cs", 2}, {2, "ccs", 3}, {3, "", 0}, {4, "", 0}, {5, "", 0}, {6, "", 0} };
		for(int i = 0; i < 8; i++) { ev_obj_begin(); ev_int("t", T[i].t); ev_int("null", 0); ev_bytes("s", T[i].s, T[i].n); ev_limbs("w", w); ev_obj_end(); }
		ev_arr_end(); finish(); return;
	}
	if(IS("printall")) {
		int n = argc - 1; char **v = xcalloc(n + 2, sizeof *v); v[0] = "prog"; blob b[200]; int i; op_state st, *p = &st;
		for(i = 0; i < n && i < 200; i++) { b[i] = unhex(argv[i + 1]); v[i + 1] = (char*)b[i].p; }
		op_init(p, n + 1, v); begin("printall", 1); op_printall(p); ev_arr_begin("a"); for(i = 0; i < n; i++) { ev_arr_bytes(b[i].p, strlen((char*)b[i].p)); xfree(b[i].p); } ev_arr_end(); finish(); xfree(v); return;
	}
	die("op %s", argv[0]);
}
