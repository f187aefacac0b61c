/* the stdio replacement header (C35): a program that includes it after stdio.h.
 * S SAME; p/o/e/d FMT ARG.. (printf, fprintf stdout, stderr, dprintf 3); sn/vs SIZE FMT ARG..; puts HEX; perror ERRNO HEX; files */
#include "drv.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <stdio.h>
#include "stdio-repl.h"
static int fds[3] = { -1, -1, -1 }, same; static long seen[3];
void drv_end(void) {}
static void grab(int i, int all) {
	long n = lseek(fds[i], 0, SEEK_END), from = all ? 0 : seen[i]; unsigned char *b = xmalloc(n - from + 1); if(n - from > 0 && pread(fds[i], b, n - from, from) != n - from) die("pread");
	ev_arr_bytes(b, n - from); xfree(b); if(!all) seen[i] = n;
}
void drv_session(int argc, char **argv) {
	if(fds[0] < 0) for(int i = 0; i < 3; i++) { fds[i] = memfd_create("f", 0); if(fds[i] < 0) die("memfd"); }
	same = num(argv[1]); fflush(stdout); fflush(stderr); (void)argc;
	for(int i = 0; i < 3; i++) { if(ftruncate(fds[i], 0)) die("truncate"); lseek(fds[i], 0, SEEK_SET); seen[i] = 0; }
	dup2(fds[0], 1); dup2(fds[same ? 0 : 1], 2); dup2(fds[2], 30);
	ev_begin("S"); ev_int("same", same); ev_end();
}
static ssize_t va(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); ssize_t r = vsnprintf(d, n, f, ap); va_end(ap); return r; }
static uint64_t A[10]; static blob bl[10]; static int na;
static void args(int from, int argc, char **argv) { na = 0; memset(A, 0, sizeof A); for(int i = from; i < argc && na < 10; i++, na++) { bl[na].p = 0; bl[na].n = 0; if(argv[i][0] == 's') { bl[na] = unhex(argv[i] + 2); A[na] = (uintptr_t)bl[na].p; } else if(argv[i][0] == 'i') A[na] = num64(argv[i] + 2); } }
static void evargs(int from, char **argv) {
	ev_arr_begin("a"); for(int i = 0; i < na; i++) { int t = argv[from + i][0]; ev_obj_begin(); ev_str("t", t == 's' ? "s" : t == 'n' ? "n" : "i"); ev_bytes("b", bl[i].p ? (void*)bl[i].p : "", bl[i].n); ev_limbs("w", t == 's' ? 0 : A[i]); ev_obj_end(); if(bl[i].p) xfree(bl[i].p); } ev_arr_end();
}
static void fin(void) { ev_arr_begin("add"); for(int i = 0; i < 3; i++) grab(i, 0); ev_arr_end(); ev_end(); }
/* long texts: a number of repetitions of the piece and the rest */
static void runs(blob pc) {
	ev_arr_begin("add");
	for(int i = 0; i < 3; i++) {
		long n = lseek(fds[i], 0, SEEK_END) - seen[i], k = 0; unsigned char *b = xmalloc(n + 1); for(long d = 0, g; d < n; d += g) if((g = pread(fds[i], b + d, n - d, seen[i] + d)) <= 0) die("pread");
		while((size_t)(n - k * pc.n) >= pc.n && !memcmp(b + k * pc.n, pc.p, pc.n)) k++;
		long left = n - k * pc.n; if(left > 300) left = 300;
		ev_obj_begin(); ev_int("k", k); ev_bytes("rest", b + k * pc.n, left); ev_obj_end(); xfree(b);
		if(ftruncate(fds[i], seen[i])) die("truncate"); lseek(fds[i], seen[i], SEEK_SET);
	}
	ev_arr_end(); ev_end();
}
#define A8 A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9]
void drv_op(int argc, char **argv) {
	if(IS("p") || IS("o") || IS("e") || IS("d")) {
		blob f = unhex(argv[1]); char *fm = (char*)f.p; args(2, argc, argv); int fd = 1;
		if(IS("p")) printf(fm, A8); else if(IS("o")) fprintf(stdout, fm, A8); else if(IS("e")) { fd = 2; fprintf(stderr, fm, A8); } else { fd = 3; dprintf(30, fm, A8); }
		ev_begin("print"); ev_int("fd", fd); ev_bytes("f", f.p, f.n); evargs(2, argv); fin(); xfree(f.p);
	} else if(IS("sn") || IS("vs")) {
		long n = num(argv[1]); blob f = unhex(argv[2]); char *fm = (char*)f.p; args(3, argc, argv);
		char *d = 0; blob o = { 0, 0 }; int nul = 0, over = 0; if(n >= 0) { d = xmalloc(n ? n : 1); memset(d, 'Q', n ? n : 1); }
		long r = IS("sn") ? snprintf(d, n < 0 ? 0 : n, fm, A8) : va(d, n < 0 ? 0 : n, fm, A8);
		if(n == 0 && d[0] != 'Q') over = 1;
		if(d && n > 0 && r >= 0 && r < n) { o.p = xmalloc(r + 1); memcpy(o.p, d, r); o.n = r; nul = d[r] == 0; }
		xfree(d); ev_begin("sn"); ev_bytes("f", f.p, f.n); ev_int("n", n); ev_int("r", r); ev_bytes("o", o.p ? (void*)o.p : "", o.n); ev_int("nul", nul); ev_int("over", over); evargs(3, argv); fin(); xfree(f.p); xfree(o.p);
	} else if(IS("puts")) { blob s = unhex(argv[1]); puts((char*)s.p); ev_begin("puts"); ev_bytes("s", s.p, s.n); fin(); xfree(s.p); }
	else if(IS("perror")) { blob s = unhex(argv[2]); int e = num(argv[1]); char *d = xstrdup(strerror(e)); errno = e; perror((char*)s.p); ev_begin("perror"); ev_bytes("s", s.p, s.n); ev_bytes("d", d, strlen(d)); xfree(d); fin(); xfree(s.p); }
	else if(IS("big")) {    /* big KIND PIECE K; taken out of the files again */
		blob pc = unhex(argv[2]); long k = num(argv[3]); char *t = xmalloc(pc.n * k + 1), *q = t; for(long i = 0; i < k; i++, q += pc.n) memcpy(q, pc.p, pc.n); *q = 0;
		char *d = xstrdup(strerror(2)); int e = !strcmp(argv[1], "perror"); errno = 2; if(e) perror(t); else puts(t);
		ev_begin("big"); ev_int("fd", e ? 2 : 1); ev_bytes("p", pc.p, pc.n); ev_int("k", k); ev_bytes("d", d, strlen(d)); runs(pc); xfree(d); xfree(t); xfree(pc.p);
	}
	else if(IS("files")) { ev_begin("files"); ev_arr_begin("c"); for(int i = 0; i < 3; i++) grab(i, 1); ev_arr_end(); ev_end(); }
	else die("op %s", argv[0]);
}
