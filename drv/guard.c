/* guard_alloc / guard_free with mmap, mprotect and munmap observed */
#include "drv.h"
#include <sys/mman.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef PAGE_SIZE
#define PAGE_SIZE 4096
#endif
#include "guard_alloc.c"
#define PS 4096
extern void *__real_mmap(void *, size_t, int, int, int, off_t); extern int __real_munmap(void *, size_t); extern int __real_mprotect(void *, size_t, int);
/* volatile: mmap and friends are declared leaf, so the compiler would cache them across the calls */
static volatile long npages, foreign, fault_mmap, fault_mprotect, faults; static volatile int spy;
/* mapped ranges in page numbers; volatile: mmap and friends are declared leaf, so the compiler would cache them across the calls */
static volatile struct { uintptr_t a, b; } R[4096]; static volatile int nr;
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
	if(!spy) return __real_mmap(a, n, p, f, fd, o);
	if(fault_mmap) { fault_mmap = 0; faults++; errno = ENOMEM; return MAP_FAILED; }
	char *r = __real_mmap(a, n, p, f, fd, o);
	if(r != MAP_FAILED) { if(nr == 4096) die("ranges"); R[nr].a = (uintptr_t)r / PS; R[nr].b = R[nr].a + (n + PS - 1) / PS; npages += R[nr].b - R[nr].a; nr++; }
	return r;
}
int __wrap_mprotect(void *a, size_t n, int p) {
	if(spy && fault_mprotect) { fault_mprotect = 0; faults++; errno = ENOMEM; return -1; }
	return __real_mprotect(a, n, p);
}
int __wrap_munmap(void *a, size_t n) {
	if(!spy) return __real_munmap(a, n);
	if((uintptr_t)a % PS) { errno = EINVAL; foreign++; return -1; }
	uintptr_t x = (uintptr_t)a / PS, y = x + (n + PS - 1) / PS; long gone = 0;
	for(int i = 0; i < nr; i++) {
		uintptr_t lo = R[i].a > x ? R[i].a : x, hi = R[i].b < y ? R[i].b : y;
		if(lo >= hi) continue;
		__real_munmap((void*)(lo * PS), (hi - lo) * PS); gone += hi - lo;
		uintptr_t ra = R[i].a, rb = R[i].b;
		if(nr > 4090) die("ranges");
		R[i].b = lo;
		if(hi < rb) { R[nr].a = hi; R[nr].b = rb; nr++; }
		if(ra == lo) { R[i].a = R[nr-1].a; R[i].b = R[nr-1].b; nr--; i--; }
	}
	npages -= gone; foreign += (long)(y - x) - gone;     /* pages which are not ours: recorded, never unmapped */
	return 0;
}
static size_t step(size_t i, size_t n) { return n < 1 << 20 || i < 9000 || n - i < 9000 ? 1 : i + (1 << 20) < n - 9000 ? 1 << 20 : n - 8999 - i; }
static sigjmp_buf jb; static volatile int trapping;
static void onsegv(int s, siginfo_t *si, void *c) { if(trapping) siglongjmp(jb, 1); signal(s, SIG_DFL); }
static int trap_read(volatile unsigned char *p) { trapping = 1; if(sigsetjmp(jb, 1)) { trapping = 0; return 1; } (void)*p; trapping = 0; return 0; }
static int trap_write(volatile unsigned char *p) { trapping = 1; if(sigsetjmp(jb, 1)) { trapping = 0; return 1; } *p = 1; trapping = 0; return 0; }
static struct { unsigned char *p; size_t n; int live; } B[256];
static unsigned char pat(int id, size_t i) { return id * 31 + i * 7 + (i >> 8) * 13 + 1; }
void drv_end(void) {}
void drv_session(int argc, char **argv) {
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
	for(int i = 0; i < 256; i++) B[i].live = 0;
	while(nr) { nr--; __real_munmap((void*)(R[nr].a * PS), (R[nr].b - R[nr].a) * PS); } npages = 0;
	foreign = 0; ev_begin("S"); ev_end();
}
void drv_op(int argc, char **argv) {
	long id = argc > 1 ? num(argv[1]) & 255 : 0;
	if(IS("alloc")) {
		size_t n = num(argv[2]); faults = 0; int ok = 0, zero = 1, rw = 1, rf = 0, wf = 0;
		if(B[id].live) return;
		fault_mmap = argc > 3 && !strcmp(argv[3], "mmap"); fault_mprotect = argc > 3 && !strcmp(argv[3], "mprotect");
		foreign = 0; spy = 1; unsigned char *p = guard_alloc(n); spy = 0;
		if(p) {
			ok = 1;
			trapping = 1;
			if(sigsetjmp(jb, 1)) rw = 0;
			else { for(size_t i = 0; i < n; i += step(i, n)) if(p[i]) zero = 0; for(size_t i = 0; i < n; i += step(i, n)) p[i] = pat(id, i); for(size_t i = 0; i < n; i += step(i, n)) if(p[i] != pat(id, i)) rw = 0; }
			trapping = 0;
			rf = trap_read(p + n); wf = trap_write(p + n);
			B[id].p = p; B[id].n = n; B[id].live = 1;
		}
		ev_begin("alloc"); ev_int("id", id); ev_int("need", n / PS + !!(n % PS)); ev_int("big", n > 1 << 30); ev_int("ok", ok); ev_int("zero", zero); ev_int("rw", rw); ev_int("rfault", rf); ev_int("wfault", wf); ev_int("fault", faults > 0); ev_int("total", npages); ev_int("foreign", foreign); ev_end();
	} else if(IS("free")) {
		if(!B[id].live) return;
		foreign = 0; spy = 1; guard_free(B[id].p, B[id].n); spy = 0; B[id].live = 0;
		ev_begin("free"); ev_int("id", id); ev_int("total", npages); ev_int("foreign", foreign); ev_end();
	} else if(IS("check") || IS("fork")) {
		int bad = 0, live = 0;
		if(IS("fork")) { /* what a child writes stays its own */
			pid_t pid = fork(); int st;
			if(!pid) { for(int k = 0; k < 256; k++) if(B[k].live) for(size_t i = 0; i < B[k].n; i += step(i, B[k].n)) B[k].p[i] ^= 255; _exit(0); }
			waitpid(pid, &st, 0);
		}
		for(int k = 0; k < 256; k++) if(B[k].live) {
			live++; trapping = 1;
			if(sigsetjmp(jb, 1)) bad++; else for(size_t i = 0; i < B[k].n; i += step(i, B[k].n)) if(B[k].p[i] != pat(k, i)) { bad++; break; }
			trapping = 0;
			if(!trap_read(B[k].p + B[k].n)) bad++;
		}
		ev_begin("check"); ev_int("bad", bad); ev_int("live", live); ev_end();
	} else die("op %s", argv[0]);
}
