/* sleeps and clocks (C30) against a virtual kernel: how much of each request
 * is slept before an interruption is planned by the script. */
#include "drv.h"
#include "timelib.h"
#include <time.h>
#include <sys/time.h>
#include <signal.h>
static void onsig(int s) { (void)s; }
typedef __int128 i128;
#define G 1000000000LL
static long long baseA, baseB; static struct { long long s; long ns; } now; static long long mono = 123456789LL * G;
/* plan: permille of the request slept before the interruption, -1: error, -2: exactly 1 ns, -3: all but 1 ns */
static int plan[3000], pn, pi; static struct { i128 q, s; int e; } calls[4000]; static int nc;
static int einval(const struct timespec *t) { return t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= G; }
static int vsleep(i128 q, i128 *rem) {
	int e = 0; i128 s = q; if(nc == 4000) die("endless sleep loop");
	if(pi < pn) { int p = plan[pi++]; if(p <= -100) { e = -p - 100; s = 0; } else { e = EINTR; s = p == -2 ? q > 0 : p == -3 ? q - (q > 0) : q / 1000 * p + q % 1000 * p / 1000; } }
	calls[nc].q = q; calls[nc].s = s; calls[nc++].e = e; *rem = q - s;
	i128 t = (i128)now.s * G + now.ns + s; now.s = t / G; now.ns = t % G; mono += s;
	return e;
}
static int fin(int e, i128 rem, struct timespec *r, const struct timespec *q) {
	if(e == EINTR && r) { r->tv_sec = rem / G; r->tv_nsec = rem % G; }
	return e;
}
int __wrap_nanosleep(const struct timespec *q, struct timespec *r) {
	i128 rem; int e;
	if(einval(q)) { if(nc < 4000) { calls[nc].q = calls[nc].s = 0; calls[nc++].e = EINVAL; } else die("endless sleep loop"); errno = EINVAL; return -1; }
	e = vsleep((i128)q->tv_sec * G + q->tv_nsec, &rem); e = fin(e, rem, r, q);
	if(e) { errno = e; return -1; } return 0;
}
static i128 clk(int c) { return c == CLOCK_REALTIME ? (i128)now.s * G + now.ns : mono; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *r) {
	i128 rem, n; if(einval(q)) { calls[nc].q = calls[nc].s = 0; calls[nc++].e = EINVAL; return EINVAL; }
	n = (i128)q->tv_sec * G + q->tv_nsec; if(fl & TIMER_ABSTIME) { n -= clk(c); if(n < 0) n = 0; r = 0; }
	int e = vsleep(n, &rem); return fin(e, rem, r, q);
}
int __wrap_usleep(unsigned us) { i128 rem; int e = vsleep((i128)us * 1000, &rem); if(e) { errno = e; return -1; } return 0; }
unsigned __wrap_sleep(unsigned s) { i128 rem; vsleep((i128)s * G, &rem); return (rem + G - 1) / G; }
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = now.s; t->tv_usec = now.ns / 1000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { i128 x = clk(c); t->tv_sec = x / G; t->tv_nsec = x % G; if(t->tv_nsec < 0) { t->tv_nsec += G; t->tv_sec--; } return 0; }
time_t __wrap_time(time_t *t) { if(t) *t = now.s; return now.s; }
void drv_end(void) {}
void drv_session(int argc, char **argv) {
	setenv("TZ", argc > 1 ? argv[1] : "UTC0", 1); tzset(); pn = pi = nc = 0; baseA = baseB = 0; now.s = 0; now.ns = 0;
	ev_begin("S"); ev_end();
}
static void dig(const char *k, i128 v) { char b[100]; if(v < 0) v = -v; ev_arr_begin(k); ev_arr_int(v / G / G); ev_arr_int(v / G % G); ev_arr_int(v % G); ev_arr_end(); (void)b; }
static void hilo(const char *h, const char *l, long long s) { long long hi = s / 1000000, lo = s % 1000000; if(lo < 0) { lo += 1000000; hi--; } ev_int(h, hi); ev_int(l, lo); }
void drv_op(int argc, char **argv) {
	int i;
	if(IS("plan")) { pn = pi = 0; for(i = 1; i < argc && i < 3000; i++) plan[pn++] = num(argv[i]); return; }
	if(IS("now")) { now.s = strtoll(argv[1], 0, 10); now.ns = num(argv[2]); return; }
	if(IS("msleep") || IS("microsleep")) {
		long n = strtol(argv[1], 0, 10); nc = 0; int ms = IS("msleep"); errno = 0;
		int r = ms ? msleep(n) : microsleep(n);
		ev_begin("sleep"); ev_str("u", ms ? "ms" : "us"); ev_int("neg", n < 0); dig("n", n); ev_int("r", r); ev_arr_begin("calls");
		for(i = 0; i < nc; i++) { ev_obj_begin(); dig("q", calls[i].q); dig("s", calls[i].s); ev_int("e", calls[i].e); ev_obj_end(); }
		ev_arr_end(); ev_end(); return;
	}
	if(IS("base")) { baseA = strtoll(argv[1], 0, 10); baseB = strtoll(argv[2], 0, 10); return; }     /* added to the first and to the second instant of the following differences */
	long long kd = baseA - baseB; if(kd < 0) kd = -kd;
	if(IS("mspassed")) {   /* mspassed SEC USEC (start); "now" is the end */
		struct timeval t; t.tv_sec = strtoll(argv[1], 0, 10) + baseB; t.tv_usec = num(argv[2]); long long s = now.s; long us = now.ns / 1000; now.s += baseA;
		long r = mspassed(&t); now.s = s;
		ev_begin("passed"); ev_int("as", s); ev_int("au", us); ev_int("bs", strtoll(argv[1], 0, 10)); ev_int("bu", num(argv[2])); hilo("kh", "kl", kd); ev_int("neg", r < 0); dig("d", r); ev_end(); return;
	}
	if(IS("tdiff")) {
		struct timespec a, b; a.tv_sec = strtoll(argv[1], 0, 10); a.tv_nsec = num(argv[2]); b.tv_sec = strtoll(argv[3], 0, 10); b.tv_nsec = num(argv[4]);
		ev_begin("tdiff"); ev_int("as", a.tv_sec); ev_int("an", a.tv_nsec); ev_int("bs", b.tv_sec); ev_int("bn", b.tv_nsec);
		a.tv_sec += baseA; b.tv_sec += baseB; hilo("kh", "kl", kd); long long r = timespec_diff(&a, &b); ev_int("neg", r < 0); dig("d", r); ev_end(); return;
	}
	if(IS("utime")) { ev_begin("utime"); hilo("hi", "lo", now.s); ev_int("us", now.ns / 1000); long long r = getutime(); ev_int("neg", r < 0); dig("d", r); ev_end(); return; }
	if(IS("stamp")) { struct timeval t; memset(&t, 0x5a, sizeof t); ev_begin("stamp"); hilo("hi", "lo", now.s); ev_int("us", now.ns / 1000); gettimestamp(&t); hilo("rh", "rl", t.tv_sec); ev_int("ru", t.tv_usec); ev_end(); return; }
	if(IS("text")) {
		size_t n = num(argv[1]); char *b = xmalloc(n); memset(b, 'Q', n); struct tm tm; time_t t = now.s; localtime_r(&t, &tm);
		ev_begin("text"); hilo("hi", "lo", now.s); ev_int("off", tm.tm_gmtoff); ev_int("n", n); size_t r = timestamp(b, n); ev_int("r", r); ev_bytes("out", b, n ? strnlen(b, n) : 0); ev_end(); xfree(b); return;
	}
	if(IS("real")) {       /* real UNIT N SIGNAL-INTERVAL-US: only in the build without a virtual kernel */
		struct itimerval it = { {0, num(argv[3])}, {0, num(argv[3])} }, off = { {0, 0}, {0, 0} }; struct sigaction sa; struct timespec a, b;
		memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sigaction(SIGALRM, &sa, 0);
		int ms = argv[1][0] == 'm'; long n = num(argv[2]); clock_gettime(CLOCK_MONOTONIC, &a); setitimer(ITIMER_REAL, &it, 0);
		int r = ms ? msleep(n) : microsleep(n);
		clock_gettime(CLOCK_MONOTONIC, &b); setitimer(ITIMER_REAL, &off, 0);
		ev_begin("real"); ev_int("want", ms ? n * 1000 : n); ev_int("el", (b.tv_sec - a.tv_sec) * 1000000 + (b.tv_nsec - a.tv_nsec) / 1000 + 1); ev_int("r", r); ev_end(); return;
	}
	die("op %s", argv[0]);
}
