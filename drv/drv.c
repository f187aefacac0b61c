#include "drv.h"
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

extern ssize_t __real_write(int, const void *, size_t) __attribute__((weak));
static ssize_t rawwrite(int fd, const void *b, size_t n) {
	if(__real_write) return __real_write(fd, b, n);
	return write(fd, b, n);
}
int ev_fd = -1;
static char *buf; static size_t blen, bcap;
static char curline[512];
static int first, afirst, depth;

void ev_flush(void) {
	size_t o = 0;
	while(o < blen) {
		ssize_t r = rawwrite(ev_fd, buf + o, blen - o);
		if(r <= 0) break;
		o += r;
	}
	blen = 0;
}
static void need(size_t n) {
	if(blen + n > bcap) { bcap = (blen + n) * 2; buf = xrealloc(buf, bcap); }
}
static void putstr(const char *s) { size_t n = strlen(s); need(n); memcpy(buf + blen, s, n); blen += n; }
static void putq(const char *s) {
	need(strlen(s) * 6 + 3);
	buf[blen++] = '"';
	for(; *s; s++) {
		unsigned char c = *s;
		if(c == '"' || c == '\\') { buf[blen++] = '\\'; buf[blen++] = c; }
		else if(c < 32 || c > 126) blen += sprintf(buf + blen, "?");
		else buf[blen++] = c;
	}
	buf[blen++] = '"';
}
static size_t evstart;
static void key(const char *k) {
	if(!first) putstr(",");
	first = 0;
	putq(k); putstr(":");
}
void ev_begin(const char *op) { evstart = blen; putstr("{"); first = 1; key("op"); putq(op); }
void ev_int(const char *k, long v) { char t[32]; key(k); snprintf(t, 32, "%ld", CLAMP31(v)); putstr(t); }
void ev_bool(const char *k, int v) { key(k); putstr(v ? "true" : "false"); }
void ev_str(const char *k, const char *s) { key(k); putq(s); }
static void bytes(const void *p, size_t n) {
	const unsigned char *b = p;
	need(n * 4 + 4);
	buf[blen++] = '[';
	for(size_t i = 0; i < n; i++) {
		unsigned c = b[i];
		if(i) buf[blen++] = ',';
		if(c >= 100) buf[blen++] = '0' + c / 100;
		if(c >= 10) buf[blen++] = '0' + c / 10 % 10;
		buf[blen++] = '0' + c % 10;
	}
	buf[blen++] = ']';
}
void ev_bytes(const char *k, const void *p, size_t n) { key(k); bytes(p, n); }
void ev_cbytes(const char *k, const char *s) { ev_bytes(k, s ? s : "", s ? strlen(s) : 0); }
void ev_limbs(const char *k, uint64_t v) {
	char t[64]; key(k);
	snprintf(t, 64, "[%u,%u,%u,%u]", (unsigned)(v >> 48 & 65535), (unsigned)(v >> 32 & 65535), (unsigned)(v >> 16 & 65535), (unsigned)(v & 65535));
	putstr(t);
}
void ev_arr_begin(const char *k) { key(k); putstr("["); afirst = 1; }
void ev_arr_int(long v) { char t[32]; snprintf(t, 32, afirst ? "%ld" : ",%ld", CLAMP31(v)); afirst = 0; putstr(t); }
void ev_arr_bytes(const void *p, size_t n) { if(!afirst) putstr(","); afirst = 0; bytes(p, n); }
void ev_arr_triple(long a, long b, long c) { char t[96]; snprintf(t, 96, afirst ? "[%ld,%ld,%ld]" : ",[%ld,%ld,%ld]", CLAMP31(a), CLAMP31(b), CLAMP31(c)); afirst = 0; putstr(t); }
void ev_arr_pair(long a, long b) { char t[96]; snprintf(t, 96, afirst ? "[%ld,%ld]" : ",[%ld,%ld]", CLAMP31(a), CLAMP31(b)); afirst = 0; putstr(t); }
void ev_arr_end(void) { putstr("]"); }
void ev_obj_begin(void) { putstr(afirst ? "{" : ",{"); first = 1; }
void ev_obj_end(void) { putstr("}"); first = 0; afirst = 0; }
void ev_end(void) { putstr("}\n"); evstart = blen; if(blen > (1 << 16)) ev_flush(); }

char *xstrdup(const char *s) { size_t n = strlen(s) + 1; char *r = xmalloc(n); memcpy(r, s, n); return r; }
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static blob unhex_(const char *s, int extra) {
	blob b; size_t i;
	if(!strcmp(s, "-")) s = "";
	b.n = strlen(s) / 2;
	b.p = xmalloc(b.n + extra ? b.n + extra : 1);
	for(i = 0; i < b.n; i++) b.p[i] = hv(s[2*i]) * 16 + hv(s[2*i+1]);
	if(extra) b.p[b.n] = 0;
	return b;
}
blob unhex(const char *s) { return unhex_(s, 1); }
blob unhex_exact(const char *s) { return unhex_(s, 0); }
long num(const char *s) { return strtol(s, 0, 0); }
uint64_t num64(const char *s) { return *s == '-' ? (uint64_t)strtoll(s, 0, 0) : strtoull(s, 0, 0); }

static void crash(const char *what) {
	blen = evstart;            /* drop a half-written event */
	ev_begin("crash"); ev_str("what", what); ev_str("line", curline);
	putstr("}\n"); ev_flush();
}
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void death(void) { crash("sanitizer"); }
static void onalarm(int s) { crash("hang"); _exit(99); }
static void onsig(int s) { crash("signal"); _exit(98); }
void die(const char *fmt, ...) {
	va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a); fputc('\n', stderr);
	_exit(3);
}
int drv_cpu_limit = 20;
static void arm(void) {
	struct itimerval it = { {0,0}, {drv_cpu_limit,0} };
	setitimer(ITIMER_PROF, &it, 0);
}
int main(int argc, char **argv) {
	if(argc < 3) die("usage: driver SCRIPT TRACE");
	FILE *f = fopen(argv[1], "r");
	if(!f) die("cannot open script");
	ev_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0666);
	if(ev_fd < 0) die("cannot open trace");
	ev_fd = fcntl(ev_fd, F_DUPFD_CLOEXEC, 200);
	if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
	else { signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); }
	signal(SIGPROF, onalarm);
	char *script = 0; size_t sl = 0, sc = 0, r;
	for(;;) {
		if(sc - sl < 65536) { sc = (sc + 65536) * 2; script = xrealloc(script, sc); }
		r = fread(script + sl, 1, sc - sl - 1, f);
		if(!r) break;
		sl += r;
	}
	fclose(f);
	script[sl] = 0;
	static char *tok[100000];
	char *p = script;
	while(*p) {
		char *e = strchr(p, '\n'); if(e) *e = 0;
		snprintf(curline, sizeof curline, "%s", p);
		int n = 0; char *q = p;
		while(*q && n < 99999) {
			while(*q == ' ') *q++ = 0;
			if(!*q) break;
			tok[n++] = q;
			while(*q && *q != ' ') q++;
		}
		tok[n] = 0;
		if(n && tok[0][0] != '#') {
			if(!strcmp(tok[0], "S")) { int o = drv_cpu_limit; arm(); drv_session(n, tok); if(drv_cpu_limit != o) arm(); }
			else drv_op(n, tok);
		}
		if(!e) break;
		p = e + 1;
	}
	drv_end();
	ev_flush();
	_exit(0);
}
