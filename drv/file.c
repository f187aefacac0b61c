/* whole-file load/save (C14), line reader (C15).  Files live in $SCRATCH. */
#include "drv.h"
#include "iowrap.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "fileparser.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
static char dir[4096];
static char *path(const char *f) { static char p[2][4300]; static int k; k ^= 1; snprintf(p[k], sizeof p[k], "%s/%s", dir, f); return p[k]; }
static int nfds(void) { int n = 0; for(int i = 0; i < 200; i++) if(fcntl(i, F_GETFD) != -1) n++; return n; }
static int F0; static long M0, armed;
static void begin(void) { F0 = nfds(); M0 = mem_failed; mem_fail_at = armed; armed = 0; io_on = 1; }
static void called(void) { io_on = 0; mem_fail_at = 0; }
static void fin(void) { ev_int("err", io_errs > 0); ev_int("short", io_shorts > 0); ev_int("eof", io_eofs > 0); ev_int("oom", mem_failed > M0); ev_int("fds", nfds() - F0); ev_end(); io_reset(); }
static void ev_rle(const char *k, const unsigned char *p, size_t n) {
	ev_arr_begin(k);
	for(size_t i = 0; i < n;) { size_t j = i; while(j < n && p[j] == p[i]) j++; ev_arr_int(p[i]); ev_arr_int(j - i); i = j; }
	ev_arr_end();
}
static blob slurp(const char *fn) {   /* n = -1 if absent */
	blob b = {0}; int fd = open(fn, O_RDONLY); struct stat st;
	if(fd == -1) { b.n = -1; return b; }
	fstat(fd, &st); b.p = xmalloc(st.st_size + 1); b.n = 0;
	while(b.n < (size_t)st.st_size) { ssize_t r = read(fd, b.p + b.n, st.st_size - b.n); if(r <= 0) break; b.n += r; }
	close(fd); return b;
}
static void put(const char *fn, const void *p, size_t n) { int fd = open(fn, O_WRONLY|O_CREAT|O_TRUNC, 0644); if(fd == -1) die("put %s", fn); size_t o = 0; while(o < n) { ssize_t r = write(fd, (char*)p + o, n - o); if(r <= 0) die("put"); o += r; } close(fd); }
/* runs: b,n,b,n... */
static blob runs(char *s) {
	blob b = {xmalloc(1), 0}; size_t cap = 1;
	if(strcmp(s, "-")) while(*s) {
		long v = strtol(s, &s, 10); if(*s == ',') s++; long n = strtol(s, &s, 10); if(*s == ',') s++;
		if(b.n + n + 1 > cap) { cap = (b.n + n + 1) * 2; b.p = xrealloc(b.p, cap); }
		memset(b.p + b.n, v, n); b.n += n;
	}
	b.p = xrealloc(b.p, b.n ? b.n : 1);     /* exact: no terminator */
	return b;
}
static fileparser *P;
static void pclose_(void) { io_bias = 0; if(P) { fileparser_close(P); xfree(P); } P = 0; }
void drv_end(void) { pclose_(); }
void drv_session(int argc, char **argv) {
	pclose_(); io_reset(); armed = 0;
	if(!*dir) { snprintf(dir, sizeof dir, "%s/f", getenv("SCRATCH") ? getenv("SCRATCH") : "/nonexistent"); mkdir(dir, 0700); }
	DIR *d = opendir(dir); struct dirent *e; if(!d) die("scratch %s", dir);
	while((e = readdir(d))) if(e->d_name[0] != '.') { chmod(path(e->d_name), 0600); unlink(path(e->d_name)); }
	closedir(d); umask(022);
	ev_begin("S"); ev_end();
}
static void ev_file(const char *fn) { blob b = slurp(fn); ev_int("there", b.n != (size_t)-1); ev_rle("disk", b.p, b.n == (size_t)-1 ? 0 : b.n); xfree(b.p); }
void drv_op(int argc, char **argv) {
	if(IS("plan")) { io_set(argc - 1, argv + 1); return; }
	if(IS("fail")) { armed = num(argv[1]); return; }
	if(IS("put")) { blob b = runs(argv[2]); put(path(argv[1]), b.p, b.n); ev_begin("put"); ev_str("f", argv[1]); ev_rle("c", b.p, b.n); ev_end(); xfree(b.p); }
	else if(IS("chmod")) { chmod(path(argv[1]), strtol(argv[2], 0, 8)); }
	else if(IS("save")) {
		blob b = runs(argv[2]); stringptr s = {(char*)b.p, b.n}; char *fn = path(argv[1]);
		begin(); size_t r = stringptr_tofile(fn, &s); called();
		ev_begin("save"); ev_str("f", argv[1]); ev_rle("c", b.p, b.n); ev_int("n", b.n); ev_int("r", r); ev_file(fn); fin(); xfree(b.p);
	} else if(IS("load")) {
		char *fn = path(argv[1]); begin(); stringptr *s = stringptr_fromfile(fn); called();
		ev_begin("load"); ev_str("f", argv[1]); ev_int("null", !s); ev_rle("r", s ? (void*)s->ptr : "", s ? s->size : 0); ev_int("n", s ? s->size : 0); ev_int("nul", s ? s->ptr[s->size] == 0 : 1);
		if(s) { mem_fail_at = 0; stringptr_free(s); } fin();
	} else if(IS("lsave")) {
		stringptrlist *L = stringptrlist_new(4); static blob bl[150000]; int n = 0; char *fn = path(argv[1]);
		if(argc == 5 && argv[3][0] == '#') { int cnt = num(argv[3] + 1), k = num(argv[4]); char t[16], h[40];    /* many different lines */
			for(int i = 0; i < cnt; i++) { int m = snprintf(t, 16, "%d", (int)(i * 7919L % k)); if(i % 5 == 0) m = 0; for(int j = 0; j < m; j++) snprintf(h + 2 * j, 3, "%02x", t[j]); if(!m) strcpy(h, "-"); bl[n] = unhex_exact(h); stringptrlist_add(L, (char*)bl[n].p, bl[n].n); n++; }
		} else for(int i = 3; i < argc && n < 400; i++) { bl[n] = unhex_exact(argv[i]); stringptr s = {(char*)bl[n].p, bl[n].n}; stringptrlist_add(L, s.ptr, s.size); n++; }
		int mode = strtol(argv[2], 0, 8), had = access(fn, F_OK) == 0; begin(); int r = stringptrlist_tofile(L, fn, mode); called();
		struct stat st; int m = stat(fn, &st) ? -1 : (int)(st.st_mode & 07777);
		blob d = slurp(fn);
		ev_begin("lsave"); ev_str("f", argv[1]); ev_arr_begin("c"); for(int i = 0; i < n; i++) ev_arr_bytes(bl[i].p, bl[i].n); ev_arr_end(); ev_int("r", r); ev_int("there", d.n != (size_t)-1);
		ev_int("had", had); ev_int("mode", m); ev_int("want", mode & ~022 & 07777);
		ev_bytes("disk", d.p, d.n == (size_t)-1 ? 0 : d.n); fin();
		xfree(d.p); while(n) xfree(bl[--n].p); stringptrlist_free(L);
	} else if(IS("lput")) { blob b = unhex(argv[2]); put(path(argv[1]), b.p, b.n); ev_begin("lput"); ev_str("f", argv[1]); ev_bytes("c", b.p, b.n); ev_end(); xfree(b.p); }
	else if(IS("lload")) {
		stringptrlist *L = stringptrlist_new(num(argv[2])); int pre = argc > 3 ? num(argv[3]) : 0;
		for(int i = 0; i < pre; i++) stringptrlist_add_strdup(L, SPL("old"));
		char *fn = path(argv[1]); begin(); int r = stringptrlist_fromfile(L, fn); called();
		ev_begin("lload"); ev_str("f", argv[1]); ev_int("pre", pre); ev_int("r", r); int nul = 1, oldok = 1;
		ev_arr_begin("ps"); for(size_t i = 0; i < stringptrlist_getsize(L); i++) { stringptr *s = stringptrlist_get(L, i); if(i < (size_t)pre) { if(!EQ(s, SPL("old"))) oldok = 0; continue; } ev_arr_bytes(s->ptr, s->size); if(s->ptr[s->size]) nul = 0; } ev_arr_end();
		ev_int("nul", nul); ev_int("oldok", oldok); fin(); stringptrlist_freeall(L);
	}
	/* ------------------------------------------------ line reader */
	else if(IS("pnew")) {
		pclose_(); blob b = unhex(argv[1]); put(path("p"), b.p, b.n); P = xmalloc(sizeof *P); memset(P, 0xee, sizeof *P);
		begin(); int r = fileparser_open(P, path("p")); called();
		if(!r && argc > 2) { io_bias = strtoll(argv[2], 0, 0); P->fpos += io_bias; }
		ev_begin("pnew"); ev_bytes("c", b.p, b.n); ev_int("r", r); fin(); xfree(b.p); if(r) { xfree(P); P = 0; }
	} else if(IS("pnone")) {
		fileparser *q = xmalloc(sizeof *q); memset(q, 0xee, sizeof *q); begin(); int r = fileparser_open(q, path("none")); called(); ev_begin("pnone"); ev_int("r", r); fin(); xfree(q);
	} else if(IS("rl")) {
		if(!P) return;
		stringptr s = {0, 0}; begin(); int r = fileparser_readline(P); int g = r == 0 ? fileparser_getline(P, &s) : 0; called();
		ev_begin("rl"); ev_int("b", 1024); ev_int("r", r); ev_int("g", g); ev_bytes("s", r == 0 ? s.ptr : "", r == 0 && s.size < 1024 ? s.size : 0); ev_int("nul", r == 0 ? (s.size < 1024 ? s.ptr[s.size] == 0 : -1) : 1); fin();
	} else if(IS("ru")) {
		if(!P) return;
		size_t b = num(argv[1]); char *buf = xmalloc(b); memset(buf, 'Q', b); begin(); int r = fileparser_readline_userbuf(P, buf, b); called();
		size_t n = r == 0 ? P->len : 0;
		ev_begin("rl"); ev_int("b", b); ev_int("r", r); ev_int("g", 0); ev_bytes("s", buf, n < b ? n : 0); ev_int("nul", r == 0 ? (n < b ? buf[n] == 0 : -1) : 1); fin(); xfree(buf);
	} else if(IS("nl")) {
		if(!P) return;
		begin(); ssize_t r = fileparser_getnextlinelength(P); called(); ev_begin("nl"); ev_int("r", r); fin();
	} else if(IS("pclose")) {
		if(!P) return;
		begin(); int r = fileparser_close(P); called(); io_bias = 0; ev_begin("pclose"); ev_int("r", r); fin(); xfree(P); P = 0;
	} else if(IS("stdin")) {   /* stdin HEX BUFSIZE CHOMP COUNT */
		blob b = unhex(argv[1]); put(path("in"), b.p, b.n); size_t bs = num(argv[2]); int ch = num(argv[3]), cnt = num(argv[4]);
		if(!freopen(path("in"), "r", stdin)) die("freopen"); 
		ev_begin("stdin"); ev_bytes("c", b.p, b.n); ev_int("b", bs); ev_int("chomp", ch); ev_int("cnt", cnt);
		int nulls = 0, nul = 1, after = 0; ev_arr_begin("ps");
		for(int i = 0; i < cnt; i++) { char *buf = xmalloc(bs); stringptr s = read_stdin_line(buf, bs, ch); if(!s.ptr) nulls++; else { ev_arr_bytes(s.ptr, s.size); if(s.ptr[s.size]) nul = 0; if(nulls) after = 1; } xfree(buf); }
		ev_arr_end(); ev_int("nulls", nulls); ev_int("after", after); ev_int("nul", nul); ev_end(); xfree(b.p);
	}
	else die("op %s", argv[0]);
}
