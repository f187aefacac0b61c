/* temporary directories (C28).  mkdir is recorded; for the fixed locations it
 * is a stand-in with planned outcomes, in the scratch directory it is real. */
#include "drv.h"
#include "filelib.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
static struct { char *p; unsigned m; int e; } calls[2000]; static int nc;
static int plan[2000], pn, pi, real_; static unsigned rnd[4000]; static int rn, ri; static unsigned lcg = 1;
static char **have; static int nh;
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) {
	int e = 0, i; if(nc == 2000) die("mkdir loop");
	if(real_) e = __real_mkdir(p, m) ? errno : 0;
	else {
		e = pi < pn ? plan[pi++] : 0;
		/* a name that has been created exists */
		for(i = 0; !e && i < nh; i++) if(!strcmp(have[i], p)) e = EEXIST;
		if(!e) { have = xrealloc(have, (nh + 1) * sizeof *have); have[nh++] = xstrdup(p); }
	}
	calls[nc].p = xstrdup(p); calls[nc].m = m; calls[nc++].e = e;
	if(e) { errno = e; return -1; } return 0;
}
int __wrap_mkdirat(int d, const char *p, mode_t m) { (void)d; return __wrap_mkdir(p, m); }
int __wrap_rand(void) { if(ri < rn) return rnd[ri++]; lcg = lcg * 1103515245u + 12345; return lcg >> 1 & 0x7fffffff; }
static char dir[4000], home[4000];
void drv_end(void) {}
static void cleanall(const char *d) {
	DIR *x = opendir(d); struct dirent *e; char p[8000]; if(!x) return;
	while((e = readdir(x))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { snprintf(p, 8000, "%s/%s", d, e->d_name); if(unlink(p)) { chmod(p, 0700); rmdir(p); } }
	closedir(x);
}
void drv_session(int argc, char **argv) {
	(void)argc; (void)argv; const char *s = getenv("SCRATCH"); if(!s) die("SCRATCH");
	if(!*home) { snprintf(home, sizeof home, "%s/h", s); __real_mkdir(home, 0755); if(chdir(home)) die("chdir"); snprintf(dir, sizeof dir, "d"); }
	chmod(dir, 0700); cleanall(dir); rmdir(dir); if(__real_mkdir(dir, 0700)) die("mkdir %s", dir);
	for(int i = 0; i < nh; i++) xfree(have[i]); nh = 0; pn = pi = rn = ri = 0; real_ = 0; umask(022); lcg = 1;
	ev_begin("S"); ev_end();
}
static char *before[4000]; static int nb;
static void snap(void) { for(int i = 0; i < nb; i++) xfree(before[i]); nb = 0; DIR *x = opendir(dir); struct dirent *e; if(!x) return; while((e = readdir(x))) if(nb < 4000) before[nb++] = xstrdup(e->d_name); closedir(x); }
static void news(void) {
	DIR *x = opendir(dir); struct dirent *e; int i; ev_arr_begin("new");
	if(x) { while((e = readdir(x))) { for(i = 0; i < nb; i++) if(!strcmp(before[i], e->d_name)) break; if(i == nb) ev_arr_bytes(e->d_name, strlen(e->d_name)); } closedir(x); }
	ev_arr_end();
}
static void out(void) {
	ev_arr_begin("calls"); for(int i = 0; i < nc; i++) { ev_obj_begin(); ev_bytes("p", calls[i].p, strlen(calls[i].p)); ev_int("m", calls[i].m); ev_int("e", calls[i].e); ev_obj_end(); xfree(calls[i].p); }
	ev_arr_end(); nc = 0;
}
void drv_op(int argc, char **argv) {
	int i;
	if(IS("plan")) { pn = pi = 0; for(i = 1; i < argc && i < 2000; i++) plan[pn++] = num(argv[i]); return; }
	if(IS("rand")) { rn = ri = 0; for(i = 1; i < argc && i < 4000; i++) rnd[rn++] = num(argv[i]); return; }
	if(IS("seed")) { lcg = num(argv[1]); return; }
	if(IS("umask")) { umask(strtol(argv[1], 0, 8)); return; }
	if(IS("perm")) { chmod(dir, strtol(argv[1], 0, 8)); return; }
	if(IS("make")) { blob b = unhex(argv[2]); char p[8000]; snprintf(p, 8000, "d/%s", b.p); if(argv[1][0] == 'd') __real_mkdir(p, 0777); else if(argv[1][0] == 'l') { if(symlink("nowhere", p)) {} } else close(open(p, O_CREAT | O_WRONLY, 0600)); xfree(b.p); return; }
	if(IS("mkd")) {    /* mkd REAL TEMPLATE */
		real_ = num(argv[1]); blob t = unhex(argv[2]), o = unhex(argv[2]); nc = 0; struct stat st; st.st_mode = 0; snap();
		char *r = ulz_mkdtemp((char*)o.p);
		ev_begin("mkd"); ev_bytes("t", t.p, t.n); ev_int("real", real_); ev_int("r", r ? r == (char*)o.p ? 1 : 2 : 0); ev_bytes("o", r ? r : "", r ? strlen(r) : 0);
		if(real_ && r && lstat(r, &st)) st.st_mode = 0777; ev_int("mode", real_ && r && !S_ISDIR(st.st_mode) ? 0777 : st.st_mode & 07777); out(); news(); ev_end(); xfree(t.p); xfree(o.p); return;
	}
	if(IS("mkt")) {    /* mkt PREFIX BUFSIZE */
		real_ = 0; blob t = unhex(argv[1]); size_t n = num(argv[2]); char *b = xmalloc(n); if(n) memset(b, 'Q', n); nc = 0;
		size_t r = mktempdir((char*)t.p, b, n); 
		ev_begin("mkt"); ev_bytes("t", t.p, t.n); ev_int("n", n); ev_int("r", r > 1000000 ? 1000000 : r); ev_bytes("o", r ? b : "", r ? strnlen(b, n) : 0); out(); ev_end(); xfree(t.p); xfree(b); return;
	}
	die("op %s", argv[0]);
}
