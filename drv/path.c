/* paths and file metadata */
#include "drv.h"
#include "filelib.h"
#include "stringptr.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <utime.h>
static char dir[4096];
static char *path(const char *f) { static char p[4400]; snprintf(p, sizeof p, "%s/%s", dir, f); return p; }
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; snprintf(dir, sizeof dir, "%s", getenv("SCRATCH") ? getenv("SCRATCH") : "/nonexistent"); ev_begin("S"); ev_end(); }
static char *exact(blob b) { char *p = xmalloc(b.n + 1); memcpy(p, b.p, b.n); p[b.n] = 0; return p; }
void drv_op(int argc, char **argv) {
	if(IS("norm")) {
		blob b = unhex(argv[1]); char *p = exact(b), *o = xmalloc(b.n + 1), *src = exact(b); memset(o, 'Q', b.n + 1);
		stringptr s = {p, b.n}; int r = normalizepath(&s); char *q = normalizepath_cstr(src, o);
		ev_begin("norm"); ev_bytes("s", b.p, b.n); ev_int("r", r); ev_bytes("o", s.ptr, r ? s.size : 0); ev_int("nul", r ? s.ptr[s.size] == 0 : 1);
		ev_int("in", s.ptr == p); ev_int("rc", q == o ? 1 : q ? 2 : 0); ev_bytes("oc", q ? q : "", q ? strnlen(q, b.n + 1) : 0); ev_int("kept", !memcmp(src, b.p, b.n + 1)); ev_end();
		xfree(p); xfree(o); xfree(src); xfree(b.p);
	} else if(IS("diff")) {
		blob a = unhex(argv[1]), b = unhex(argv[2]); char *p = exact(a), *q = exact(b), *w = xmalloc(b.n + 1); memset(w, 'Q', b.n + 1);
		stringptr s = {p, a.n}, t = {q, b.n}; long r = getpathdiff(&s, &t, w);
		ev_begin("diff"); ev_bytes("s", a.p, a.n); ev_bytes("t", b.p, b.n); ev_int("r", r); ev_bytes("o", w, r >= 0 && r <= (long)b.n ? r : 0); ev_int("nul", r >= 0 ? w[r] == 0 : 1);
		ev_bytes("s2", r >= 0 ? s.ptr : "", r >= 0 && s.size <= a.n ? s.size : 0); ev_bytes("t2", r >= 0 ? t.ptr : "", r >= 0 && t.size <= b.n ? t.size : 0); ev_end();
		xfree(p); xfree(q); xfree(w); xfree(a.p); xfree(b.p);
	} else if(IS("ext")) {
		blob b = unhex(argv[1]); char *p = exact(b); char *r = getFileExt(p, b.n); ev_begin("ext"); ev_bytes("s", b.p, b.n); ev_int("r", r ? r - p : -1); ev_end(); xfree(p); xfree(b.p);
	} else if(IS("fname")) {
		blob b = unhex_exact(argv[1]); stringptr s = {(char*)b.p, b.n}; char *r = getfilename(&s); ev_begin("fname"); ev_bytes("s", b.p, b.n); ev_int("r", r ? r - (char*)b.p : -1); ev_end(); xfree(b.p);
	} else if(IS("mkfile")) {   /* mkfile NAME SIZE MTIME */
		uint64_t n = num64(argv[2]), t = num64(argv[3]); int fd = open(path(argv[1]), O_CREAT|O_RDWR|O_TRUNC, 0600);
		if(fd == -1 || ftruncate(fd, n)) { if(fd != -1) close(fd); return; }
		struct timespec ts[2] = {{t, 0}, {t, 999999999}}; futimens(fd, ts); close(fd);
		struct stat st; if(stat(path(argv[1]), &st) || (uint64_t)st.st_size != n || (uint64_t)st.st_mtime != t) { unlink(path(argv[1])); return; }
		ev_begin("mkfile"); ev_str("f", argv[1]); ev_limbs("n", n); ev_limbs("t", t); ev_end();
	} else if(IS("link")) { if(!symlink(argv[1], path(argv[2]))) { ev_begin("link"); ev_str("f", argv[1]); ev_str("g", argv[2]); ev_end(); } }
	else if(IS("rmfile")) { unlink(path(argv[1])); ev_begin("rmfile"); ev_str("f", argv[1]); ev_end(); }
	else if(IS("size")) { uint64_t r = getfilesize(path(argv[1])); ev_begin("size"); ev_str("f", argv[1]); ev_limbs("r", r); ev_end(); }
	else if(IS("mtime")) { int64_t r = getFileModTime(path(argv[1])); ev_begin("mtime"); ev_str("f", argv[1]); ev_limbs("r", r); ev_end(); }
	else die("op %s", argv[0]);
}
