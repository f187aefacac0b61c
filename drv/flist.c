/* filelist_search (C29) over trees made in the scratch directory */
#include "drv.h"
#include "filelist.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
static char home[3000]; static int ready;
void drv_end(void) {}
static void wipe(const char *d) {        /* below the current scratch directory only */
	DIR *x; struct dirent *e; char p[9000]; chmod(d, 0700); if(!(x = opendir(d))) return;
	while((e = readdir(x))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { struct stat s; snprintf(p, 9000, "%s/%s", d, e->d_name); if(!lstat(p, &s) && S_ISDIR(s.st_mode)) { wipe(p); rmdir(p); } else unlink(p); }
	closedir(x);
}
void drv_session(int argc, char **argv) {
	(void)argc; (void)argv; const char *s = getenv("SCRATCH"); if(!s || *s != '/') die("SCRATCH");
	snprintf(home, sizeof home, "%s/w", s);
	if(!ready) { mkdir(home, 0700); ready = 1; }
	if(chdir(home)) die("chdir"); wipe(home);
	ev_begin("S"); ev_end();
}
void drv_op(int argc, char **argv) {
	if(IS("d")) { blob b = unhex(argv[1]); if(mkdir((char*)b.p, 0700)) die("mkdir %s", argv[1]); xfree(b.p); return; }
	if(IS("f")) { blob b = unhex(argv[1]); int f = open((char*)b.p, O_CREAT | O_WRONLY, 0600); if(f < 0) die("open %s", argv[1]); close(f); xfree(b.p); return; }
	if(IS("l")) { blob b = unhex(argv[1]), t = unhex(argv[2]); if(symlink((char*)t.p, (char*)b.p)) die("symlink"); xfree(b.p); xfree(t.p); return; }
	if(IS("chmod")) { blob b = unhex(argv[1]); chmod((char*)b.p, strtol(argv[2], 0, 8)); xfree(b.p); return; }
	if(IS("ls")) {    /* ls DIR|NULL MASK FLAGS */
		int null = !strcmp(argv[1], "NULL"); blob d = unhex(null ? "-" : argv[1]), m = unhex(argv[2]); int f = num(argv[3]);
		stringptr ds = { (char*)d.p, d.n }, ms = { (char*)m.p, m.n }; filelist *l = xmalloc(sizeof *l); memset(l, 0x5a, sizeof *l);
		ev_begin("ls"); ev_bytes("d", d.p, d.n); ev_bytes("m", m.p, m.n); ev_int("f", f);
		/* what is there */
		char *full = xmalloc(d.n + 400); struct dirent *e; DIR *x = opendir(d.n ? (char*)d.p : "."); ev_int("ok", !!x); ev_arr_begin("have");
		if(x) { while((e = readdir(x))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
			struct stat a, b; int k; sprintf(full, "%s%s%s", d.n ? (char*)d.p : ".", "/", e->d_name);
			if(strlen(full) >= PATH_MAX) { k = e->d_type == DT_DIR ? 1 : e->d_type == DT_LNK ? 2 : 0; }
			else { if(lstat(full, &a)) die("lstat %s", full); k = S_ISDIR(a.st_mode) ? 1 : S_ISLNK(a.st_mode) && !stat(full, &b) && S_ISDIR(b.st_mode) ? 2 : 0; }
			ev_obj_begin(); ev_bytes("n", e->d_name, strlen(e->d_name)); ev_int("k", k); ev_obj_end(); }
			closedir(x); }
		ev_arr_end(); xfree(full);
		int r = filelist_search(l, null ? 0 : &ds, &ms, f);
		ev_int("r", r); ev_arr_begin("out");
		if(!r) { size_t i, n = stringptrlist_getsize(l->files); for(i = 0; i < n; i++) { stringptr *s = stringptrlist_get(l->files, i); ev_arr_bytes(s->ptr, s->size); } }
		ev_arr_end(); ev_end(); if(!r) filelist_free(l); xfree(l); xfree(d.p); xfree(m.p); return;
	}
	die("op %s", argv[0]);
}
