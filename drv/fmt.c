/* printf family.  f KIND SIZE FMT ARG... ; ARG = s:HEX | n | i:U64 */
#include "drv.h"
#include "format.h"
#include "stringptr.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; ev_begin("S"); ev_end(); }
static blob grab(int fd) { blob b; b.n = lseek(fd, 0, SEEK_END); b.p = xmalloc(b.n + 1); lseek(fd, 0, SEEK_SET); size_t o = 0; while(o < b.n) { ssize_t r = read(fd, b.p + o, b.n - o); if(r <= 0) break; o += r; } return b; }
#define A8 A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9]
void drv_op(int argc, char **argv) {
	if(!IS("f")) die("op");
	uint64_t A[10] = {0}; blob bl[10]; int na = 0; long n = num(argv[2]); blob f = unhex(argv[3]); char *fm = (char*)f.p;
	for(int i = 4; i < argc && na < 10; i++, na++) {
		if(argv[i][0] == 's') { bl[na] = unhex(argv[i] + 2); A[na] = (uintptr_t)bl[na].p; }
		else if(argv[i][0] == 'n') { bl[na].p = 0; A[na] = 0; }
		else { bl[na].p = 0; A[na] = num64(argv[i] + 2); }
	}
	long r = 0; blob o = {0, 0}; int nul = 0, over = 0, null = 0; const char *op = "sn";
	if(!strcmp(argv[1], "sn")) {
		char *d = 0;
		if(n >= 0) { d = xmalloc(n ? n : 1); memset(d, 'Q', n ? n : 1); }     /* exact: the sanitizer sees one byte too many */
		r = ulz_snprintf(d, n < 0 ? 0 : n, fm, A8);
		if(n == 0 && d[0] != 'Q') over = 1;
		if(d && n > 0 && r >= 0 && r < n) { o.p = xmalloc(r + 1); memcpy(o.p, d, r); o.n = r; nul = d[r] == 0; }
		xfree(d);
	} else if(!strcmp(argv[1], "sp")) {
		op = "sp"; stringptr *s = stringptr_format(fm, A8); null = !s;
		if(s) { o.p = xmalloc(s->size + 1); memcpy(o.p, s->ptr, s->size); o.n = s->size; nul = s->ptr[s->size] == 0; stringptr_free(s); }
	} else {
		op = "fd"; int m = memfd_create("o", 0);
		if(argv[1][0] == 'f') ulz_fprintf(m, fm, A8);
		else { int sv = dup(1); dup2(m, 1); ulz_printf(fm, A8); dup2(sv, 1); close(sv); }
		o = grab(m); close(m);
	}
	ev_begin(op); ev_bytes("f", f.p, f.n); ev_int("n", n); ev_int("r", r); ev_bytes("o", o.p ? (void*)o.p : "", o.n); ev_int("nul", nul); ev_int("null", null); ev_int("over", over);
	ev_arr_begin("a"); 
	for(int i = 0; i < na; i++) {
		if(argv[4 + i][0] == 's') { ev_obj_begin(); ev_str("t", "s"); ev_bytes("b", bl[i].p, bl[i].n); ev_limbs("w", 0); ev_obj_end(); }
		else { ev_obj_begin(); ev_str("t", argv[4 + i][0] == 'n' ? "n" : "i"); ev_bytes("b", "", 0); ev_limbs("w", A[i]); ev_obj_end(); }
	}
	ev_arr_end(); ev_end();
	for(int i = 0; i < na; i++) if(argv[4 + i][0] == 's') xfree(bl[i].p);
	xfree(o.p); xfree(f.p);
}
