/* option lookup (C26): argv HEX..., get NAME, flag NAME, print */
#include <unistd.h>
#include <sys/mman.h>
#include "drv.h"
#include "optparser.h"
static char **av; static int ac; static op_state op;
static void clear(void) { for(int i = 0; i < ac; i++) xfree(av[i]); xfree(av); av = 0; ac = 0; }
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; clear(); ev_begin("S"); ev_end(); }
void drv_op(int argc, char **argv) {
	if(IS("argv")) {
		clear(); ac = argc; av = xmalloc((ac + 1) * sizeof *av); av[0] = xstrdup("--name=prog");   /* the program's own name is never an option */
		ev_begin("argv"); ev_arr_begin("a");
		for(int i = 1; i < ac; i++) { blob b = unhex(argv[i]); av[i] = (char*)b.p; ev_arr_bytes(b.p, b.n); }
		ev_arr_end(); ev_end(); av[ac] = 0; memset(&op, 0x5a, sizeof op); op_init(&op, ac, av); return;
	}
	if(IS("print")) {     /* standard output, recorded */
		int m = memfd_create("out", 0), o1 = dup(1); if(m < 0 || o1 < 0) die("memfd"); fflush(stdout); dup2(m, 1); op_printall(&op); dup2(o1, 1); close(o1);
		long n = lseek(m, 0, SEEK_END); char *b = xmalloc(n + 1); if(pread(m, b, n, 0) != n) die("pread"); close(m);
		ev_begin("print"); ev_bytes("b", b, n); ev_end(); xfree(b); return;
	}
	blob o = unhex_exact(argv[1]); stringptr s = { (char*)o.p, o.n };
	if(IS("get")) {
		char *r = op_get(&op, &s); int i, k = r ? 99 : 0; long of = 0;
		for(i = 1; r && i < ac; i++) if(r >= av[i] && r <= av[i] + strlen(av[i])) { k = i; of = r - av[i]; }
		ev_begin("get"); ev_bytes("o", o.p, o.n); ev_int("i", k); ev_int("off", of); ev_end();
	} else { int r = op_hasflag(&op, &s); ev_begin("flag"); ev_bytes("o", o.p, o.n); ev_int("r", r); ev_end(); }
	xfree(o.p);
}
