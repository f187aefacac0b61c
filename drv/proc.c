/* child processes (C27).  Calls of the library that create pipes, build the
 * spawn request or wait can be made to fail. */
#include "drv.h"
#include "proclib.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
static struct process P[8]; static int up[8], defc[8]; static char **AV[8];
static volatile int plan_fn, plan_n, plan_hit, plan_wait;
enum { F_PIPE = 1, F_SPAWN, F_INIT, F_ADDCLOSE, F_DUP2 };
static int fault(int fn) { if(plan_fn != fn || !plan_n || --plan_n) return 0; plan_hit = 1; return 1; }
#define W(ret, name, params, args, fn, onfail) ret __real_##name params; ret __wrap_##name params { if(fault(fn)) onfail; return __real_##name args; }
W(int, pipe, (int *p), (p), F_PIPE, { errno = EMFILE; return -1; })
W(int, pipe2, (int *p, int f), (p, f), F_PIPE, { errno = EMFILE; return -1; })
#define SPA (pid_t *p, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[])
W(int, posix_spawnp, SPA, (p, f, fa, at, a, e), F_SPAWN, return EAGAIN)
W(int, posix_spawn, SPA, (p, f, fa, at, a, e), F_SPAWN, return EAGAIN)
W(int, posix_spawn_file_actions_init, (posix_spawn_file_actions_t *a), (a), F_INIT, return ENOMEM)
W(int, posix_spawn_file_actions_addclose, (posix_spawn_file_actions_t *a, int f), (a, f), F_ADDCLOSE, return ENOMEM)
W(int, posix_spawn_file_actions_adddup2, (posix_spawn_file_actions_t *a, int f, int g), (a, f, g), F_DUP2, return ENOMEM)
pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_waitpid(pid_t p, int *s, int o) { if(plan_wait > 0 && !(o & WNOHANG)) { plan_wait--; errno = EINTR; return -1; } return __real_waitpid(p, s, o); }

/* identities: pipes negative (order of appearance), everything else positive */
static unsigned long ino[4096]; static int inoc; 
static long ident(unsigned long i, int fifo) { int k; i = i * 2 + fifo; for(k = 0; k < inoc; k++) if(ino[k] == i) break; if(k == inoc) { if(inoc == 4096) die("inodes"); ino[inoc++] = i; } return fifo ? -1 - k : 1 + k; }
static void fdlist(const char *key) {
	int f; struct stat st; ev_arr_begin(key);
	for(f = 0; f < 256; f++) if(f != ev_fd && !fstat(f, &st)) ev_arr_triple(f, ident(st.st_ino, S_ISFIFO(st.st_mode)), !!(fcntl(f, F_GETFD) & FD_CLOEXEC));
	ev_arr_end();
}
static char rb[200000]; static size_t rn;
/* one line from a descriptor: 1 = got, 0 = nothing within the time, 2 = end of file */
static int rline(int fd) {
	rn = 0;
	for(;;) {
		struct pollfd p = { fd, POLLIN, 0 }; int r = poll(&p, 1, 3000); if(r < 0 && errno == EINTR) continue; if(r <= 0) return 0;
		ssize_t k = read(fd, rb + rn, 1); if(k <= 0) return 2;
		if(rb[rn] == '\n') { rb[rn] = 0; return 1; }
		if(++rn == sizeof rb - 1) return 0;
	}
}
static int cmd(int k, const char *s) { size_t n = strlen(s); signal(SIGPIPE, SIG_IGN); while(n) { ssize_t r = write(P[k].fds[0], s, n); if(r <= 0) return 0; s += r; n -= r; } return 1; }
static void reapall(void) {
	for(int k = 0; k < 8; k++) if(up[k]) { for(int i = 0; i < 3; i++) if(P[k].fds[i] >= 3) close(P[k].fds[i]); kill(P[k].pid, SIGKILL); __real_waitpid(P[k].pid, 0, 0); up[k] = 0; }
	for(int f = 3; f < 200; f++) if(f != ev_fd) close(f);
}
void drv_end(void) { reapall(); }
static void setlim(int n) {     /* n descriptors left (-1: many) */
	static struct rlimit old; static int have; struct rlimit l; if(!have) { getrlimit(RLIMIT_NOFILE, &old); have = 1; }
	l = old; if(n >= 0) { int f; for(f = 0; f < 250; f++) { struct stat st; if(fstat(f, &st)) { if(!n) break; n--; } } l.rlim_cur = f; }
	setrlimit(RLIMIT_NOFILE, &l);
}
static void onalrm(int s) { (void)s; }
static volatile pid_t stopped; static void oncont(int s) { (void)s; kill(stopped, SIGCONT); }
void drv_session(int argc, char **argv) {
	reapall(); plan_fn = plan_wait = 0; inoc = 0; memset(P, 0, sizeof P);
	for(int i = 1; i < argc; i++) {    /* extra descriptors of the caller: number, c = close on exec */
		int n = num(argv[i]), fd = open("/dev/null", O_RDWR | (strchr(argv[i], 'c') ? O_CLOEXEC : 0)); if(fd != n) { if(strchr(argv[i], 'c')) fcntl(fd, F_DUPFD_CLOEXEC, n); else dup2(fd, n); close(fd); }
	}
	ev_begin("S"); fdlist("fds"); ev_end();
}
void drv_op(int argc, char **argv) {
	if(IS("plan")) { plan_fn = num(argv[1]); plan_n = num(argv[2]); plan_hit = 0; return; }
	int k = num(argv[1]) & 7;
	if(IS("open")) {      /* open K LIMIT BAD arg... */
		char **av = xcalloc(argc + 2, sizeof *av); int lim = num(argv[2]), bad = num(argv[3]), n = 0, i;
		static char path[4096]; snprintf(path, sizeof path, "%s", getenv("CHILD"));
		av[n++] = bad == 1 ? "/nonexistent/program" : bad == 2 ? "/" : path; for(i = 4; i < argc; i++) av[n++] = (char*)unhex(argv[i]).p;
		if(up[k]) return;      /* an attempt that was planned to fail did not: the slot is in use */
		if(lim >= 0) setlim(lim);
		memset(&P[k], 0x5a, sizeof P[k]); errno = 0; int r = process_open(&P[k], av), e = errno; if(lim >= 0) setlim(-1);
		plan_fn = 0; int any = 0; for(i = 0; i < 8; i++) any |= up[i];
		ev_begin("open"); ev_int("k", k); ev_int("r", r); ev_int("errno", e); ev_int("bad", !!bad); ev_int("fault", plan_hit || lim >= 0); plan_hit = 0;
		if(!r) { ev_arr_begin("pf"); for(i = 0; i < 3; i++) ev_arr_int(P[k].fds[i]); ev_arr_end(); up[k] = 1; AV[k] = av; defc[k] = 0; }
		fdlist("fds"); ev_int("nochild", any || r == 0 ? 1 : __real_waitpid(-1, 0, WNOHANG) == -1 && errno == ECHILD); ev_end(); return;
	}
	if(IS("env")) { int fd = num(argv[2]); if(argv[1][0] == 'o') { int x = open("/dev/null", O_RDONLY); if(x != fd) { dup2(x, fd); close(x); } } else close(fd); ev_begin("env"); fdlist("fds"); ev_end(); return; }
	if(!up[k] || (!IS("close") && (P[k].fds[0] == -1 || up[k] == 2))) return;
	if(IS("info")) {
		int got = cmd(k, "I\n") ? rline(P[k].fds[1]) : 0; ev_begin("info"); ev_int("k", k); ev_int("got", got);
		ev_arr_begin("want"); for(char **p = AV[k]; *p; p++) ev_arr_bytes(*p, strlen(*p)); ev_arr_end();
		if(got == 1) {
			char *t = strtok(rb, " "); ev_arr_begin("argv");
			while((t = strtok(0, " ")) && *t != 'F') { blob b = unhex(t); ev_arr_bytes(b.p, b.n); xfree(b.p); }
			ev_arr_end(); ev_arr_begin("fds");
			while(t && (t = strtok(0, " "))) { int f, ff; unsigned long in; if(sscanf(t, "%d:%lu:%d", &f, &in, &ff) == 3) ev_arr_pair(f, ident(in, ff)); }
			ev_arr_end();
		}
		ev_end(); return;
	}
	if(IS("say")) {       /* say K o|e TEXT */
		static char b[140000]; sprintf(b, "%s %s\n", argv[2][0] == 'o' ? "O" : "E", argv[3]); int got = cmd(k, b) ? rline(P[k].fds[argv[2][0] == 'o' ? 1 : 2]) : 0;
		ev_begin("say"); ev_int("k", k); ev_int("got", got); ev_bytes("s", argv[3], strlen(argv[3])); ev_bytes("o", rb, got == 1 ? rn : 0); ev_end(); return;
	}
	if(IS("def") || IS("slow")) { char b[40]; snprintf(b, 40, "%c %ld\n", IS("def") ? 'D' : 'Q', num(argv[2])); if(IS("def")) defc[k] = num(argv[2]); cmd(k, b); rline(P[k].fds[1]); return; }
	if(IS("eofin")) { close(P[k].fds[0]); P[k].fds[0] = -1; int got = rline(P[k].fds[1]); ev_begin("eofin"); ev_int("k", k); ev_int("got", got); ev_bytes("o", rb, got == 1 ? rn : 0); ev_int("code", defc[k]); ev_end(); return; }
	if(IS("exit")) { char b[40]; int c = num(argv[2]); snprintf(b, 40, "X %d\n", c); cmd(k, b); int a = rline(P[k].fds[1]), d = rline(P[k].fds[2]); ev_begin("exit"); ev_int("k", k); ev_int("code", c); ev_int("eof1", a == 2); ev_int("eof2", d == 2); ev_end(); up[k] = 2; return; }
	if(IS("close")) {     /* close K EINTRS SIGNALMS STOPMS: the child is stopped, and goes on after that time */
		int sg = argc > 3 ? num(argv[3]) : 0, sp = argc > 4 ? num(argv[4]) : 0; plan_wait = argc > 2 ? num(argv[2]) : 0;
		if(sp && up[k] == 1) { stopped = P[k].pid; siginfo_t si; if(kill(stopped, SIGSTOP)) die("stop"); while(waitid(P_PID, stopped, &si, WSTOPPED | WEXITED | WNOWAIT) && errno == EINTR);
			struct sigaction sa = { .sa_handler = oncont, .sa_flags = SA_RESTART }; sigaction(SIGALRM, &sa, 0); struct itimerval it = { {0, sp * 1000}, {0, sp * 1000} }; setitimer(ITIMER_REAL, &it, 0); sg = 1; }
		else if(sg) { struct sigaction sa = { .sa_handler = onalrm }; sigaction(SIGALRM, &sa, 0); struct itimerval it = { {0, sg * 1000}, {0, sg * 1000} }; setitimer(ITIMER_REAL, &it, 0); }
		pid_t pid = P[k].pid; int r = process_close(&P[k]); plan_wait = 0;
		if(sg) { struct itimerval it = {{0,0},{0,0}}; setitimer(ITIMER_REAL, &it, 0); signal(SIGALRM, SIG_IGN); }
		int gone = __real_waitpid(pid, 0, WNOHANG) == -1 && errno == ECHILD; if(!gone) { kill(pid, SIGKILL); __real_waitpid(pid, 0, 0); }
		up[k] = 0; ev_begin("close"); ev_int("k", k); ev_int("r", r); ev_int("defcode", defc[k]); ev_int("gone", gone); fdlist("fds"); ev_end(); return;
	}
	die("op %s", argv[0]);
}
