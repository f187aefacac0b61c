/* daemonize (C34): d FORKFAIL TTY LIMIT fd...  The call is made in a child with
 * exactly the given descriptors open; the daemon reports to a file. */
#include "drv.h"
#include "proclib.h"
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/sysmacros.h>
#include <time.h>
static volatile int ff;
pid_t __real_fork(void); pid_t __wrap_fork(void) { if(ff) { errno = EAGAIN; return -1; } return __real_fork(); }
pid_t __real_vfork(void); pid_t __wrap_vfork(void) { if(ff) { errno = EAGAIN; return -1; } return __real_vfork(); }
void drv_end(void) {}
void drv_session(int argc, char **argv) { (void)argc; (void)argv; prctl(PR_SET_CHILD_SUBREAPER, 1); ev_begin("S"); ev_end(); }
static char path[4096];
struct rep { int pid, leader, newsid, tty, n; struct { int fd, isnull, rw; } f[64]; } R; static int lim = 256;
static void report(pid_t osid, const char *want) {
	memset(&R, 0, sizeof R); R.pid = getpid(); R.leader = getsid(0) == getpid(); R.newsid = getsid(0) != osid;
	struct stat st; int f;
	for(f = 0; f < (lim > 1024 ? lim : 1024) && R.n < 64; f++) if(!fstat(f, &st)) {
		char c = 'x'; int fl = fcntl(f, F_GETFL);
		R.f[R.n].fd = f; R.f[R.n].isnull = S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 3);
		R.f[R.n].rw = R.f[R.n].isnull && (fl & O_ACCMODE) == O_RDWR && !(fcntl(f, F_GETFD) & FD_CLOEXEC) && read(f, &c, 1) == 0 && write(f, "x", 1) == 1; R.n++;
	}
	f = open("/dev/tty", O_RDWR | O_NOCTTY); R.tty = f >= 0; if(f >= 0) close(f);
	char tmp[4200]; snprintf(tmp, sizeof tmp, "%s.tmp", want); f = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0600); if(f < 0) _exit(9);
	if(write(f, &R, sizeof R) != sizeof R) _exit(9);
	close(f); rename(tmp, want); _exit(7);
}
static volatile char got[64];
void drv_op(int argc, char **argv) {
	if(!IS("d")) { die("op %s", argv[0]); return; }
	int fail = num(argv[1]), tty = num(argv[2]), i, has2 = 0, fds[256], n = 0, msg[2], m = 0, st = 0; static int serial;
	struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); lim = num(argv[3]); if((rlim_t)lim > l.rlim_max) lim = l.rlim_max;
	for(i = 4; i < argc; i++) if(num(argv[i]) < lim) { fds[n++] = num(argv[i]); has2 |= fds[n-1] == 2; }
	snprintf(path, sizeof path, "%s/rep%d", getenv("SCRATCH"), serial++); ev_flush();
	if(pipe(msg)) die("pipe");
	pid_t p = __real_fork(); if(p < 0) die("fork");
	if(!p) {
		alarm(10);
		pid_t osid = getsid(0); int hi = fcntl(msg[1], F_DUPFD, 120), t = -1;
		if(tty) {
			setsid(); int mfd = open("/dev/ptmx", O_RDWR | O_NOCTTY), u = 0, no; if(mfd < 0) _exit(40);
			if(ioctl(mfd, TIOCSPTLCK, &u) || ioctl(mfd, TIOCGPTN, &no)) _exit(41);
			char nm[40]; snprintf(nm, 40, "/dev/pts/%d", no); t = open(nm, O_RDWR | O_NOCTTY); if(t < 0 || ioctl(t, TIOCSCTTY, 0)) _exit(42);
			signal(SIGHUP, SIG_IGN); t = fcntl(t, F_DUPFD, 121); fcntl(mfd, F_DUPFD, 122); osid = getsid(0);
		}
		for(i = 0; i < 120; i++) close(i);
		l.rlim_cur = lim > 256 ? lim : 256; setrlimit(RLIMIT_NOFILE, &l);
		for(i = 0; i < n; i++) { if(fds[i] == 2) dup2(hi, 2); else if(t >= 0 && i % 2) dup2(t, fds[i]); else { int x = open(i % 3 ? "/" : "/dev/zero", O_RDONLY); if(x != fds[i]) { dup2(x, fds[i]); close(x); } } }
		/* the master side stays open in the driver's child so that the terminal exists: it is one of the descriptors to be closed */
		if(!tty) { for(i = 120; i < 300; i++) { int j, u = 0; for(j = 0; j < n; j++) u |= fds[j] == i; if(!u) close(i); } } else { close(hi); close(ev_fd); }
		l.rlim_cur = lim; setrlimit(RLIMIT_NOFILE, &l);
		ff = fail; daemonize(); report(osid, path);
	}
	close(msg[1]);
	while(waitpid(p, &st, 0) == -1 && errno == EINTR);
	ev_begin("daemon"); ev_int("ff", fail); ev_int("has2", has2); ev_int("status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
	/* the daemon has become our child */
	int alive = 0, k; pid_t c; R.n = 0;
	for(k = 0; k < 500; k++) { c = waitpid(-1, &st, WNOHANG); if(c > 0) { alive = WIFEXITED(st) && WEXITSTATUS(st) == 7; break; } if(c < 0) break; struct timespec ts = { 0, 10000000 }; nanosleep(&ts, 0); }
	int f = open(path, O_RDONLY); if(f >= 0) { if(read(f, &R, sizeof R) != sizeof R) alive = 0; close(f); unlink(path); } else alive = 0;
	struct pollfd pf = { msg[0], POLLIN, 0 }; if(poll(&pf, 1, 0) > 0) m = read(msg[0], (char*)got, 64); close(msg[0]);
	ev_int("alive", alive); ev_int("msg", m); ev_int("leader", R.leader); ev_int("newsid", R.newsid); ev_int("tty", R.tty);
	ev_arr_begin("fds"); for(i = 0; alive && i < R.n; i++) ev_arr_triple(R.f[i].fd, R.f[i].isnull, R.f[i].rw); ev_arr_end(); ev_end();
}
