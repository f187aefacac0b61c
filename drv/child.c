/* the program the process driver starts; obeys commands on standard input:
 * I = report arguments and descriptors on stdout, O x = echo x on stdout,
 * E x = echo on stderr, X n = exit with n, D n = after end of input exit with n,
 * Q ms = additionally sleep before the exit.  At end of input without Q/X: says EOF
 * on stdout and exits with the default code. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <time.h>
static void out(int fd, const char *s) { size_t n = strlen(s); while(n) { ssize_t r = write(fd, s, n); if(r <= 0) return; s += r; n -= r; } }
int main(int argc, char **argv) {
	static char b[70000], o[140000]; size_t n = 0; int def = 0, ms = 0;
	alarm(8); signal(SIGPIPE, SIG_IGN);
	for(;;) {
		char *e;
		while(!(e = memchr(b, '\n', n))) { ssize_t r = read(0, b + n, sizeof b - n); if(r <= 0) goto eof; n += r; }
		*e = 0;
		if(*b == 'I') {
			int i; char *p = o; p += sprintf(p, "A%d", argc);
			for(i = 0; i < argc; i++) { *p++ = ' '; if(!*argv[i]) *p++ = '-'; for(char *q = argv[i]; *q; q++) p += sprintf(p, "%02x", (unsigned char)*q); }
			p += sprintf(p, " F"); DIR *d = opendir("/proc/self/fd"); struct dirent *de;
			while((de = readdir(d))) { int f = atoi(de->d_name); struct stat st; if(*de->d_name == '.' || f == dirfd(d) || fstat(f, &st)) continue; p += sprintf(p, " %d:%lu:%d", f, (unsigned long)st.st_ino, S_ISFIFO(st.st_mode)); }
			closedir(d); strcpy(p, "\n"); out(1, o);
		} else if(*b == 'O' || *b == 'E') { sprintf(o, "%s\n", b + 2); out(*b == 'O' ? 1 : 2, o); }
		else if(*b == 'X') _exit(atoi(b + 2));
		else if(*b == 'D') { def = atoi(b + 2); out(1, "D\n"); }
		else if(*b == 'Q') { ms = atoi(b + 2); out(1, "Q\n"); }
		n -= e + 1 - b; memmove(b, e + 1, n);
	}
	eof:
	out(1, "EOF\n");
	if(ms) { struct timespec t = { ms / 1000, ms % 1000 * 1000000 }; nanosleep(&t, 0); }
	_exit(def);
}
