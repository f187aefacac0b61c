#include "drv.h"
#include "iowrap.h"
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/uio.h>
volatile int io_on, io_plan[64], io_n, io_pos, io_open_err, io_close_err, io_seek_err, io_errs, io_shorts, io_eofs;
extern ssize_t __real_read(int, void *, size_t), __real_write(int, const void *, size_t);
extern int __real_open(const char *, int, ...), __real_open64(const char *, int, ...), __real_close(int);
extern off_t __real_lseek(int, off_t, int);
long long io_bias; /* the file seems to start at this offset */
void io_reset(void) { io_on = io_n = io_pos = io_open_err = io_close_err = io_seek_err = io_errs = io_shorts = io_eofs = 0; }
void io_set(int argc, char **argv) {
	io_reset();
	for(int i = 0; i < argc; i++) {
		if(!strncmp(argv[i], "open=", 5)) io_open_err = num(argv[i] + 5);
		else if(!strncmp(argv[i], "close=", 6)) io_close_err = num(argv[i] + 6);
		else if(!strncmp(argv[i], "seek=", 5)) io_seek_err = num(argv[i] + 5);
		else if(io_n < 64) { io_plan[io_n] = !strcmp(argv[i], "eof") ? IO_EOF : num(argv[i]); io_n++; }
	}
}
static int next(void) { return io_on && io_pos < io_n ? io_plan[io_pos++] : 0; }
static long lim(size_t n, int rd) {
	if(!io_on || !n) return n;
	int k = next();
	if(k < 0) { errno = -k; io_errs++; return -1; }
	if(k == IO_EOF) { if(rd) { io_eofs++; return 0; } return n; }
	if(k && (size_t)k < n) { io_shorts++; return k; }
	return n;
}
ssize_t __wrap_read(int fd, void *p, size_t n) { long k = lim(n, 1); if(k < 0) return -1; if(!k && n) return 0; return __real_read(fd, p, k); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { long k = lim(n, 0); if(k < 0) return -1; return __real_write(fd, p, k); }
ssize_t __wrap_pread(int fd, void *p, size_t n, off_t o) { extern ssize_t __real_pread(int, void*, size_t, off_t); long k = lim(n, 1); if(k < 0) return -1; if(!k && n) return 0; return __real_pread(fd, p, k, o - io_bias); }
ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t o) { extern ssize_t __real_pwrite(int, const void*, size_t, off_t); long k = lim(n, 0); if(k < 0) return -1; return __real_pwrite(fd, p, k, o); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {   /* piecewise, so that the plan applies */
	ssize_t t = 0;
	for(int i = 0; i < c; i++) {
		if(!v[i].iov_len) continue;
		long k = lim(v[i].iov_len, 0);
		if(k < 0) return t ? t : -1;
		ssize_t w = __real_write(fd, v[i].iov_base, k);
		if(w < 0) return t ? t : -1;
		t += w; if((size_t)w < v[i].iov_len) break;
	}
	return t;
}
#define OPENER(name) int __wrap_##name(const char *p, int fl, ...) { \
	int m = 0; if(fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } \
	if(io_on && io_open_err) { errno = io_open_err; io_errs++; return -1; } \
	return __real_##name(p, fl, m); }
OPENER(open)
OPENER(open64)
int __wrap_creat(const char *p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_close(int fd) { return __real_close(fd); }
off_t __wrap_lseek(int fd, off_t o, int w) { if(io_on && io_seek_err && !--io_seek_err) { errno = ESPIPE; io_errs++; return -1; }
	if(!io_bias) return __real_lseek(fd, o, w);
	if(w == SEEK_SET && (o -= io_bias) < 0) { errno = EINVAL; io_errs++; return -1; }
	o = __real_lseek(fd, o, w); return o < 0 ? o : o + io_bias;
}
