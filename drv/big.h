/* strings of more than 2^32 bytes without the memory for them: a range whose
 * pages are all the same 16 MB, with private pages at its end */
#ifndef BIG_H
#define BIG_H
#include "drv.h"
#include <sys/mman.h>
#define BIGCHUNK ((size_t)16 << 20)
static size_t big_round(size_t n) { return (n + BIGCHUNK - 1) / BIGCHUNK * BIGCHUNK; }
/* n bytes, all chunks aliased, filled with f */
static unsigned char *big_map(size_t n, int f) {
	size_t r = big_round(n + 4096), i; int fd = memfd_create("big", MFD_CLOEXEC);
	if(fd < 0 || ftruncate(fd, BIGCHUNK)) die("memfd");
	unsigned char *p = mmap(0, r, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED) die("big map");
	for(i = 0; i < r; i += BIGCHUNK) if(mmap(p + i, BIGCHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("big chunk");
	close(fd); memset(p, f, BIGCHUNK); return p;
}
/* n times f and then the tail; what follows has the fill value x */
static unsigned char *big_str(size_t n, int f, const void *tail, size_t tn, int x) {
	size_t r = big_round(n + tn + 4096), lo = n / BIGCHUNK * BIGCHUNK; unsigned char *p = big_map(n + tn, f);
	if(mmap(p + lo, r - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) die("big tail");
	memset(p + lo, f, n - lo); if(tn) memcpy(p + n, tail, tn); memset(p + n + tn, x, 4096); return p;
}
static void big_free(void *p, size_t n) { if(p) munmap(p, big_round(n + 4096)); }
static void ev_big(const char *k, size_t v) { ev_arr_begin(k); ev_arr_int(v >> 24); ev_arr_int(v & 0xffffff); ev_arr_end(); }
#endif
