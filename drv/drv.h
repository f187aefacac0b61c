/* Common part of all conformance drivers: reads a script (one operation per
 * line), executes it against the library under test and writes one JSON event
 * per operation.  A crash, sanitizer report or hang becomes a "crash" event,
 * which no action of any specification accepts. */
#ifndef DRV_H
#define DRV_H
#undef _GNU_SOURCE
#define _GNU_SOURCE
#include <stddef.h>
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <errno.h>
#include <sys/types.h>

/* driver-private allocation: never counted, never failed */
extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);
#define xmalloc __real_malloc
#define xcalloc __real_calloc
#define xrealloc __real_realloc
#define xfree __real_free
char *xstrdup(const char *);

/* allocation accounting (wrap.c) */
extern long  mem_live;         /* blocks currently allocated through the wrapped functions */
extern long  mem_live_bytes;
extern long  mem_calls;        /* allocation attempts so far */
extern long  mem_failed;       /* injected failures so far */
extern long  mem_fail_at;      /* >0: fail the n-th allocation attempt from now, once */
extern int   mem_fail_all;     /* fail all attempts from mem_fail_at on */
extern long  mem_badfree;      /* frees of pointers which are not live blocks of the program */
extern int   mem_quiet;        /* >0: frees of dead pointers are only counted, not executed */
int  mem_is_live(const void *p);
size_t mem_size(const void *p);
void mem_forget(const void *p);          /* drop from accounting */
long mem_id(const void *p);              /* serial number of a live block, 0 if none */
void mem_reset(void);

/* events */
void ev_begin(const char *op);
void ev_int(const char *k, long v);               /* clamped to 31 bits */
void ev_bool(const char *k, int v);
void ev_str(const char *k, const char *s);
void ev_bytes(const char *k, const void *p, size_t n);  /* array of 0..255 */
void ev_cbytes(const char *k, const char *s);     /* bytes of a C string; [] and k_null */
void ev_limbs(const char *k, uint64_t v);         /* 4 x 16 bit, most significant first */
void ev_arr_begin(const char *k);
void ev_arr_int(long v);
void ev_arr_bytes(const void *p, size_t n);
void ev_arr_triple(long, long, long);
void ev_arr_pair(long, long);
void ev_arr_end(void);
void ev_obj_begin(void);                           /* an object as array element */
void ev_obj_end(void);
void ev_end(void);
void ev_flush(void);
extern int ev_fd;

/* script helpers */
typedef struct { unsigned char *p; size_t n; } blob;   /* p has a NUL behind n bytes */
blob unhex(const char *s);       /* "-" = empty; in an exactly sized heap block (n+1) */
blob unhex_exact(const char *s); /* no NUL: block of exactly n bytes */
long num(const char *s);
uint64_t num64(const char *s);

/* provided by each driver */
void drv_session(int argc, char **argv);  /* new session ("S ...") */
void drv_op(int argc, char **argv);
void drv_end(void);
#define IS(s) (!strcmp(argv[0], s))
#define CLAMP31(x) ((x) > 2147483647L ? 2147483647L : (x) < -2147483647L ? -2147483647L : (x))
void die(const char *fmt, ...);
#endif
