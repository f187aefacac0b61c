/* interposed system calls with a plan of outcomes (iowrap.c) */
#ifndef IOWRAP_H
#define IOWRAP_H
extern volatile int io_on;             /* plan applies to read/write */
extern volatile int io_plan[64];       /* >0: at most that many bytes; 0: all; IO_EOF; <0: -errno */
extern volatile int io_n, io_pos;
extern volatile int io_open_err, io_close_err, io_seek_err;
extern volatile int io_errs, io_shorts, io_eofs;  /* delivered */
extern long long io_bias;             /* the file seems to start at this offset */
#define IO_EOF 1000000
void io_reset(void);
void io_set(int argc, char **argv);    /* "plan" arguments: numbers, "eof", "-errno", "open=errno" */
#define IO_WRAPS
#endif
