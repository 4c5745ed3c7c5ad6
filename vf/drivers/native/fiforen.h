/* the system calls of the command file writer are redirected to the simulation */
#ifndef FIFOREN_H
#define FIFOREN_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <sys/types.h>
#include <sys/stat.h>
#include <aio.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
int sim_open(const char *, int, ...); int sim_close(int); ssize_t sim_write(int, const void *, size_t); int sim_fstat(int, struct stat *);
int sim_mkstemp(char *); int sim_aio_write(struct aiocb *); int sim_aio_error(const struct aiocb *); ssize_t sim_aio_return(struct aiocb *);
int sim_aio_suspend(const struct aiocb *const [], int, const struct timespec *); int sim_aio_cancel(int, struct aiocb *); int sim_fsync(int); int sim_unlink(const char *);
int sim_sigaction(int, const struct sigaction *, struct sigaction *); void (*sim_signal(int, void (*)(int)))(int); time_t sim_time(time_t *);
#ifndef SIM_SELF
#define open(...) sim_open(__VA_ARGS__)
#define close(f) sim_close(f)
#define write(f, p, n) sim_write(f, p, n)
#define fstat(f, s) sim_fstat(f, s)
#define mkstemp(t) sim_mkstemp(t)
#define aio_write(c) sim_aio_write(c)
#define aio_error(c) sim_aio_error(c)
#define aio_return(c) sim_aio_return(c)
#define aio_suspend(l, n, t) sim_aio_suspend(l, n, t)
#define aio_cancel(f, c) sim_aio_cancel(f, c)
#define fsync(f) sim_fsync(f)
#define unlink(f) sim_unlink(f)
#define sigaction(s, a, o) sim_sigaction(s, a, o)
#define signal(s, h) sim_signal(s, h)
#define time(t) sim_time(t)
#endif
#endif
