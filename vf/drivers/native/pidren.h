/* the system calls of the PID file functions are redirected to the simulation */
#ifndef PIDREN_H
#define PIDREN_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <sys/types.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
int sim_open(const char *, int, ...); int sim_close(int); int sim_flock(int, int); int sim_stat(const char *, struct stat *); int sim_fstat(int, struct stat *); int sim_ftruncate(int, off_t);
ssize_t sim_pwrite(int, const void *, size_t, off_t); ssize_t sim_write(int, const void *, size_t); ssize_t sim_read(int, void *, size_t); off_t sim_lseek(int, off_t, int); int sim_unlink(const char *); pid_t sim_getpid(void); int sim_nanosleep(const struct timespec *, struct timespec *);
#ifndef SIM_SELF
#define open(...) sim_open(__VA_ARGS__)
#define close(f) sim_close(f)
#define flock(f, o) sim_flock(f, o)
#define stat(p, s) sim_stat(p, s)
#define lstat(p, s) sim_stat(p, s)
#define fstat(f, s) sim_fstat(f, s)
#define ftruncate(f, n) sim_ftruncate(f, n)
#define pwrite(f, p, n, o) sim_pwrite(f, p, n, o)
#define write(f, p, n) sim_write(f, p, n)
#define read(f, p, n) sim_read(f, p, n)
#define lseek(f, o, w) sim_lseek(f, o, w)
#define unlink(p) sim_unlink(p)
#define getpid() sim_getpid()
#define nanosleep(a, b) sim_nanosleep(a, b)
#endif
#endif
