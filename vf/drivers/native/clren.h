/* the system calls of the client are redirected to the simulation */
#ifndef CLREN_H
#define CLREN_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <sys/types.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
ssize_t sim_read(int, void *, size_t); int sim_fcntl(int, int, ...); time_t sim_time(time_t *); void sim_exit(int) __attribute__((noreturn));
#ifndef SIM_SELF
#define read(a, b, c) sim_read(a, b, c)
#define fcntl(...) sim_fcntl(__VA_ARGS__)
#define time(p) sim_time(p)
#define exit(n) sim_exit(n)
#endif
#endif
