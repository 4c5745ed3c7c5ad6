/* the system calls of the client's main program are redirected to the simulation */
#ifndef SENDREN_H
#define SENDREN_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <sys/types.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
void sim_exit(int) __attribute__((noreturn)); int sim_atexit(void (*)(void)); int sim_nanosleep(const struct timespec *, struct timespec *); unsigned sim_sleep(unsigned);
#ifndef SIM_SELF
#define exit(n) sim_exit(n)
#ifndef SIM_EXIT_ONLY
#define main nsca_main
#define atexit(f) sim_atexit(f)
#define nanosleep(a, b) sim_nanosleep(a, b)
#define sleep(a) sim_sleep(a)
#define log_set(a, b) sim_log_set(a, b)
#endif
#endif
#endif
