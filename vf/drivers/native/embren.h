/* the system calls of the embedded clients are redirected to the simulation */
#ifndef EMBREN_H
#define EMBREN_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <time.h>
time_t sim_time(time_t *); int sim_poll(struct pollfd *, nfds_t, int); int sim_rdlock(pthread_rwlock_t *), sim_wrlock(pthread_rwlock_t *), sim_unlock(pthread_rwlock_t *);
#ifndef SIM_SELF
#define time(p) sim_time(p)
#define poll(a, b, c) sim_poll(a, b, c)
#define pthread_rwlock_rdlock(l) sim_rdlock(l)
#define pthread_rwlock_wrlock(l) sim_wrlock(l)
#define pthread_rwlock_unlock(l) sim_unlock(l)
#endif
#endif
