/* the library calls of the logging module are redirected to the simulation */
#ifndef VLOGREN_H
#define VLOGREN_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdarg.h>
#include <string.h>
#include <syslog.h>
char *sim_strerror(int); void sim_syslog(int, const char *, ...); void sim_vsyslog(int, const char *, va_list);
#ifndef SIM_SELF
#define strerror(e) sim_strerror(e)
#define syslog(...) sim_syslog(__VA_ARGS__)
#define vsyslog(l, f, a) sim_vsyslog(l, f, a)
#define openlog(a, b, c) ((void)0)
#define closelog() ((void)0)
#endif
#endif
