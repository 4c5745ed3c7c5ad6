/* the system calls of the server's main program are redirected to the simulation */
#ifndef MAINREN_H
#define MAINREN_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <grp.h>
#include <pwd.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <systemd/sd-daemon.h>
#include <confuse.h>
struct pidfh;
void sim_exit(int) __attribute__((noreturn)); int sim_atexit(void (*)(void)); int sim_close(int); void sim_closefrom(int); int sim_access(const char *, int); int sim_daemon(int, int);
struct passwd *sim_getpwnam(const char *); struct passwd *sim_getpwuid(uid_t); int sim_initgroups(const char *, gid_t); int sim_setgroups(size_t, const gid_t *); int sim_chroot(const char *); int sim_chdir(const char *);
int sim_setgid(gid_t); int sim_setuid(uid_t); int sim_setegid(gid_t); int sim_seteuid(uid_t); int sim_setregid(gid_t, gid_t); int sim_setreuid(uid_t, uid_t); int sim_setresgid(gid_t, gid_t, gid_t); int sim_setresuid(uid_t, uid_t, uid_t);
int sim_execvp(const char *, char *const *); int sim_listen(int); int sim_notify(int, const char *);
struct pidfh *sim_pidfile_open(const char *, mode_t, pid_t *); int sim_pidfile_write(struct pidfh *); int sim_pidfile_remove(struct pidfh *); int sim_pidfile_close(struct pidfh *);
cfg_t *sim_conf_parse(const char *); int sim_cfg_free(cfg_t *);
#ifndef SIM_SELF
#define exit(n) sim_exit(n)
#ifndef SIM_EXIT_ONLY
#define main nsca_main
#define atexit(f) sim_atexit(f)
#define close(f) sim_close(f)
#define closefrom(f) sim_closefrom(f)
#define access(a, b) sim_access(a, b)
#define daemon(a, b) sim_daemon(a, b)
#define getpwnam(u) sim_getpwnam(u)
#define getpwuid(u) sim_getpwuid(u)
#define initgroups(u, g) sim_initgroups(u, g)
#define setgroups(u, g) sim_setgroups(u, g)
#define chroot(d) sim_chroot(d)
#define chdir(d) sim_chdir(d)
#define setgid(g) sim_setgid(g)
#define setuid(u) sim_setuid(u)
#define setegid(g) sim_setegid(g)
#define seteuid(u) sim_seteuid(u)
#define setregid(a, b) sim_setregid(a, b)
#define setreuid(a, b) sim_setreuid(a, b)
#define setresgid(a, b, c) sim_setresgid(a, b, c)
#define setresuid(a, b, c) sim_setresuid(a, b, c)
#define execvp(f, a) sim_execvp(f, a)
#define sd_listen_fds(u) sim_listen(u)
#define sd_notify(u, s) sim_notify(u, s)
#define pidfile_open sim_pidfile_open
#define pidfile_write sim_pidfile_write
#define pidfile_remove sim_pidfile_remove
#define pidfile_close sim_pidfile_close
#define conf_parse sim_conf_parse
#define log_set(a, b) sim_log_set(a, b)
#define cfg_free sim_cfg_free
#endif
#endif
#endif
