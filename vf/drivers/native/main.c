/* the server's main program with simulated system calls; usage: main SEED CASES */
#include "h.h"
#include <errno.h>
#include <signal.h>
#define SIM_SELF
#include "mainren.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include "vev.h"
#include "log.h"
#include "src/server/server.h"
cfg_t *conf_parse(const char *); int nsca_main(int, char **);
static char ev_log[400]; static int over;
static const char *failing; static int fail_errno;
static int user, root, pid, fg, act, sig, wdog, nsec, exec_ok, bad_temp;
static char pw[8][80]; static char *pwp[8]; static int npw; static int pidopen, pidgone, cfgfreed, running, started, stopped, finished;
static int lvl, tgt, xlvl, xS, xs, clevel, refuse, infoq; static char xlisten[60], xcmd[60];
void log_set(int, int); void sim_log_set(int l, int t) { if (l != -1) lvl = l; if (t != -1) tgt = t; log_set(l, t); }
static void logs(void) {
	int xt = xS ? LOG_TARGET_STDERR | LOG_TARGET_SYSLOG : xs ? LOG_TARGET_SYSLOG : act ? LOG_TARGET_SYSTEMD : fg ? LOG_TARGET_STDERR : LOG_TARGET_SYSLOG;
	if (lvl != xlvl) fail("C27", "messages up to level %d are logged instead of %d", lvl, xlvl);
	if (running ? tgt != xt : !(tgt & (LOG_TARGET_STDERR | LOG_TARGET_SYSTEMD))) fail("C27", "the log targets are %d instead of %d", tgt, xt);
}
static cfg_t *the_cfg; static void (*handlers[16])(void); static int nh;
static struct pidfh { int x; } PFH;
static int event(const char *s) { strcat(strcat(ev_log, s), " "); tell(" %s", s); if (failing && strcmp(failing, s) == 0) { tell("(fails)"); errno = fail_errno; return -1; } return 0; }
static int is(const char *s) { return failing && strcmp(failing, s) == 0; }
static void wiped(const char *when) { int i, j; if (cfgfreed || the_cfg == NULL) return; for (i = 0; i < npw; i++) for (j = 0; pw[i][j]; j++) if (pwp[i][j] != 0) fail("C26", "byte %d of password %d is not wiped %s", j, i, when); }
static void done(int status) {
	if (pidopen && !pidgone && running) fail("C23", "the PID file is not removed at the end");
	if (the_cfg && !cfgfreed) fail("C26", "the configuration is not released at the end");
	if (refuse && status == 0) fail("C27", "the exit status is 0 although the options are to be refused");
	if (infoq && (status || started)) fail("C27", "the exit status is %d after printing information", status);
	if (!failing && !bad_temp && !refuse && !infoq && !started) fail("C27,C22", "acceptable options are refused");
	if (failing && !infoq && strcmp(failing, "exec") && status == 0 && strcmp(failing, "pidremove")) fail("C20,C23", "the status is 0 although %s failed", failing);
	fflush(stdout); _exit(0);
}
void sim_exit(int n) { while (nh > 0) handlers[--nh](); tell(" exit %d", n); done(n); for (;;); }
int sim_atexit(void (*f)(void)) { handlers[nh++] = f; return 0; }
int sim_close(int f) { return 0; } void sim_closefrom(int f) {}
int sim_access(const char *p, int m) { if (bad_temp) { errno = EACCES; return -1; } return 0; }
int sim_daemon(int a, int b) { if (fg || act) fail("C23,C27", "the server goes into the background although it should not"); return event("daemon"); }
static struct passwd PW;
struct passwd *sim_getpwnam(const char *u) { if (strcmp(u, "nagios") != 0) fail("C20", "user `%s' is looked up", u); if (event("getpwnam")) { if (upto(2)) errno = 0; return NULL; } PW.pw_name = "nagios"; PW.pw_uid = 1234; PW.pw_gid = 567; return &PW; }
struct passwd *sim_getpwuid(uid_t u) { PW.pw_name = "nagios"; PW.pw_uid = 1234; PW.pw_gid = 567; return &PW; }
static void no_files(void) { if (pidopen || started) fail("C20", "privileges are dropped after files or sockets were opened"); }
int sim_initgroups(const char *u, gid_t g) { no_files(); if (strcmp(u, "nagios") || g != 567) fail("C20", "initgroups(%s, %d)", u, (int)g); return event("initgroups"); }
int sim_setgroups(size_t n, const gid_t *g) { return 0; }
int sim_chroot(const char *d) { no_files(); if (strcmp(d, "/new/root")) fail("C20", "chroot(%s)", d); return event("chroot"); }
int sim_chdir(const char *d) { if (strcmp(d, "/")) fail("C20", "chdir(%s)", d); return event("chdir"); }
int sim_setgid(gid_t g) { no_files(); if (g != 567) fail("C20", "setgid(%d)", (int)g); return event("setgid"); }
int sim_setuid(uid_t u) { no_files(); if (u != 1234) fail("C20", "setuid(%d)", (int)u); return event("setuid"); }
int sim_setegid(gid_t g) { return event("setegid"); } int sim_seteuid(uid_t u) { return event("seteuid"); }
int sim_setregid(gid_t a, gid_t b) { if (a != b) fail("C20", "only one group ID is set"); return sim_setgid(a); } int sim_setreuid(uid_t a, uid_t b) { if (a != b) fail("C20", "only one user ID is set"); return sim_setuid(a); }
int sim_setresgid(gid_t a, gid_t b, gid_t c) { if (c != b) fail("C20", "only one group ID is set"); return sim_setregid(a, b); } int sim_setresuid(uid_t a, uid_t b, uid_t c) { if (c != b) fail("C20", "only one user ID is set"); return sim_setreuid(a, b); }
static char **the_argv;
int sim_execvp(const char *f, char *const *a) {
	if (sig != SIGHUP) fail("C26,C23", "the server restarts without SIGHUP");
	if (pidopen && !pidgone) fail("C23", "the server restarts with the PID file in place");
	if (the_cfg && !cfgfreed) fail("C26", "the server restarts without having wiped its configuration");
	if (!stopped) fail("C25", "the server restarts without having been stopped");
	if (strcmp(f, the_argv[0])) fail("C23", "`%s' is executed", f);
	event("exec");
	if (exec_ok) { finished = 1; fflush(stdout); _exit(0); }
	failing = "exec"; errno = ENOENT; return -1;
}
int sim_listen(int u) { return act; } int sim_notify(int u, const char *s) { if (strstr(s, "READY") && pid && !strstr(ev_log, "pidwrite")) fail("C23", "the server reports that it is ready before the PID file is written"); return 0; }
struct pidfh *sim_pidfile_open(const char *p, mode_t m, pid_t *o) {
	if (strcmp(p, "/run/it.pid") || (m & 077)) fail("C23", "PID file `%s', mode %o", p, (int)m);
	if (pidopen) fail("C23", "the PID file is opened twice"); if (started) fail("C23", "the PID file is opened after the socket");
	if (o) *o = 4711; if (event("pidopen")) { if (upto(2)) errno = EEXIST; return NULL; }
	pidopen = 1; return &PFH;
}
int sim_pidfile_write(struct pidfh *p) {
	if (p != &PFH || pidgone) fail("C23", "pidfile_write() on a wrong handle");
	if (!fg && !act && !strstr(ev_log, "daemon")) fail("C23", "the PID is written before the process that serves exists");
	return event("pidwrite");
}
int sim_pidfile_remove(struct pidfh *p) { if (p != &PFH || !pidopen || pidgone) fail("C23", "pidfile_remove() on a wrong or released handle"); pidgone = 1; return event("pidremove"); }
int sim_pidfile_close(struct pidfh *p) { if (p != &PFH || !pidopen || pidgone) fail("C23", "pidfile_close() on a wrong or released handle"); pidgone = 1; return 0; }
static void conf_file(void) {
	FILE *f = fopen("m.conf", "w"); int i; char *g;
	npw = 0;
	fprintf(f, "command_file = \"/c/f\"\ntemp_directory = \"/t/d\"\nmax_command_size = 4321\nmax_queue_size = 77\ntimeout = 12.5\nlog_level = %d\ntls_ciphers = \"THESE\"\nlisten = \"%s\"\n", clevel, act ? "*" : "1.2.3.4:5");
	if (user) fprintf(f, "user = \"nagios\"\n"); if (root) fprintf(f, "chroot = \"/new/root\"\n"); if (pid == 1) fprintf(f, "pid_file = \"/run/it.pid\"\n");
	if (upto(2)) { fprintf(f, "password = \"GLOBALpassword%u\"\n", rnd()); }
	for (i = 0; i < nsec; i++) { int l = 1 + upto(70), j; char b[80]; for (j = 0; j < l; j++) b[j] = 'a' + upto(26); b[l] = 0; fprintf(f, "authorize \"s%d\" {\n  password = \"%s\"\n%s}\n", i, b, upto(2) ? "" : "  commands = \".*\"\n"); }
	fclose(f);
}
cfg_t *sim_conf_parse(const char *p) {
	unsigned i;
	if (strcmp(p, "m.conf")) fail("C22,C27", "configuration file `%s'", p); if (refuse == 2 || infoq) fail("C27", "the configuration is read although the options are to be refused");
	the_cfg = conf_parse(p); event("conf");
	for (i = 0; i < cfg_size(the_cfg, "authorize"); i++) { cfg_t *a = cfg_getnsec(the_cfg, "authorize", i); if (cfg_size(a, "password")) { pwp[npw] = cfg_getstr(a, "password"); strcpy(pw[npw], pwp[npw]); npw++; } }
	if (cfg_size(the_cfg, "password")) { pwp[npw] = cfg_getstr(the_cfg, "password"); strcpy(pw[npw], pwp[npw]); npw++; }
	return the_cfg;
}
int sim_cfg_free(cfg_t *c) { if (c != the_cfg || cfgfreed) fail("C26", "the configuration is released twice"); wiped("when the configuration is released"); cfgfreed = 1; return cfg_free(c); }
server_state *server_start(const char *l, const char *ci, const char *c, const char *t, size_t m, size_t q, ev_tstamp to) {
	char want[200] = "";
	if (user) strcat(want, "initgroups "); if (root) strcat(want, "chroot chdir "); if (user) strcat(want, "setgid setuid ");
	{ char got[400] = "", *p, b[400]; strcpy(b, ev_log); for (p = strtok(b, " "); p; p = strtok(NULL, " ")) if (strcmp(p, "getpwnam") && strcmp(p, "conf") && strcmp(p, "pidopen")) strcat(strcat(got, p), " ");
	  if (strcmp(got, want)) fail("C20", "before the socket is opened: %s instead of %s", got, want); }
	if (pid && !pidopen) fail("C23", "the socket is opened before the PID file");
	if (refuse || infoq) fail("C27", "the server starts although the options are to be refused"); logs();
	if (strcmp(l, act ? "descriptor=3" : xlisten)) fail("C22,C27", "the server listens on %s instead of %s", l, xlisten); if (strcmp(c, xcmd)) fail("C22,C27", "the command file is %s instead of %s", c, xcmd);
	if (strcmp(ci, "THESE") || strcmp(t, "/t/d")) fail("C22", "server_start(%s, %s, %s, %s)", l, ci, c, t);
	if (m != 4321) fail("C06,C22", "the command size limit is %zu", m); if (q != 77) fail("C09,C22", "the queue limit is %zu", q); if (to != 12.5) fail("C21,C22", "the timeout is %f", to);
	event("start"); started = 1; return (server_state *)&started;
}
void server_stop(server_state *s) { if (s != (server_state *)&started || stopped) fail("C25", "server_stop() on a wrong server"); stopped = 1; event("stop"); }
int ev_run(int f) {
	int i; ev_watcher *w = NULL;
	if (f) return 0;
	event("run"); running = 1; logs(); if (!fg && !act && !strstr(ev_log, "daemon")) fail("C27,C22", "the server does not go into the background");
	if (failing && strcmp(failing, "pidremove") && strcmp(failing, "run")) fail("C20,C23", "the server runs although %s failed", failing);
	if (pid && !strstr(ev_log, "pidwrite")) fail("C23", "the server runs without having written the PID file");
	if (bad_temp) return 0;
	for (i = 0; i < nvsg; i++) if (((ev_signal *)vsg[i])->signum == sig) w = (ev_watcher *)vsg[i];
	if (w == NULL) fail("C26", "signal %d is not handled", sig);
	ev_feed_event(w, EV_SIGNAL); ev_invoke_pending();
	if (!vbreak) fail("C26", "signal %d does not end the server", sig);
	return 0;
}
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n, st; pid_t p;
	static const char *steps[] = { "getpwnam", "initgroups", "chroot", "chdir", "setgid", "setuid", "pidopen", "daemon", "pidwrite", "pidremove" };
	n = workers(6); 
	for (; n < cases; n += 6) {
		seed(atoll(argv[1]) * 7717 + n); nstory = 0; story[0] = 0;
		user = upto(3); root = upto(2); pid = upto(3); act = upto(5) == 0; fg = upto(2); sig = upto(3) ? SIGTERM : upto(2) ? SIGHUP : SIGINT; if (upto(4) == 0) sig = SIGHUP; nsec = 1 + upto(4); exec_ok = upto(2); bad_temp = 0; wdog = upto(4) == 0;
		failing = upto(2) ? NULL : steps[upto(10)]; fail_errno = upto(2) ? EPERM : EEXIST;
		if (failing && ((!user && (is("getpwnam") || is("initgroups") || is("setgid") || is("setuid"))) || (!root && (is("chroot") || is("chdir"))) || (!pid && (is("pidopen") || is("pidwrite") || is("pidremove"))) || ((fg || act) && is("daemon")))) failing = NULL;
		clevel = upto(6); conf_file();
		tell("user %d, chroot %d, PID file %d, foreground %d, socket activation %d, signal %d:", user, root, pid, fg, act, sig);
		fflush(stdout);
		if ((p = fork()) == 0) {
			static char st[40][80]; char *av[40]; int ac = 0, i, k = upto(5), fgi = fg ? (int)upto(k + 1) : -1, ci = upto(k + 1), pi = pid == 2 ? (int)upto(k + 1) : -1;
			av[ac++] = "nsca-ng"; strcpy(xlisten, "1.2.3.4:5"); strcpy(xcmd, "/c/f"); xlvl = clevel; xS = xs = refuse = infoq = 0;
			for (i = 0; i <= k; i++) {
				if (i == fgi) av[ac++] = "-F";
				if (i == ci) { if (upto(4) == 0) { av[ac++] = "-c"; av[ac++] = "other.conf"; } av[ac++] = "-c"; av[ac++] = "m.conf"; }
				if (i == pi) { if (upto(3) == 0) { av[ac++] = "-P"; av[ac++] = "/run/other.pid"; } av[ac++] = "-P"; av[ac++] = "/run/it.pid"; }
				switch (upto(8)) {
				case 0: sprintf(xlisten, "h%u:%u", upto(100), 1 + upto(9999)); sprintf(st[i], "-b%s", xlisten); av[ac++] = st[i]; break;
				case 1: { char b[40]; sprintf(b, "h%u", upto(100)); sprintf(st[i], "%s", b); av[ac++] = "-b"; av[ac++] = st[i]; sprintf(xlisten, "%s:5668", b); break; }
				case 2: sprintf(xcmd, "/o/c%u", upto(100)); sprintf(st[i], "-C%s", xcmd); av[ac++] = st[i]; break;
				case 3: xlvl = upto(6); sprintf(st[i], "-l%d", xlvl); av[ac++] = st[i]; break;
				case 4: av[ac++] = "-s"; xs = 1; break;
				case 5: if (fg || upto(4) == 0) { av[ac++] = "-S"; xS = 1; } break;
				}
			}
			if (xS && !fg) refuse = 1;
			if (upto(12) == 0) switch (upto(6)) { case 0: av[ac++] = "stray"; refuse = 2; break; case 1: av[ac++] = "-x"; refuse = 2; break; case 2: av[ac++] = "-l"; refuse = 2; break; case 3: av[ac++] = "-h"; infoq = 1; refuse = 0; break; case 4: av[ac++] = "-V"; infoq = 1; refuse = 0; break; case 5: ac = 1; av[ac++] = upto(2) ? "--help" : "--version"; infoq = 1; refuse = 0; break; }
			av[ac] = NULL; the_argv = av; for (i = 1; i < ac; i++) tell(" %s", av[i]);
			if (!freopen("/dev/null", "w", stderr)) _exit(0);
			if (wdog) setenv("WATCHDOG_USEC", "30000000", 1);
			sim_exit(nsca_main(ac, av));
		}
		waitpid(p, &st, 0);
		if (WIFSIGNALED(st)) { printf("FAIL killed by signal %d | %s\n", WTERMSIG(st), story); return 1; }
		if (WEXITSTATUS(st)) return WEXITSTATUS(st);
	}
	fflush(stdout); _exit(0);
}
