/* the client's main program with simulated exit and client; usage: send SEED CASES */
#include "h.h"
#include <errno.h>
#include <malloc.h>
#include <setjmp.h>
#define SIM_SELF
#include "sendren.h"
#include <sys/wait.h>
#include "vev.h"
#include "log.h"
#include "src/client/conf.h"
#include "src/client/client.h"
#include "src/client/send_nsca.h"
int nsca_main(int, char **);
static int loops, started; int ev_run(int f) { loops++; return 0; }
static FILE *out, *nul;
#define fail(...) (stdout = out, fail(__VA_ARGS__))
static jmp_buf jb; static int armed, status, slept; static void (*handlers[16])(void); static int nh;
static char pw[100], *cpw; static int cpwfreed, inrun;
void *__real_malloc(size_t); void __real_free(void *);
void __wrap_free(void *p) {
	if (p && inrun && p == cpw) { int i; cpwfreed++; for (i = 0; pw[i]; i++) if (cpw[i]) { inrun = 0; fail("C26", "byte %d of the password is not wiped", i); } }
	if (p && inrun && *pw) { size_t n = malloc_usable_size(p), l = strlen(pw); if (n >= l && memmem(p, n, pw, l)) { inrun = 0; fail("C26", "memory that contains the password is released without being wiped"); } }
	__real_free(p);
}
void sim_exit(int n) { status = n; while (nh > 0) handlers[--nh](); if (!armed) exit(n); longjmp(jb, 1); }
int sim_atexit(void (*f)(void)) { handlers[nh++] = f; return 0; }
static long delay, xdelay;
int sim_nanosleep(const struct timespec *a, struct timespec *b) { slept++; if (a->tv_sec < 0 || a->tv_sec > xdelay || a->tv_nsec < 0 || a->tv_nsec > 999999999) fail("C17,C27", "the client sleeps %ld s, %ld ns instead of up to %ld s", (long)a->tv_sec, a->tv_nsec, xdelay); return 0; }
unsigned sim_sleep(unsigned a) { slept++; if (a > xdelay) fail("C17,C27", "the client sleeps %u s", a); return 0; }
static int lvl, tgt, xlvl, xS, xs; static FILE *msg; static char *obuf; static size_t olen;
void log_set(int, int); void sim_log_set(int l, int t) { if (l != -1) lvl = l; if (t != -1) tgt = t; log_set(l, t); }
static char server[80], port[80], ciphers[80], ident[80]; static int tmo;
static char *xserver, *xport; static int xtmo, xraw, xdelim, xsep, refuse, quit;
client_state *client_start(const char *hp, const char *c, ev_tstamp t, int m, char d, char s) {
	static char w[400]; snprintf(w, sizeof(w), "%s:%s", xserver, xport);
	started++;
	if (refuse || quit) fail("C18,C13,C16,C27", "the client starts although the options are to be refused");
	{ int xt = xS || xs ? (xS ? LOG_TARGET_STDERR : 0) | (xs ? LOG_TARGET_SYSLOG : 0) : LOG_TARGET_STDERR;
	  if (lvl != xlvl) fail("C27", "messages up to level %d are logged instead of %d", lvl, xlvl);
	  if (tgt != xt) fail("C27", "the log targets are %d instead of %d", tgt, xt); }
	if (slept != (xdelay != 0)) fail("C27", "the client sleeps %d times before it starts, delay %ld", slept, xdelay);
	if (strcmp(hp, w)) fail("C17,C27", "the client connects to `%s' instead of `%s'", hp, w);
	if (strcmp(c, ciphers)) fail("C17", "the ciphers are `%s' instead of `%s'", c, ciphers);
	if (t != xtmo) fail("C17,C21,C27", "the timeout is %f instead of %d", t, xtmo);
	if ((m == CLIENT_MODE_COMMAND) != xraw) fail("C13,C14,C27", "the mode is %d", m);
	if (d != (char)xdelim) fail("C18,C27", "the delimiter is %d instead of %d", d, xdelim);
	if (s != (char)xsep) fail("C18,C27", "the separator is %d instead of %d", s, xsep);
	if (strcmp(conf_getstr(cfg, "password"), pw) || strcmp(conf_getstr(cfg, "identity"), ident)) fail("C17,C27", "password `%s', identity `%s'", conf_getstr(cfg, "password"), conf_getstr(cfg, "identity"));
	cpw = conf_getstr(cfg, "password"); cpwfreed = 0;
	return NULL;
}
static int digit(int c, int b) { int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return v < b ? v : -1; }
static int denotes(const char *s) {	/* the character an argument denotes, or -1 */
	size_t l = strlen(s), i; long v = 0; int b = 8; const char *n = "a\ab\bf\fn\nr\rt\tv\v", *p;
	if (l == 1) return (unsigned char)*s;
	if (l < 2 || l > 5 || (*s != '\\' && *s != '0')) return -1;
	if (l == 2 && *s == '\\') for (p = n; *p; p += 2) if (*p == s[1]) return p[1];
	i = 1; if (s[1] == 'x' || s[1] == 'X') { b = 16; i = 2; if (l == 2) return -1; }
	for (; i < l; i++) { int d = digit((unsigned char)s[i], b); if (d < 0) return -1; v = v * b + d; }
	return v <= 127 ? v : -1;
}
static char store[64][400]; static int nst; static char *av[80]; static int ac;
static void arg(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(store[nst], 400, f, a); va_end(a); av[ac++] = store[nst++]; tell(" `"); show(av[ac - 1], strlen(av[ac - 1])); tell("'"); }
static void charg(char *b) {
	int i, l; static const char h[] = "0123456789abcdefABCDEFgGxX \\+-nt";
	switch (upto(9)) {
	case 0: case 1: b[0] = 1 + upto(255); b[1] = 0; if (upto(2)) b[0] = ";,|:\t\27\n\\!"[upto(9)]; break;
	case 2: b[0] = '\\'; b[1] = "abfnrtvx0'\"?\\e1"[upto(15)]; b[2] = 0; break;
	case 3: sprintf(b, "%c%o", upto(2) ? '0' : '\\', upto(300)); break;
	case 4: sprintf(b, "%c%c%x", upto(2) ? '0' : '\\', upto(4) ? 'x' : 'X', upto(300)); break;
	case 5: sprintf(b, "\\x%03x", upto(200)); break;
	case 6: l = upto(8); for (i = 0; i < l; i++) b[i] = h[upto(sizeof(h) - 1)]; b[l] = 0; if (l && upto(2)) b[0] = "0\\"[upto(2)]; break;
	case 7: l = upto(30); for (i = 0; i < l; i++) b[i] = 1 + upto(255); b[l] = 0; if (l && upto(2)) b[0] = '0'; break;
	case 8: l = upto(300); b[0] = '\\'; for (i = 1; i < l; i++) b[i] = '0' + upto(8); b[l] = 0; if (l > 5 && upto(3)) b[5 + upto(2)] = 0; break;
	}
}
static void options(void) {
	static char sv[10][60]; int k = 0, n = upto(7), i, risky = upto(2); char b[400];
	extern int optind; optind = 0;
	refuse = quit = 0; xserver = server; xport = port; xtmo = tmo; xraw = 0; xlvl = LOG_LEVEL_WARNING; xS = xs = 0; xdelim = '\t'; xsep = '\27'; xdelay = delay;
	ac = nst = 0; arg("send_nsca");
	for (i = 0; i < n && !quit && !refuse; i++) {
		int sep = upto(2); char o = "CcDdeHopdedeStvsv"[upto(17)];
		switch (o) {
		case 'C': arg(upto(2) ? "-C" : "-CC"); xraw = 1; break;
		case 'c': if (sep) arg("-c"); arg(sep ? "my.conf" : "-cmy.conf"); break;
		case 'D': { int v = risky && upto(6) == 0 ? -1 - (int)upto(5) : (int)upto(20); if (sep) arg("-D"); arg(sep ? "%d" : "-D%d", v); if (v < 0) refuse = 1; else xdelay = v; break; }
		case 'o': { int v = risky && upto(6) == 0 ? -1 - (int)upto(5) : (int)upto(200); if (sep) arg("-o"); arg(sep ? "%d" : "-o%d", v); if (v < 0) refuse = 1; else xtmo = v; break; }
		case 'H': sprintf(sv[k], "srv%u.example", upto(1000)); if (sep) arg("-H"); arg(sep ? "%s" : "-H%s", sv[k]); xserver = sv[k++]; break;
		case 'p': sprintf(sv[k], "%u", 1 + upto(60000)); if (sep) arg("-p"); arg(sep ? "%s" : "-p%s", sv[k]); xport = sv[k++]; break;
		case 'd': case 'e': {
			int c; do charg(b); while (!risky && (denotes(b) < 0 || strchr("\27\n\\", denotes(b)))); if (*b == 0) sep = 1;
			if (sep) arg("-%c", o); arg(sep ? "%s" : "-%c%s", sep ? b : (char *)(long)o, b); if (!sep) { ac--; nst--; sprintf(store[nst], "-%c%s", o, b); av[ac++] = store[nst++]; }
			c = denotes(b); if (c < 0) refuse = 1; else if (o == 'd' && (c == 23 || c == '\n' || c == 0 || c == '\\')) refuse = 1; else if (o == 'd') xdelim = c; else xsep = c; break; }
		case 'S': arg("-S"); xS = 1; break;
		case 's': arg("-s"); xs = 1; break;
		case 't': arg("-t"); break;
		case 'v': { int k = upto(2); arg(k ? "-v" : "-vv"); for (k = k ? 1 : 2; k > 0; k--) if (xlvl < LOG_LEVEL_DEBUG) xlvl++; break; }
		}
	}
	if (!refuse && risky) switch (upto(12)) { case 0: arg("-h"); quit = 1; break; case 1: arg("-V"); quit = 1; break; case 2: arg("--help"); if (ac == 2) quit = 1; else refuse = 1; break; case 3: arg("-x"); refuse = 1; break; case 4: arg("stray"); if (!quit) refuse = 1; break; case 5: arg("-d"); refuse = 1; break; }
	if (!refuse && !quit && (char)xdelim == (char)xsep) refuse = 1;
	av[ac] = NULL;
}
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n; static int k;
	out = stdout; nul = fopen("/dev/null", "w"); stderr = nul;
	n = workers(6); 
	for (; n < cases; n += 6) {
		FILE *f; int i, l, st; pid_t c;
		fflush(NULL); if ((c = fork()) != 0) { waitpid(c, &st, 0); if (!WIFEXITED(st)) return 134; if (WEXITSTATUS(st)) return WEXITSTATUS(st); continue; }
		seed(atoll(argv[1]) * 300007 + n); nstory = 0; story[0] = 0; vreset();
		started = loops = slept = nh = 0; status = -99; cfg = NULL; exit_code = upto(3); tmo = upto(100); delay = upto(3) ? 0 : upto(30);
		sprintf(server, "host%u", upto(1000)); sprintf(port, "%u", 1 + upto(60000)); sprintf(ciphers, "C%u", upto(1000)); sprintf(ident, "id%u", upto(1000));
		l = 8 + upto(60); for (i = 0; i < l; i++) pw[i] = 'A' + upto(26); pw[l] = 0;
		for (i = 0; i < 2; i++) { f = fopen(i ? "my.conf" : "send_nsca.cfg", "w"); fprintf(f, "identity = \"%s\"\npassword = \"%s\"\nserver = %s\nport = %s\ntimeout = %d\ntls_ciphers = \"%s\"\ndelay = %ld\n", ident, pw, server, port, tmo, ciphers, delay); fclose(f); }
		tell("case %d:", n); options();
		armed = 1; stdout = msg = open_memstream(&obuf, &olen); k = exit_code; log_set(LOG_LEVEL_WARNING, LOG_TARGET_STDERR); inrun = 1;
		if (setjmp(jb) == 0) { int r = nsca_main(ac, av); status = r; while (nh > 0) handlers[--nh](); if (r != k) fail("C16", "the exit status is %d instead of %d", r, k); }
		inrun = 0; armed = 0;
		if (started && !cpwfreed) fail("C26", "the password is not released at the end");
 stdout = out;
		tell(" -> %d", status);
		if (refuse && status == 0) fail("C18,C16,C13,C27", "the exit status is 0 although the options are to be refused");
		fflush(msg); if (quit && olen == 0) fail("C27", "nothing is printed to the standard output");
		if (quit && status != 0) fail("C16,C27", "the exit status is %d after printing information", status);
			if (started != loops) fail("C16", "the event loop does not run");
		if (!refuse && !quit && started != 1) fail("C18,C13,C16,C27", "acceptable options are refused");
		if (!refuse && !quit && slept != (xdelay != 0)) fail("C17,C27", "the client sleeps %d times", slept);
		_exit(0);
	}
	fflush(stdout); _exit(0);
}
