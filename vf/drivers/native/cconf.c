/* reading client configuration files; usage: cconf SEED FILES */
#include "h.h"
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "src/client/conf.h"
#include "log.h"
#include "wrappers.h"
static const char *keys[] = { "delay", "encryption_method", "identity", "password", "port", "server", "timeout", "tls_ciphers" };
#define ISINT(k) ((k) == 0 || (k) == 6)
static char text[400000], vals[8][4000]; static size_t n; static int set[8];
static void c(int x) { if (n < sizeof(text) - 1) text[n++] = x; }
static void s(const char *p) { while (*p) c(*p++); }
static int mayjoin;
static void blanks(int min) {
	int k = upto(3) ? min : (int)upto(4); if (k < min) k = min;
	while (k-- > 0) c(upto(3) ? ' ' : '\t');
	if (mayjoin && upto(12) == 0) { c('\\'); c('\n'); }
}
static void eol(void) { if (upto(6) == 0) c('\r'); c('\n'); }
static void comment(void) { int k = upto(8) ? (int)upto(40) : (int)upto(1500); c('#'); while (k-- > 0) c(upto(12) ? 'a' + upto(26) : "=\"'#\t %"[upto(7)]); }
static void junk(void) { static const char *w[] = { "password", "=", "\"", "'", "\\", "\n", "\r\n", "\r", "#", " ", "\t", "timeout", "5", "x", "\\\n", "port=1", "identity = \"", "\xff", "%s%n" }; int k = upto(60); while (k-- > 0) { if (upto(20) == 0) { int m = upto(3000), ch = upto(3) ? 'z' : "\\\" \t="[upto(5)]; while (m-- > 0) c(ch); } s(w[upto(19)]); } }
static void value(char *v, int k) {
	int q = upto(3), l, i;
	if (ISINT(k)) sprintf(v, upto(5) ? "%u" : upto(2) ? "0x%x" : "0%o", upto(4) ? upto(1000) : upto(2) ? (unsigned)INT_MAX - upto(2) : rnd() & 0x7fffffff);
	else {
		l = upto(4) ? 1 + upto(30) : upto(3) ? 1 + upto(700) : 1 + upto(2040); if (q && upto(20) == 0) l = 0; if (upto(40) == 0) l = 2046;
		for (i = 0; i < l; i++) v[i] = upto(6) ? 'a' + upto(26) : "\\\"'# \t=%\x80\xff:;"[upto(12)];
		v[l] = 0;
	}
	if (q) c("\"'"[q - 1]);
	for (i = 0; v[i]; i++) {
		int must = v[i] == '\\' || (q && v[i] == "\"'"[q - 1]) || (!q && (v[i] == '#' || v[i] == ' ' || v[i] == '\t' || (i == 0 && (v[i] == '"' || v[i] == '\''))));
		if (upto(60) == 0 && n + 1 < sizeof(text)) { c('\\'); c('\n'); }
		if (must || upto(30) == 0) c('\\');
		c(v[i]);
	}
	if (q) c("\"'"[q - 1]);
}
static int file(void) {	/* -> 0 well-formed, 1 to be refused, 2 anything may happen */
	int k, lines = upto(9), bad = upto(3) ? 0 : 1 + upto(10), at = upto(lines + 1);
	n = 0; memset(set, 0, sizeof(set));
	if (upto(8) == 0) { int j, m = 1 + upto(4); for (j = 0; j < m; j++) junk(); return 2; }
	for (k = 0; k < lines + 1; k++) {
		int i = upto(8), last = k == lines;
		mayjoin = 1;
		if (bad && k == at) {
			blanks(0);
			switch (bad) {
			case 1: s("passwort = x"); break;
			case 2: s("pass = x"); break;
			case 3: s("password2 = x"); break;
			case 4: s("identity"); break;
			case 5: s("identity =  "); break;
			case 6: s("identity = # nothing"); break;
			case 7: s("identity = \"x\" y"); break;
			case 8: s("timeout = 12x"); break;
			case 9: s(upto(2) ? "delay = -1" : upto(2) ? "delay = 2147483648" : "timeout = 99999999999999999999"); break;
			case 10: { int j, l = 2048 + (upto(2) ? 0 : upto(3000)); s("password = "); for (j = 0; j < l; j++) c('p'); } break;
			}
			eol(); continue;
		}
		switch (upto(6)) {
		case 0: mayjoin = 0; blanks(0); if (!last) eol(); break;
		case 1: mayjoin = 0; blanks(0); comment(); if (!last) eol(); break;
		default:
			blanks(0); s(keys[i]); blanks(0); c('='); blanks(0); value(vals[i], i); set[i] = 1;
			mayjoin = 0; if (text[n - 1] == '\\') c(' '); if (upto(5) == 0) { blanks(0); if (upto(2)) { c(' '); comment(); } }
			if (!last || upto(2)) eol();
		}
	}
	return bad ? 1 : 0;
}
static const char *defaults[8] = { NULL, NULL, NULL, "change-me", "5668", "localhost", NULL, NULL };
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), k, i, *done;
	setprogname("cconf"); log_set(-1, getenv("DBG") ? LOG_TARGET_STDERR : 0);
	k = workers(6); done = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); 
	for (; k < cases; k += 6) {
		int kind, st, fd; pid_t p;
		seed(atoll(argv[1]) * 99991 + k); nstory = 0; story[0] = 0;
		kind = file();
		fd = open("c.conf", O_WRONLY | O_CREAT | O_TRUNC, 0600); write(fd, text, n); close(fd);
		tell("file (%zu bytes): ", n); show(text, n); if (n > 600) { tell(" ... "); show(text + n - (n > 1200 ? 600 : n - 600), n > 1200 ? 600 : n - 600); }
		*done = 0; fflush(stdout);
		if ((p = fork()) == 0) {
			conf *cfg = conf_init("c.conf");
			*done = 1;
			if (kind == 0) for (i = 0; i < 8; i++) {
				if (ISINT(i)) {
					long want = set[i] ? strtol(vals[i], NULL, 0) : i == 6 ? 15 : 0;
					if (conf_getint(cfg, keys[i]) != want) fail("C17", "`%s' is %ld instead of %ld", keys[i], conf_getint(cfg, keys[i]), want);
				} else {
					char *v = conf_getstr(cfg, keys[i]);
					if (set[i] && (v == NULL || strcmp(v, vals[i]) != 0)) fail("C17", "`%s' is `%s' instead of `%s'", keys[i], v ? v : "(null)", vals[i]);
					if (!set[i] && defaults[i] && (v == NULL || strcmp(v, defaults[i]) != 0)) fail("C17", "the default of `%s' is `%s'", keys[i], v ? v : "(null)");
				}
			}
			conf_setstr(cfg, "server", "another"); conf_setint(cfg, "delay", 9);
			if (strcmp(conf_getstr(cfg, "server"), "another") != 0 || conf_getint(cfg, "delay") != 9) fail("C17", "a value that was set is not returned");
			conf_free(cfg);
			fflush(stdout); _exit(0);
		}
		waitpid(p, &st, 0);
		if (WIFSIGNALED(st)) { printf("FAIL[C17] killed by signal %d | %s\n", WTERMSIG(st), story); return 1; }
		if (WEXITSTATUS(st) == 99) return 99;
		if (WEXITSTATUS(st) != 0 && *done) return WEXITSTATUS(st);
		if (kind == 0 && !*done) fail("C17", "a well-formed file is refused");
		if (kind == 1 && *done) fail("C17", "a file that is not well-formed is accepted");
		if (!*done && WEXITSTATUS(st) == 0) fail("C17,C16", "the client exits with status 0 although the configuration is refused");
	}
	fflush(stdout); _exit(0);
}
