/* log messages against an own printf(); usage: vlog SEED MESSAGES */
#include "h.h"
#include <errno.h>
#define SIM_SELF
#include "vlogren.h"
#include "log.h"
static char errtext[700], sys[20000]; static int asked, nsys, syslevel;
char *sim_strerror(int e) { asked++; return errtext; }
void sim_vsyslog(int l, const char *f, va_list a) { nsys++; syslevel = l; vsnprintf(sys, sizeof(sys), f, a); }
void sim_syslog(int l, const char *f, ...) { va_list a; va_start(a, f); sim_vsyslog(l, f, a); va_end(a); }
static void call(int level, const char *f, ...) { va_list a; va_start(a, f); vlog(level, f, a); va_end(a); }
static char fmt[2000], want[2][40000], str[6][6000]; static size_t nf, nw[2], flen; static long args[6]; static int na;
static void F(int c) { if (nf < sizeof(fmt) - 1) { fmt[nf++] = c; flen++; } }
static void W(const char *s, size_t n) { int k; for (k = 0; k < 2; k++) { memcpy(want[k] + nw[k], s, n); nw[k] += n; } }
static void randstr(char *s, int l) { int i; for (i = 0; i < l; i++) s[i] = upto(8) ? 'a' + upto(26) : "%smndn\\\x80\xff;%"[upto(11)]; s[l] = 0; }
static void check(const char *got, size_t n, const char *where) {
	int k; size_t w; const char *p;
	if (n == 0 || got[n - 1] != '\n') { if (*where == 's') goto body; fail("C19", "the message on %s does not end in a newline", where); }
	n--;
body:
	for (k = 0; k < 2; k++) {
		w = nw[k];
		if (n >= w && n <= w + 60 && memcmp(got + n - w, want[k], w) == 0) return;
		if (w > 740 && n > 740 && memcmp(got + n - 6, " [...]", 6) == 0) for (p = got; p < got + 60; p++) {
			size_t l = got + n - 6 - p;
			if (l < w && memcmp(p, want[k], l) == 0) {
				if (l + 6 > w) fail("C19", "the message on %s is cut although it is no longer than what is printed", where);
				return;
			}
		}
	}
	tell(" printed: "); show(got, n > 300 ? 300 : n); if (n > 300) { tell("..."); show(got + n - 40, 40); } tell(" (%zu), expected: ", n); show(want[0], nw[0]); tell(" (%zu)", nw[0]);
	fail("C19", "the message on %s is wrong", where);
}
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n; FILE *err = stderr;
	setprogname("prog");
	for (n = 0; n < cases; n++) {
		static const int levels[] = { LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG, 99 };
		int i, k, j, e = 1 + upto(100), level = levels[upto(7)], target = 1 + upto(7), exact = 1, hasm = 0; char *mem = NULL; size_t nmem = 0; char b[6100];
		seed(atoll(argv[1]) * 500009 + n); nstory = 0; story[0] = 0;
		nf = flen = nw[0] = nw[1] = 0; na = 0; asked = nsys = 0; memset(args, 0, sizeof(args));
		randstr(errtext, upto(3) ? upto(50) : upto(3) ? upto(450) : upto(690)); if (upto(6) == 0) { j = upto(690); memset(errtext, '%', j); errtext[j] = 0; }
		k = upto(3) ? upto(6) : upto(30);
		for (i = 0; i < k; i++) switch (upto(8)) {
		case 0: case 1: j = upto(4) ? upto(20) : upto(3) ? upto(200) : upto(520); while (j-- > 0) { int c = upto(6) ? 'a' + upto(26) : "msd\\\xff \""[upto(7)]; char ch = c; F(c); W(&ch, 1); } break;
		case 2: F('%'); F('%'); W("%", 1); break;
		case 3: F('%'); F('m'); hasm = 1; for (j = 0; errtext[j]; j++) { want[0][nw[0]++] = errtext[j]; flen += 1 + (errtext[j] == '%'); } strcpy(want[1] + nw[1], strerror(e)); nw[1] += strlen(strerror(e)); break;
		case 4: case 5: if (na == 3) break; randstr(str[na], upto(3) ? upto(40) : upto(3) ? upto(900) : upto(5900)); args[na] = (long)str[na]; if (upto(3)) { F('%'); F('s'); W(str[na], strlen(str[na])); } else { F('%'); F('1'); F('0'); F('s'); sprintf(b, "%10s", str[na]); W(b, strlen(b)); } na++; break;
		case 6: if (na == 3) break; args[na] = (long)rnd() * (upto(2) ? 1 : -77777); F('%'); F('l'); j = "dux"[upto(3)]; F(j); sprintf(b, j == 'd' ? "%ld" : j == 'u' ? "%lu" : "%lx", args[na++]); W(b, strlen(b)); break;
		case 7: if (na == 3) break; args[na] = 'A' + upto(26); F('%'); F('c'); b[0] = args[na++]; W(b, 1); break;
		}
		fmt[nf] = 0;
		if (flen >= 500 || nf >= sizeof(fmt) - 1) exact = 0;
		tell("case %d: level %d, target %d, format: ", n, level, target); show(fmt, nf); tell(", error text: "); show(errtext, strlen(errtext)); for (i = 0; i < na; i++) if (args[i] > 4096 && (char *)args[i] == str[i]) { tell(", argument: "); show(str[i], strlen(str[i])); tell(" (%zu)", strlen(str[i])); } else tell(", argument: %ld", args[i]);
		tell(";");
		if (!exact && upto(2)) fmt[upto(600)] = 0;
		if (!exact && fmt[0] && fmt[strlen(fmt) - 1] == '%' && upto(2)) fmt[strlen(fmt) - 1] = 'x';
		log_set(LOG_LEVEL_DEBUG, target);
		stderr = open_memstream(&mem, &nmem); errno = e;
		if (exact) call(level, fmt, args[0], args[1], args[2]);
		else { char *p, *q; /* only memory safety: conversions that take arguments are made harmless */ for (p = fmt; (q = strchr(p, '%')) != NULL; ) { if (q[1] == 0) break; if (q[1] != '%' && q[1] != 'm') q[1] = '%'; p = q + 2; } call(level, fmt); }
		fclose(stderr); stderr = err;
		if (exact) {
			char *p = mem, *q;
			if (hasm && !asked) { nw[0] = nw[1]; memcpy(want[0], want[1], nw[1]); } else { nw[1] = nw[0]; memcpy(want[1], want[0], nw[0]); }
			if (nsys != !!(target & LOG_TARGET_SYSLOG)) fail("C19", "%d messages are sent to syslog", nsys);
			if (nsys) { if (syslevel != level) fail("C19", "the priority is %d", syslevel); check(sys, strlen(sys), "syslog"); }
			if (target & LOG_TARGET_SYSTEMD && target & LOG_TARGET_STDERR) { if ((q = memchr(p, '\n', nmem)) == NULL) fail("C19", "nothing is printed"); check(p, q + 1 - p, "stderr (systemd)"); nmem -= q + 1 - p; p = q + 1; check(p, nmem, "stderr"); }
			else if (target & (LOG_TARGET_SYSTEMD | LOG_TARGET_STDERR)) check(p, nmem, "stderr");
			else if (nmem) fail("C19", "something is printed although it should not be");
		}
		free(mem);
	}
	printf("%d random messages\n", cases);
	return 0;
}
