/* the client (input reader, parser, protocol) against a simulated server and standard input; usage: client SEED CASES */
#include "h.h"
#include <ctype.h>
#include <errno.h>
#include <setjmp.h>
#include <strings.h>
#define SIM_SELF
#include "clren.h"
#include "vev.h"
#include "tls.h"
#include "log.h"
#include "src/client/conf.h"
#include "wrappers.h"
#include "src/client/client.h"
int exit_code; conf *cfg;
static jmp_buf out; static int died, ended, want_read, armed;
void sim_exit(int n) { if (!armed) exit(n); died = 1; ended = n != 0 ? 2 : 3; longjmp(out, 1); }
#define NOW 1234567890UL
time_t sim_time(time_t *p) { if (p) *p = NOW; return NOW; }
/* ---- standard input ---- */
static unsigned char in[400000]; static size_t nin, pin; static int fl, mood, burst, big;
int sim_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); if (c == F_SETFL) fl = va_arg(a, int); va_end(a); return c == F_GETFL ? fl : 0; }
ssize_t sim_read(int fd, void *p, size_t n) {
	size_t k;
	if (fd != 0) fail("C15", "read() from descriptor %d", fd);
	if (!(fl & O_NONBLOCK)) fail("C15", "standard input is read although it may block");
	if (burst <= 0) { errno = upto(3) ? EAGAIN : EINTR; return -1; }
	burst--;
	if (pin == nin) return 0;
	k = mood == 0 ? n : mood == 1 ? 1 + upto(n) : 1 + upto(3);
	if (k > nin - pin) k = nin - pin;
	if (k > n) k = n;
	memcpy(p, in + pin, k); pin += k; return k;
}
/* ---- what is expected to be sent ---- */
static char *exps[3000]; static size_t expn[3000]; static int nexp, iexp, broken, bad;
static void expect(const char *p, size_t n) { if (nexp >= 2990) abort(); exps[nexp] = malloc(n + 1); memcpy(exps[nexp], p, n); exps[nexp][n] = 0; expn[nexp++] = n; }
/* ---- the TLS module ---- */
static tls_state T; static tls_client_state C; static void (*on_connect)(tls_state *); static void (*on_line)(tls_state *restrict, char *restrict);
static int stopped, closed, nsent; static char line[70000]; static size_t nline; static int refused;
tls_client_state *tls_client_start(const char *c) { memset(&C, 0, sizeof(C)); stopped = 0; return &C; }
void tls_client_stop(tls_client_state *t) { stopped++; }
void tls_set_connection_id(tls_state *t, const char *i) {}
void tls_on_timeout(tls_state *t, void f(tls_state *)) {}
void tls_on_error(tls_state *t, void f(tls_state *)) {}
void tls_on_drain(tls_state *t, void f(tls_state *)) {}
void tls_on_line_too_long(tls_state *t, void f(tls_state *)) {}
void tls_connect(tls_client_state *c, const char *s, ev_tstamp o, int f, void h(tls_state *), void g(tls_state *), unsigned int k(SSL *, const char *, char *, unsigned int, unsigned char *, unsigned int)) {
	if (strcmp(s, "host:1") != 0 || o != 7.0) fail("C16", "the client connects to `%s' (timeout %f)", s, o);
	if (!(f & TLS_AUTO_DIE)) fail("C16", "a failing connection does not end the client");
	memset(&T, 0, sizeof(T)); T.data = c->data; T.peer = T.addr = "peer"; on_connect = h;
}
void tls_read_line(tls_state *t, void h(tls_state *, char *)) { if (closed) fail("C16,C14", "a response is read after the connection was shut down"); if (want_read) fail("C14", "two responses are awaited at the same time"); want_read = 1; on_line = (void *)h; }
void tls_shutdown(tls_state *t) { closed++; if (closed > 1) fail("C14,C16", "the connection is shut down twice"); }
static void sent(const char *p, size_t n) {
	if (closed) fail("C14,C16", "something is sent after the connection was shut down");
	if (refused) { if (n >= 5 && memcmp(p, "BAIL ", 5) == 0) return; if (nline) return; tell(" >>"); show(p, n); tell("<<"); fail("C14,C16", "the client goes on after the server refused"); }
	nsent++;
	if (iexp >= nexp || expn[iexp] != n || memcmp(exps[iexp], p, n) != 0) {
		if (iexp == 0 && n > 8 && memcmp(p, "MOIN 1 ", 7) == 0 && strchr(p + 7, ' ') == NULL) { iexp++; return; }
		tell(" >>"); show(p, n); tell("<<"); if (iexp < nexp) { tell(" instead of >>"); show(exps[iexp], expn[iexp]); tell("<<"); }
		fail("C13,C14,C15", "the client sends something else than it should");
	}
	iexp++;
}
static char prefix[10];
void tls_write(tls_state *t, void *d, size_t n, void f(void *)) {
	if (n == 5 && memcmp(d, "BAIL ", 5) == 0) { nline = 5; if (!refused && !broken) fail("C14,C16", "the client bails out although nothing is wrong"); refused = 1; }
	else sent(d, n);
	if (f) f(d);
}
void tls_write_line(tls_state *t, const char *l) { if (nline) { nline = 0; return; } if (strpbrk(l, "\r\n")) fail("C14", "a request contains a newline"); sent(l, strlen(l)); }
/* ---- records ---- */
static int mode; static char delim, sep;
static int record(const char *p, size_t n) {	/* -> 0 if it is refused */
	static char r[900000], b[100]; size_t k = 0, i; const char *f[4]; size_t fl[4]; int nf = 0; const char *s, *e = p + n;
	while (p < e && (*p == '\r' || *p == '\n')) p++;
	if (p == e) return 1;
	if (mode == CLIENT_MODE_COMMAND) {
		while (p < e && (*p == ' ' || *p == '\t')) p++;
		if (p < e && *p == '[') k = 0; else k = sprintf(r, "[%lu] ", NOW);
		memcpy(r + k, p, e - p); k += e - p;
	} else {
		if (e[-1] == '\n') e--;
		for (s = p; nf < 3; ) { const char *q = memchr(s, delim, e - s); if (q == NULL) break; f[nf] = s; fl[nf++] = q - s; s = q + 1; }
		f[nf] = s; fl[nf++] = e - s;
		if (nf < 3) return 0;
		k = sprintf(r, "[%lu] PROCESS_%s_CHECK_RESULT", NOW, nf == 3 ? "HOST" : "SERVICE");
		for (i = 0; i < nf; i++) { size_t j; r[k++] = ';'; for (j = 0; j < fl[i]; j++) if (f[i][j] == '\\') { r[k++] = '\\'; r[k++] = '\\'; } else if (f[i][j] == '\n') { r[k++] = '\\'; r[k++] = 'n'; } else r[k++] = f[i][j]; }
	}
	r[k++] = '\n';
	sprintf(b, "PUSH %zu", k); expect(b, strlen(b)); expect(r, k);
	return 1;
}
static void records(void) {
	size_t s = 0, i;
	for (i = 0; i < nin; i++) if (in[i] == (unsigned char)sep) { if (!record((char *)in + s, i - s)) { bad = 1; return; } s = i + 1; }
	if (s < nin && !record((char *)in + s, nin - s)) { bad = 1; return; }
	expect("QUIT", 4);
}
static void ch(int c) { if (nin < sizeof(in) - 10) in[nin++] = c; }
static void text(int n) { while (n-- > 0) { int r = upto(60); int c = r == 0 ? '\\' : r == 1 ? ';' : r == 2 ? ' ' : r == 3 ? '%' : r == 4 ? 0x80 + upto(128) : r == 5 ? ']' : r == 6 ? '\r' : r == 7 ? 'n' : r == 8 ? '[' : 'a' + upto(26); if (c == (unsigned char)delim || c == (unsigned char)sep) c = '_'; ch(c); } }
static void input(void) {
	int k, n = upto(8), j;
	nin = 0;
	for (k = 0; k < n; k++) {
		if (upto(8) == 0) { for (j = upto(4); j >= 0; j--) ch("\r\n"[upto(2)]); if (upto(2)) { ch(sep); continue; } }
		if (mode == CLIENT_MODE_COMMAND) {
			if (upto(5) == 0) for (j = upto(4); j > 0; j--) ch(upto(2) ? ' ' : '\t');
			if (upto(3)) { ch('['); text(3); ch(']'); ch(' '); }
			text(upto(4) ? 1 + upto(40) : upto(3) ? 100 + upto(400) : big ? 65000 + upto(9000) : upto(12000));
		} else {
			int nf = upto(25) ? 3 + upto(2) : 1 + upto(2);
			for (j = 0; j < nf; j++) {
				if (j) ch(delim);
				text(upto(10) == 0 ? 0 : j < 2 ? 1 + upto(20) : upto(4) ? upto(60) : upto(4) ? upto(600) : big ? 65000 + upto(9000) : upto(9000));
				if (j == nf - 1 && sep != '\n' && delim != '\n') { while (upto(3) == 0) { ch('\n'); text(upto(20)); } while (upto(4) == 0) { ch(delim); text(upto(9)); } }
			}
			if (sep != '\n' && upto(3) == 0) ch('\n');
		}
		if (k < n - 1 || upto(2)) ch(sep);
	}
	if (upto(4) == 0) ch(sep); if (upto(6) == 0) ch('\n');
}
static void reply(const char *s) { void (*h)(tls_state *restrict, char *restrict) = on_line; char *l = strdup(s); want_read = 0; tell(" <%s>", s); h(&T, l); }
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n, i;
	setprogname("client"); log_set(-1, 0);
	for (n = 0; n < cases; n++) {
		static volatile int k; volatile int fail_at, kind, silent = 0; static const char *ok[] = { "OKAY", "okay", "Okay" };
		seed(atoll(argv[1]) * 1000033 + n); nstory = 0; story[0] = 0; vreset(); vinv = 0;
		for (i = 0; i < nexp; i++) free(exps[i]);
		nexp = iexp = broken = bad = died = ended = want_read = stopped = closed = nsent = refused = exit_code = 0; nline = 0; fl = 2; pin = 0; mood = upto(3); big = upto(40) == 0; if (big) mood = 0; burst = 0; on_connect = NULL;
		mode = upto(2) ? CLIENT_MODE_COMMAND : CLIENT_MODE_CHECK_RESULT;
		delim = "\t\t\t,;|!:n "[upto(10)]; do sep = "\27\27\n\n|\1#"[upto(7)]; while (sep == delim);
		input(); if (mode == CLIENT_MODE_COMMAND) { char s = sep; sep = '\n'; expect("MOIN", 4); records(); sep = s; } else { expect("MOIN", 4); records(); }
		fail_at = upto(3) ? -1 : (int)upto(nexp + 2); kind = upto(9);
		tell("case %d: mode %s, delimiter %d, separator %d, input: ", n, mode == CLIENT_MODE_COMMAND ? "command" : "result", delim, sep); show((char *)in, nin); tell("; ");
		armed = 1;
		if (setjmp(out) == 0) {
			int answers = 0;
			client_start("host:1", "PSK", 7.0, mode, delim, sep);
			if (on_connect == NULL) fail("C16", "no connection is established");
			on_connect(&T);
			for (k = 0; k < 400000 && !closed; k++) {
				int io = nvio > 0 && ((ev_io *)vio[0])->fd == 0;
				if (!io && !want_read) fail("C14,C15,C16", "the client waits for nothing");
				if (io && want_read) fail("C14,C15", "input is read while a response is awaited");
				vinv = 0;
				if (io) { burst = mood == 0 ? 100000 : upto(40); ev_feed_event(vio[0], EV_READ); ev_invoke_pending(); burst = 0; }
				else {
					if (answers == fail_at) {
						int first = answers == 0;
						if (kind == 8) { silent = 1; break; }
						refused = kind < 4; broken = 1;
						switch (kind) {
						case 0: reply("FAIL no"); break; case 1: reply("BAIL go away"); break; case 2: reply("fail"); break; case 3: reply("Bail x y z"); break;
						case 4: reply(first ? "MOIN 2" : "OKAYISH"); break; case 5: reply(""); break; case 6: reply(first ? "MOIN" : "OK"); break; case 7: reply(first ? "OKAY" : "MOIN 1"); break;
						}
						if (!closed) fail("C16", "the client goes on after the server refused or sent nonsense");
						if (exit_code == 0) fail("C16", "the exit status is 0 although the server refused or sent nonsense");
						break;
					}
					reply(answers++ == 0 ? upto(2) ? "MOIN 1" : "moin  1" : ok[upto(3)]);
					burst = 0;
				}
			}
		}
		armed = 0;
		if (died && ended != 2) fail("C16", "the client ends with status 0 although something is wrong");
		if (died && !bad) fail("C13,C16,C15", "the client dies although nothing is wrong");
		if (bad && !died && !broken && !silent) fail("C13,C16", "an incorrect record is accepted");
		if (!died && !broken && !silent) {
			if (k >= 400000) fail("C15", "the input is never finished");
			if (iexp != nexp) fail("C13,C14,C15", "%d of %d messages were sent", iexp, nexp);
			if (exit_code != 0) fail("C16", "the exit status is %d although everything was accepted", exit_code);
		}
		if (died && iexp != nexp) fail("C13,C14,C15", "%d of %d messages were sent before the incorrect record", iexp, nexp);
		if (!died && !silent) { if (stopped != 1) fail("C16", "the TLS client is stopped %d times", stopped); for (i = 0; i < nvio; i++) if (vio[i]->active) fail("C15,C16", "standard input is still watched at the end"); }
		nvio = 0;
	}
	printf("%d random sessions\n", cases);
	return 0;
}
