/* the whole server (protocol, authorization, configuration, TLS module) against simulated clients; usage: server SEED CONFIGURATIONS */
#include "h.h"
#include <limits.h>
#include <regex.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <confuse.h>
#include "vev.h"
#include "vssl.h"
#include "tls.h"
#include "log.h"
#include "conf.h"
#include "auth.h"
#include "fifo.h"
#include "server.h"
#include "live.h"
/* ---- configuration ---- */
#define NSEC 6
typedef struct { char id[40], pw[600]; int haspw; const char *pat[3][3]; int npat[3]; } section;
static section secs[NSEC]; static int nsec; static section glob;
static const char *names[3] = { "hosts", "services", "commands" };
static const char *hosts[] = { "web1", "db.*", "web1|web2", "(a|b)c", "srv[0-9]+", ".*", "x|y|z", "WEB1", "a\\\\.b", "web", "[a-z]+" };
static const char *servs[] = { "disk", "disk@web1", "a|b", "a|b@web1|web2", "load.*@db.*", ".*@web1", "cpu[0-9]", "a@b@web1", "disk@", "load@.*", "x|disk@y" };
static const char *cmds[] = { "ENABLE_NOTIFICATIONS", "A|B", "SHUTDOWN.*", "DISABLE_(X|Y)", "PROCESS_HOST_CHECK_RESULT;web1;.*", "ADD_[A-Z]+;[0-9]+", "FOO$", "B?AR" };
static const char *ids[] = { "alice", "bob", "web1", "a", "*", "Alice", "star*", "bob2" };
static int full(const char *pat, const char *s, size_t n) {
	char p[300], *t = malloc(n + 1); regex_t re; int r;
	snprintf(p, sizeof(p), "^(%s)$", pat); memcpy(t, s, n); t[n] = 0;
	if (regcomp(&re, p, REG_EXTENDED | REG_NOSUB) != 0) abort();
	r = regexec(&re, t, 0, NULL, 0) == 0; regfree(&re); free(t); return r;
}
static void unesc(char *d, const char *s) { while ((*d = *s)) { if (*s == '\\') *d = *++s; d++; s++; } }	/* what confuse makes of it */
static int host_ok(const char *pat, const char *c, size_t n) {
	const char *pre = "PROCESS_HOST_CHECK_RESULT;", *p, *e = c + n; size_t l = strlen(pre);
	if (n < l || memcmp(c, pre, l) != 0) return 0;
	for (p = c + l; p < e; p++) if (*p == ';' && e - p > 1 && full(pat, c + l, p - c - l)) return 1;
	return 0;
}
static int serv_ok(const char *pat, const char *c, size_t n) {
	const char *pre = "PROCESS_SERVICE_CHECK_RESULT;", *p, *q, *r, *e = c + n, *at = strrchr(pat, '@'); size_t l = strlen(pre); char s[200], h[200];
	if (n < l || memcmp(c, pre, l) != 0) return 0;
	snprintf(s, sizeof(s), "%.*s", at ? (int)(at - pat) : (int)strlen(pat), pat); snprintf(h, sizeof(h), "%s", at ? at + 1 : "[^;]+");
	for (p = c + l; p < e; p++) if (*p == ';' && full(h, c + l, p - c - l))
		for (q = p + 1; q < e; q++) if (*q == ';' && full(s, p + 1, q - p - 1))
			for (r = q + 2; r < e; r++) if (*r == ';' && e - r > 1) return 1;
	return 0;
}
static section *sec_of(const char *id) {
	int i; section *star = NULL;
	for (i = 0; i < nsec; i++) { if (strcmp(secs[i].id, id) == 0) return &secs[i]; if (strcmp(secs[i].id, "*") == 0) star = &secs[i]; }
	return star;
}
static int authorized(const char *id, const char *d, size_t n) {
	section *s = sec_of(id); const char *c; int k, j;
	if (s == NULL || n == 0 || memchr(d, 0, n) || d[n - 1] != '\n' || memchr(d, '\n', n - 1) || (c = memchr(d, ']', n)) == NULL) return 0;
	for (c++; *c == ' ' || *c == '\t'; c++);
	n -= c - d; n--;		/* without the newline */
	for (k = 0; k < 3; k++) {
		section *u = s->npat[k] ? s : &glob;
		for (j = 0; j < u->npat[k]; j++) {
			char p[200]; unesc(p, u->pat[k][j]);
			if (k == 0 ? host_ok(p, c, n) : k == 1 ? serv_ok(p, c, n) : full(p, c, n)) return 1;
		}
	}
	return 0;
}
/* ---- conversations ---- */
#define SMAX 60000
typedef struct { char tag[24]; size_t off, len; int k; } push;
typedef struct {
	unsigned char in[SMAX]; size_t n; char exp[4000]; size_t nexp;	/* expected answers, one character each */
	push p[64]; int np, sent; int end;			/* end: 0 goes on waiting, 1 closed by the server, 2 too long */
	size_t long_at; const char *id;
} script;
static script scr[4]; static size_t maxcmd; static double T; static int casing;
static void put(script *s, const char *f, ...) {
	char b[3000]; va_list a; int n, i; va_start(a, f); n = vsnprintf(b, sizeof(b), f, a); va_end(a);
	if (casing) for (i = 0; i < 4 && i < n; i++) if (upto(2) && b[i] >= 'A' && b[i] <= 'Z') b[i] += 32;
	memcpy(s->in + s->n, b, n); s->n += n;
	if (upto(2)) s->in[s->n++] = '\r';
	s->in[s->n++] = '\n';
}
static void ans(script *s, int c) { s->exp[s->nexp++] = c; }
static void payload(script *s, int ci, int k) {	/* appends the data of a command */
	unsigned char *b = s->in + s->n; int n = 0; push *p = &s->p[s->np]; static const char *hn[] = { "web1", "web2", "web", "db7", "ac", "a", "bc", "srv12", "x", "xweb1", "web1x", "y", "z", "a.b", "axb", "b@web1" }, *sn[] = { "disk", "a", "b", "load1", "cpu3", "xdisk", "x", "load" };
	int junk = upto(14); char tag[24];
	p->off = s->n; snprintf(tag, sizeof(tag), "c%dn%d", ci, k);
	if (junk != 0) n += sprintf((char *)b + n, "[%u]%s", upto(2000000000), upto(3) ? " " : upto(2) ? "" : " \t ");
	switch (upto(4)) {
	case 0: n += sprintf((char *)b + n, "PROCESS_HOST_CHECK_RESULT;%s;0;%s", hn[upto(16)], tag); break;
	case 1: n += sprintf((char *)b + n, "PROCESS_SERVICE_CHECK_RESULT;%s;%s;1;%s", hn[upto(16)], sn[upto(8)], tag); break;
	case 2: n += sprintf((char *)b + n, "%s", ((const char *[]){ "ENABLE_NOTIFICATIONS", "A", "B", "AB", "SHUTDOWN;5", "DISABLE_X", "DISABLE_XY", "ADD_FOO;17", "ADD_FOO;x", "FOO", "XENABLE_NOTIFICATIONS", "ENABLE_NOTIFICATIONSX", "AR", "BARB" })[upto(14)]); break;
	default: n += sprintf((char *)b + n, "PROCESS_%s_CHECK_RESULT;%s;%s;2;%s;more; text with ] and [ %s", upto(2) ? "HOST" : "SERVICE", hn[upto(16)], sn[upto(8)], hn[upto(16)], tag);
	}
	if (junk == 1) b[n / 2] = 0;
	if (junk == 2) b[n / 2] = '\n';
	if (junk == 3) { b[n++] = 0; n += sprintf((char *)b + n, "ENABLE_NOTIFICATIONS"); }
	if (junk == 4 && upto(2)) { b[n++] = '\n'; n += sprintf((char *)b + n, "ENABLE_NOTIFICATIONS"); }
	if (junk != 5) b[n++] = '\n';
	if (junk == 6 && upto(2)) b[n++] = '\n';
	if (junk == 7 && upto(2)) b[n++] = 0;
	if (upto(12) == 0 && junk > 7) { int m = upto(3) ? 3000 : 9000; n--; memset(b + n, 'L', m); n += m; b[n++] = '\n'; }
	if (junk > 7 && maxcmd > (size_t)n && maxcmd < 16400 && upto(6) == 0) { int m = (int)maxcmd - n + upto(2); n--; memset(b + n, 'E', m); n += m; b[n++] = '\n'; }
	p->len = n; strcpy(p->tag, tag);
	s->n += n;
}
static void write_script(script *s, int ci) {
	int phase = 0, k, steps = 1 + upto(14);
	s->n = s->nexp = 0; s->np = s->sent = 0; s->end = 0; s->long_at = 0; casing = upto(3) == 0;
	for (k = 0; k < steps && s->n < SMAX - 30000; k++) {
		int r = upto(60);
		if (r == 0) { put(s, "BAIL %s", "out"); s->end = 1; return; }
		if (r == 1 && k > 0) { put(s, upto(2) ? "QUIT" : "QUIT now"); ans(s, 'O'); s->end = 1; return; }
		if (r == 2) {	/* a line that is too long */
			size_t n = 2060 + upto(3000); s->long_at = s->n; memset(s->in + s->n, 'M', n); s->n += n; ans(s, 'B'); s->end = 2; return; }
		if (r == 3) { put(s, "%s", ((const char *[]){ "", " ", "X", "FOO", "PUS 9", "MOI 1 x", " QUIT", "\tNOOP", "%s%n%d", "PONG 1", "OKAY" })[upto(11)]); ans(s, 'F'); continue; }
		if (r == 4) { char b[2000]; int n = 1000 + upto(900); memset(b, 'q', n); b[n] = 0; put(s, "%s", b); ans(s, 'F'); continue; }
		if (phase == 0) {
			switch (upto(12)) {
			case 0: put(s, "PING 1"); ans(s, 'P'); s->end = 1; return;
			case 1: put(s, "PUSH 20"); ans(s, 'F'); break;
			case 2: put(s, "NOOP"); ans(s, 'F'); break;
			case 3: put(s, "%s", ((const char *[]){ "MOIN", "MOIN 1", "MOIN 1 a b", "MOIN x id", "MOIN 0 id", "MOIN -1 id" })[upto(6)]); ans(s, 'F'); break;
			default: put(s, "MOIN %d %s", 1 + upto(3), upto(3) ? "abcdefg" : "x%sy%n"); ans(s, 'M'); phase = 1;
			}
			continue;
		}
		switch (upto(10)) {
		case 0: put(s, "NOOP"); ans(s, 'O'); break;
		case 1: put(s, "MOIN 1 again"); ans(s, 'F'); break;
		case 2: put(s, "PING 1"); ans(s, 'F'); break;
		case 3: put(s, "%s", ((const char *[]){ "PUSH", "PUSH x", "PUSH 0", "PUSH -3", "PUSH 10 20", "PUSH 2147483648", "PUSH 99999999999999999999", "PUSH -99999999999999999999" })[upto(8)]); ans(s, 'F'); break;
		case 4: if (maxcmd) { put(s, "PUSH %zu", maxcmd + 1 + (upto(2) ? upto(100000) : 0)); ans(s, 'F'); break; } /* FALLTHROUGH */
		default: {
			script t; size_t at = s->n, len; unsigned char *data; int ok;
			payload(s, ci, k); len = s->p[s->np].len; data = malloc(len + 1); memcpy(data, s->in + at, len); data[len] = 0; s->n = at;
			if (maxcmd && len > maxcmd) { put(s, "PUSH %zu", len); ans(s, 'F'); free(data); break; }
			put(s, upto(3) ? "PUSH %zu" : "PUSH  \t%zu ", len); ans(s, 'O');
			s->p[s->np].off = s->n; memcpy(s->in + s->n, data, len); s->n += len; (void)t;
			ok = authorized(s->id, (char *)data, len); free(data);
			if (ok) { s->np++; ans(s, 'O'); } else ans(s, 'F');
		} }
	}
}
/* ---- the command file ---- */
static int fifos;
static char cmdfile[] = "/the/command/file", tmpd[] = "/the/temp/directory";
static size_t mq;
fifo_state *fifo_start(const char *restrict f, const char *restrict d, size_t q) {
	if (strcmp(f, cmdfile) || strcmp(d, tmpd) || q != mq) fail("C22,C09", "the command file writer is started with wrong parameters (%s, %s, %zu)", f, d, q);
	fifos++; return (fifo_state *)&fifos;
}
void fifo_stop(fifo_state *f) { fifos--; }
void fifo_write(fifo_state *restrict f, void *restrict data, size_t n, void fr(void *)) {
	int i;
	for (i = 0; i < nconn; i++) {
		script *s = &scr[i]; push *p = &s->p[s->sent];
		if (s->sent < s->np && p->len == n && memcmp(s->in + p->off, data, n) == 0 && conns[i].in_pos >= p->off + n) { s->sent++; if (fr) fr(data); return; }
	}
	for (i = 0; i < nconn; i++) { script *s = &scr[i]; push *p = &s->p[s->sent]; tell(" stream %d (%zu of %zu read): ", i, conns[i].in_pos, s->n); show((char *)s->in, s->n); if (s->sent < s->np) { tell(" expected: "); show((char *)s->in + p->off, p->len); } }
	tell(" >>"); show(data, n); tell("<<");
	for (i = 0; i < nconn && !conns[i].ids[1]; i++);
	fail(i < nconn ? "C01,C02,C03,C04,C22" : "C01,C02,C03,C22", "data reaches the command file that is not the next authorized command of any client");
}
/* ---- */
static unsigned pskmax = 256;
static void check_key(conn *c, int i) {
	section *s = sec_of(c->ids[i]); const char *pw; size_t l; int k;
	if (s == NULL) { if (c->keylen != 0) fail("C04", "`%s', which has no section, gets a key", c->ids[i]); return; }
	pw = s->haspw ? s->pw : glob.pw; l = strlen(pw); if (l > 256) l = 256;
	if (c->keylen != (int)l || memcmp(c->key, pw, l) != 0) fail("C04,C22", "the key for `%s' is not the password of its section", c->ids[i]);
	for (k = (int)l; k < 256 + 50; k++) if (k >= 256 && c->key[k] != 0xee) fail("C04,C25", "the key is written beyond its buffer");
}
static SSL_psk_server_cb_func real_psk;
static unsigned int my_psk(SSL *s, const char *id, unsigned char *k, unsigned int m) {
	conn *c = s->c; unsigned r = real_psk(s, id, k, m); int i;
	c->keylen = (int)r;
	for (i = 0; c->ids[i] && strcmp(c->ids[i], id); i++);
	check_key(c, i);
	if (r == 0) c->hs_result = END_ERROR;
	else c->idkey = (char *)id;
	return r;
}
static size_t out_pos(conn *c, char *kinds) {	/* the kinds of the answers sent so far */
	size_t n = 0, i = 0;
	while (i < c->out_len) {
		unsigned char *e = memchr(c->out + i, '\n', c->out_len - i); size_t l = e ? e - c->out - i : c->out_len - i;
		if (e == NULL) return n;		/* incomplete */
		if (l < 1 || e[-1] != '\r') fail("C05,C12", "an answer is not terminated by CRLF");
		l--;
		if (n > 3900) fail("C05", "too many answers");
		if (l == 4 && memcmp(c->out + i, "OKAY", 4) == 0) kinds[n++] = 'O';
		else if (l >= 6 && memcmp(c->out + i, "FAIL ", 5) == 0) kinds[n++] = 'F';
		else if (l == 6 && memcmp(c->out + i, "MOIN 1", 6) == 0) kinds[n++] = 'M';
		else if (l == 6 && memcmp(c->out + i, "PONG 1", 6) == 0) kinds[n++] = 'P';
		else if (l >= 6 && memcmp(c->out + i, "BAIL ", 5) == 0) kinds[n++] = 'B';
		else { tell(" >>"); show((char *)c->out + i, l); tell("<<"); fail("C05,C12", "not an answer of the protocol"); }
		i += l + 2;
	}
	return n;
}
static const char *kind_name(int k) { return k == 'O' ? "OKAY" : k == 'F' ? "FAIL" : k == 'M' ? "MOIN" : k == 'P' ? "PONG" : k == 'B' ? "BAIL" : "nothing"; }
static void check_answers(int i, int all, int timedout) {
	conn *c = &conns[i]; script *s = &scr[i]; static char k[4000]; size_t n = out_pos(c, k), j;
	for (j = 0; j < n; j++)
		if (j >= s->nexp ? !(timedout && j == s->nexp && k[j] == 'B') : k[j] != s->exp[j]) {
			if (timedout && k[j] == 'B' && j == n - 1) return;
			tell(", stream %d: ", i); show((char *)s->in, s->n < 3000 ? s->n : 3000);
			fail(k[j] == 'B' || (j < s->nexp && s->exp[j] == 'B') ? "C05,C06" : c->ids[1] ? "C01,C02,C03,C04,C05,C06,C12,C22" : "C01,C02,C03,C05,C06,C12,C22", "answer %zu of connection %d is %s instead of %s", j, i, kind_name(k[j]), kind_name(j < s->nexp ? s->exp[j] : 0));
		}
	if (all && n < s->nexp) { tell(", stream %d: ", i); show((char *)s->in, s->n < 3000 ? s->n : 3000); fail("C05,C11,C12", "connection %d gets %zu of %zu answers", i, n, s->nexp); }
}
static void ssl_read(conn *c, int k) {
	script *s = &scr[c - conns];
	if (s->end == 2 && c->in_pos > s->long_at + 2048) fail("C06", "%zu bytes of an unterminated line are read", c->in_pos - s->long_at);
}
static void ssl_write(conn *c, int k) { check_answers(c - conns, 0, T > 0); }
static void before(ev_watcher *w, int ev) { }
static void histories(int cases) {
	int n;
	for (n = 0; n < cases; n++) {
		server_state *srv; int i, k; long base; size_t keep = nstory; int all;
		memset(conns, 0, sizeof(conns)); vreset(); next_conn = 0; accept_bios = ctxs = 0; fifos = 0;
		nconn = 1 + upto(3); smooth = upto(4) == 0; vnow = ev_rt_now = 1000000;
		T = upto(3) ? 0 : 5 + upto(60); maxcmd = upto(2) ? 0 : upto(3) ? 16384 : 100 + upto(3000); mq = upto(3);
		tell("; history %d: max_command_size %zu", n, maxcmd);
		all = upto(4) != 0;
		for (i = 0; i < nconn; i++) {
			conn *c = &conns[i]; script *s = &scr[i];
			c->ids[0] = upto(8) ? secs[upto(nsec)].id : ids[upto(8)]; c->ids[1] = upto(10) ? NULL : ids[upto(8)];
			if (c->ids[1] && strcmp(c->ids[0], c->ids[1]) == 0) c->ids[1] = NULL;
			s->id = c->ids[1] ? c->ids[1] : c->ids[0];
			write_script(s, i);
			c->fd = 100 + i; c->in = s->in; c->in_len = s->n; c->in_end = END_SILENT; if (!all) { c->in_end = upto(5); c->in_len = upto(3) ? upto(s->n + 1) : s->n; }
			c->hs_left = upto(3); c->hs_result = upto(10) ? 0 : 1 + upto(4);
			tell(", client %d `%s'", i, s->id);
		}
		before_cb = before; on_ssl_read = ssl_read; on_ssl_write = ssl_write; on_ssl_shutdown = NULL;
		base = live;
		srv = server_start("127.0.0.1:1", "PSK", cmdfile, tmpd, maxcmd, mq, T);
		real_psk = psk_server; psk_server = my_psk;
		for (k = 0; k < 500; k++) {
			int busy = 0;
			round_(1); if (k > 350) smooth = 1;
			for (i = 0; i < nconn; i++) busy |= conns[i].bio != NULL && (conns[i].in_pos < conns[i].in_len || conns[i].in_end != END_SILENT);
			if (next_conn == nconn && !busy && k > 60) break;
		}
		smooth = 1; for (k = 0; k < 60; k++) round_(1);
		for (i = 0; i < nconn; i++) {
			conn *c = &conns[i]; script *s = &scr[i];
			if (c->hs_result != 0) { if (c->out_len) fail("C04,C05", "an unauthenticated client gets an answer"); if (s->sent) fail("C01", "an unauthenticated client submits a command"); continue; }
			if (!all) { check_answers(i, 0, 0); continue; }
			if (c->broken && !s->end) continue;
			check_answers(i, !c->broken, 0);
			if (!c->broken && s->sent < s->np) { tell(", stream %d: ", i); show((char *)s->in, s->n < 3000 ? s->n : 3000); fail("C01,C02,C03,C22", "an authorized command of client %d is not handed over", i); }
			if (s->end && (c->bio != NULL || c->ssl != NULL)) fail("C05,C25", "connection %d is not closed", i);
			if (!s->end && !c->broken && c->ssl == NULL) fail("C05,C25", "connection %d is closed although nothing is wrong", i);
			if (!s->end && !c->broken) { int found = 0; for (k = 0; k < nvio; k++) if (((ev_io *)vio[k])->fd == c->fd) found = 1; if (!found) fail("C05", "nothing is awaited on connection %d any more", i); }
		}
		if (T > 0) {
			for (k = 0; k < 6; k++) { int j; advance(T + 0.001); ev_invoke_pending(); for (j = 0; j < 40; j++) round_(1); }
			for (i = 0; i < nconn; i++) {
				conn *c = &conns[i]; script *s = &scr[i]; static char kd[4000];
				if (c->bio != NULL) fail("C21,C25", "connection %d is not closed after a timeout", i);
				if (all && c->hs_result == 0 && !c->broken && !s->end) { size_t m = out_pos(c, kd); if (m != s->nexp + 1 || kd[m - 1] != 'B') fail("C21,C05", "a connection that timed out gets no BAIL"); }
			}
		} else {
			for (i = 0; i < nconn; i++) if (conns[i].in_end == END_SILENT) conns[i].in_end = END_NOTIFY;
			for (k = 0; k < 300; k++) round_(1);
			for (i = 0; i < nconn; i++) if (conns[i].bio != NULL) fail("C25", "connection %d is not released after its end", i);
		}
		server_stop(srv);
		for (i = 0; i < nconn; i++) free(conns[i].out);
		if (live != base) fail("C25", "%ld blocks of memory are leaked", live - base);
		nstory = keep; story[keep] = 0;
	}
}
static char conf_text[20000];
static void cput(const char *f, ...) { va_list a; size_t l = strlen(conf_text); va_start(a, f); vsnprintf(conf_text + l, sizeof(conf_text) - l, f, a); va_end(a); }
static void put_list(const char *name, const char **p, int n) { int i; if (!n) return; if (n == 1 && upto(2)) { cput("  %s = \"%s\"\n", name, p[0]); return; } cput("  %s = {", name); for (i = 0; i < n; i++) cput("%s\"%s\"", i ? ", " : "", p[i]); cput("}\n"); }
static void pick(section *s, int max, int prob) {
	int k, j;
	for (k = 0; k < 3; k++) { s->npat[k] = upto(prob) ? 0 : 1 + upto(max); for (j = 0; j < s->npat[k]; j++) s->pat[k][j] = k == 0 ? hosts[upto(sizeof(hosts) / sizeof(*hosts))] : k == 1 ? servs[upto(sizeof(servs) / sizeof(*servs))] : cmds[upto(sizeof(cmds) / sizeof(*cmds))]; }
}
static long imax, iq; static double ito;
static int configuration(void) {	/* -> why it is to be refused, or 0 */
	int i, k, bad = upto(6) == 0 ? 1 + upto(6) : 0, used[8] = { 0 };
	memset(secs, 0, sizeof(secs)); memset(&glob, 0, sizeof(glob)); conf_text[0] = 0;
	nsec = 1 + upto(NSEC - 1); if (bad == 1) nsec = 0;
	if (upto(2)) { strcpy(glob.pw, "global-secret"); glob.haspw = 1; }
	if (bad == 2) glob.haspw = 0;
	pick(&glob, 1, 3);
	imax = bad == 3 ? (upto(2) ? -1 - (long)upto(5) : -4294967295L + (long)upto(1000) - (long)upto(3) * 4294967296L) : (long)upto(100000); iq = bad == 4 ? (upto(2) ? -2 : -4294967290L) : (long)upto(1000); ito = bad == 5 ? -1.5 : upto(100) / 4.0;
	if (glob.haspw) cput("password = \"%s\"\n", glob.pw);
	for (k = 0; k < 3; k++) if (glob.npat[k]) cput("%s = \"%s\"\n", names[k], glob.pat[k][0]);
	cput("max_command_size = %ld\nmax_queue_size = %ld\ntimeout = %f\n", imax, iq, ito);
	for (i = 0; i < nsec; i++) {
		section *s = &secs[i]; int t; do t = upto(8); while (used[t]); used[t] = 1;
		strcpy(s->id, ids[t]); s->haspw = !glob.haspw || upto(2);
		if (upto(8) == 0) { int l = 200 + upto(300); memset(s->pw, 'p', l); s->pw[l] = 0; } else sprintf(s->pw, "pw%u", rnd());
		pick(s, 3, 2);
		if (bad == 2 && i == nsec - 1) s->haspw = 0;
		cput("authorize \"%s\" {\n", s->id); if (s->haspw) cput("  password = \"%s\"\n", s->pw);
		for (k = 0; k < 3; k++) put_list(names[k], s->pat[k], s->npat[k]);
		if (bad == 6 && i == nsec - 1) cput("  %s = \"a(b\"\n", names[upto(3)]);
		cput("}\n");
	}
	return bad;
}
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n, *done;
	n = workers(6); done = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); 
	for (; n < cases; n += 6) {
		int bad, fd, st; pid_t p; char path[64]; FILE *f;
		seed(atoll(argv[1]) * 7919 + n); nstory = 0; story[0] = 0;
		bad = configuration();
		snprintf(path, sizeof(path), "c%d.conf", n); f = fopen(path, "w"); fputs(conf_text, f); fclose(f);
		fflush(stdout);
		if ((p = fork()) == 0) {
			cfg_t *cfg; int i, k;
			fd = open("/dev/null", O_WRONLY); if (bad) dup2(fd, 2);
			log_set(-1, 0);
			{ char *p; tell("configuration:"); for (p = conf_text; *p; p += strlen(p) > 300 ? 300 : strlen(p)) tell("%.300s", p); }
			*done = 0; cfg = conf_parse(path); *done = 1;
			if (bad) _exit(0);
			if (cfg_getint(cfg, "max_command_size") != imax || cfg_getint(cfg, "max_queue_size") != iq || cfg_getfloat(cfg, "timeout") != ito) fail("C22", "a setting has not the configured value");
			histories(25);
			if (cfg_size(cfg, "authorize") != nsec) fail("C22", "%u sections", cfg_size(cfg, "authorize"));
			for (i = 0; i < nsec; i++) {
				cfg_t *a = cfg_gettsec(cfg, "authorize", secs[i].id);
				if (a == NULL) fail("C22", "section `%s' is missing", secs[i].id);
				for (k = 0; k < 3; k++) { int w = secs[i].npat[k] ? secs[i].npat[k] : glob.npat[k]; if ((int)cfg_size(a, names[k]) != w) fail("C22", "section `%s' has %u %s instead of %d", secs[i].id, cfg_size(a, names[k]), names[k], w); }
			}
			cfg_free(cfg);
			fflush(stdout); _exit(0);
		}
		waitpid(p, &st, 0); unlink(path);
		if (WIFSIGNALED(st)) { printf("FAIL killed by signal %d | %s\n", WTERMSIG(st), conf_text); return 1; }
		if (bad && *done) { printf("FAIL[C22] a configuration is accepted although it should not be (%d) | %s\n", bad, conf_text); return 1; }
		if (bad && WEXITSTATUS(st) == 99) return 99;
		if (!bad && WEXITSTATUS(st) != 0) { if (WEXITSTATUS(st) == 1 && !*done) printf("FAIL[C22] a good configuration is refused | %s\n", conf_text); return WEXITSTATUS(st); }
	}
	fflush(stdout); _exit(0);
}
