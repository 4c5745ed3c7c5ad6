/* the TLS module (server side) against simulated peers; usage: tls SEED CASES */
#include "h.h"
#include <sys/types.h>
#include "vev.h"
#include "vssl.h"
#include "tls.h"
#define live ((long)__sanitizer_get_current_allocated_bytes())
size_t __sanitizer_get_current_allocated_bytes(void);
#define SMAX 60000
static unsigned char streams[8][SMAX];
static unsigned char expd[8][400000];
typedef struct { conn *c; tls_state *tls; size_t rpos; int reading; size_t want, exp_len; int done, timeouts, shut, alive, in_app; double armed; } app;
static app apps[8];
static double T; static int mode_drain;
static void next(app *);
static app *app_of(tls_state *t) { return t->data; }
static struct { void *p; size_t end; app *a; } owned[4000]; static int nowned, in_write;
static void my_free(void *p) {
	int i;
	for (i = nowned - 1; i >= 0; i--) if (owned[i].p == p) break;
	if (i < 0) fail("C12,C25", "a submitted buffer is released twice (or one that was not submitted)");
	if (!in_write && owned[i].a->c->out_len < owned[i].end && owned[i].a->c->ssl != NULL && !owned[i].a->c->broken)
		fail("C12", "a submitted buffer is released before its last use");
	owned[i] = owned[--nowned];
	free(p);
}
static void sub(app *a, const void *p, size_t n) { if (a->exp_len + n <= sizeof(expd[0])) memcpy(expd[a - apps] + a->exp_len, p, n); a->exp_len += n; }
static void drained(tls_state *t) { app *a = app_of(t); if (a->c->out_len != a->exp_len) fail("C12", "the drained-handler is called after %zu of %zu bytes", a->c->out_len, a->exp_len); }
static void output(app *a) {
	int k = upto(4);
	if (a->exp_len > 300000) return;
	while (k-- > 0) {
		static char b[30000]; size_t n = 1 + upto(upto(3) ? 50 : upto(3) ? 5000 : 20000), i;
		for (i = 0; i < n; i++) b[i] = 'A' + (a->exp_len + i) % 23 + upto(3);
		switch (upto(3)) {
		case 0: tell(", write %zu (copy)", n); sub(a, b, n); tls_write(a->tls, b, n, NULL); break;
		case 1: { char *p = malloc(n); memcpy(p, b, n); tell(", write %zu (owned)", n); sub(a, b, n); owned[nowned].p = p; owned[nowned].end = a->exp_len; owned[nowned++].a = a; in_write++; tls_write(a->tls, p, n, upto(2) ? my_free : (nowned--, free)); in_write--; break; }
		default: b[n - 1] = 0; sub(a, b, n - 1); sub(a, "\r\n", 2); tell(", write_line %zu", n - 1); tls_write_line(a->tls, b);
		}
	}
	if (mode_drain && upto(3) == 0) tls_on_drain(a->tls, drained);
}
static void stop(app *a) { if (a->done) fail("C25", "a handler is called after the connection was stopped"); a->done = 1; }
static void on_line(tls_state *t, char *l) {
	app *a = app_of(t); unsigned char *s = a->c->in + a->rpos, *e = memchr(s, '\n', a->c->in_len - a->rpos); size_t n, m;
	if (a->done || !a->reading) fail("C11,C25", "a line is delivered although none is expected");
	if (e == NULL) fail("C11", "a line is delivered that was not sent completely");
	n = e - s; m = n > 0 && s[n - 1] == '\r' ? n - 1 : n;
	if (memcmp(l, s, m) != 0 || l[m] != 0) fail("C11", "the line delivered is not the one that was sent (%zu bytes at %zu)", m, a->rpos);
	if (a->rpos + n + 1 > a->c->in_pos) fail("C11", "a line is delivered that was not received");
	a->rpos += n + 1; a->reading = 0; free(l);
	tell(", line %zu", n); output(a); next(a);
}
static void on_bytes(tls_state *t, char *d) {
	app *a = app_of(t);
	if (a->done || !a->reading) fail("C11,C25", "data is delivered although none is expected");
	if (a->rpos + a->want > a->c->in_pos) fail("C11", "more data is delivered than received");
	if (memcmp(d, a->c->in + a->rpos, a->want) != 0) fail("C11", "the %zu bytes of data delivered are not those that were sent at %zu", a->want, a->rpos);
	if (d[a->want] != 0) fail("C11", "the data delivered is not NUL-terminated");
	a->rpos += a->want; a->reading = 0; free(d);
	tell(", data %zu", a->want); output(a); next(a);
}
static void shut(app *a) { tell(", shutdown"); a->shut = 1; tls_shutdown(a->tls); stop(a); }
static void next(app *a) {
	if (upto(15) == 0) { shut(a); return; }
	a->reading = 1 + (upto(3) == 0);
	if (a->reading == 1) { tell(", read line"); tls_read_line(a->tls, on_line); }
	else { a->want = 1 + upto(upto(3) ? 200 : 9000); tell(", read %zu", a->want); tls_read(a->tls, on_bytes, a->want); }
}
static void on_error(tls_state *t) { app *a = app_of(t); tell(", error"); if (a->shut) fail("C25", "the error handler is called during the shutdown"); stop(a); }
static void on_timeout(tls_state *t) {
	app *a = app_of(t);
	tell(", timeout");
	if (T <= 0) fail("C21", "a connection times out although there is no timeout");
	if (vnow - a->armed < T - 1e-6 || vnow - a->c->progress < T - 1e-6) fail("C21", "a connection times out %f seconds after its last activity (timeout %f)", vnow - (a->armed > a->c->progress ? a->armed : a->c->progress), T);
	a->timeouts++; a->armed = vnow;
	sub(a, "BAIL x\r\n", 8); tls_write(t, "BAIL ", 5, NULL); tls_write_line(t, "x"); shut(a);
}
static void on_long(tls_state *t) {
	app *a = app_of(t); size_t n = a->c->in_pos - a->rpos;
	tell(", too long");
	if (memchr(a->c->in + a->rpos, '\n', n) != NULL) fail("C06,C11", "a complete line is refused as too long");
	if (n <= 1920 - 1) fail("C06", "a line of %zu bytes so far is refused as too long", n);
	sub(a, "LONG\r\n", 6); tls_write_line(t, "LONG"); shut(a);
}
static void on_connect(tls_state *t) {
	int i; app *a;
	for (i = 0; i < nconn; i++) if (conns[i].fd == t->fd) break;
	a = &apps[i]; a->c = &conns[i]; a->tls = t; t->data = a; a->armed = vnow; a->alive = 1;
	if (conns[i].idkey == NULL || strcmp(t->id, conns[i].idkey) != 0) fail("C04,C01", "the connection is filed under `%s', but `%s' was authenticated", t->id, conns[i].idkey);
	tell(", connected %d at %.1f", i, vnow - 1000000);
	tls_on_timeout(t, on_timeout); tls_on_error(t, on_error); tls_on_line_too_long(t, on_long);
	output(a); next(a);
}
static unsigned int psk(SSL *s, const char *id, unsigned char *k, unsigned int n) {
	conn *c = s->c;
	free(sim_SSL_get_ex_data(s, 0)); sim_SSL_set_ex_data(s, 0, strdup(id));
	c->idkey = (char *)id; memset(k, 'k', n > 9 ? 9 : n); return n > 9 ? 9 : n;
}
static void ssl_read(conn *c, int k) {
	app *a = &apps[c - conns];
	if (a->alive && a->reading == 1 && memchr(c->in + a->rpos, '\n', c->in_pos - a->rpos) == NULL && c->in_pos - a->rpos > 2048)
		fail("C06", "%zu bytes of an unterminated line are read", c->in_pos - a->rpos);
}
static void ssl_shutdown(conn *c) {
	app *a = &apps[c - conns];
	if (!a->alive) return;
	if (c->out_len != a->exp_len) fail("C12", "the connection is shut down after %zu of %zu bytes were transmitted", c->out_len, a->exp_len);
}
static void ssl_write(conn *c, int k) {
	app *a = &apps[c - conns];
	if (c->out_len > a->exp_len || memcmp(c->out, expd[a - apps], c->out_len) != 0) fail("C12", "the bytes handed to TLS are not those submitted (after %zu of %zu)", c->out_len, a->exp_len);
}
static void before(ev_watcher *w, int ev) {
	int i;
	for (i = 0; i < nvio; i++) if (vio[i] == w) break;
	if (ev & (EV_READ | EV_WRITE)) { conn *c = of_fd(((ev_io *)w)->fd); if (c) c->any_act = vnow; }
}
static void end_check(void) {
	int i;
	for (i = 0; i < nconn; i++) {
		conn *c = &conns[i]; app *a = &apps[i];
		/* an upper bound for the end of idle connections */
		if (T > 0 && c->bio != NULL && c->bios > 0) {
			double idle = vnow - (c->any_act > a->armed ? c->any_act : a->armed);
			if (idle > T + 1e-3) fail("C21", "connection %d, on which nothing happened for %f seconds, is still open (timeout %f)", i, idle, T);
		}
	}
}
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n;
	for (n = 0; n < cases; n++) {
		long base; int i, k, steps; tls_server_state *srv;
		seed(atoll(argv[1]) * 7919 + n); nstory = 0; story[0] = 0;
		memset(conns, 0, sizeof(conns)); memset(apps, 0, sizeof(apps)); vreset(); nowned = 0; next_conn = 0; accept_bios = ctxs = 0;
		nconn = 1 + upto(3); smooth = upto(4) == 0; mode_drain = upto(2);
		T = upto(3) ? 1 + upto(60) : 0;
		vnow = ev_rt_now = 1000000;
		tell("case %d: timeout %.0f", n, T);
		for (i = 0; i < nconn; i++) {
			conn *c = &conns[i]; size_t j, len = upto(4) ? upto(3000) : upto(SMAX); int dens = 1 << upto(13);
			c->fd = 100 + i; c->in = streams[i]; c->in_len = len; c->in_end = upto(5);
			for (j = 0; j < len; j++) { unsigned r = upto(dens > 60 ? dens : 60); c->in[j] = r == 0 ? '\n' : r == 1 ? '\r' : r == 2 ? 0 : 'a' + r % 26; if (r == 0 && j > 0 && upto(2)) c->in[j - 1] = '\r'; }
			c->hs_left = upto(4); c->hs_result = upto(6) ? 0 : upto(4) ? 1 + upto(4) : 77; if (c->hs_result == 77) { }
			c->ids[0] = "first"; c->ids[1] = upto(3) ? NULL : "second";
			if (upto(12) == 0) { c->quiet = 2; }
			c->any_act = vnow; apps[i].c = c;
		}
		before_cb = before; on_ssl_read = ssl_read; on_ssl_shutdown = ssl_shutdown; on_ssl_write = ssl_write;
		base = live;
		srv = tls_server_start("x", "PSK", T, on_connect, psk); srv->data = NULL;
		steps = 50 + upto(300);
		for (k = 0; k < steps; k++) {
			for (i = 0; i < nconn; i++) if (conns[i].bios && !apps[i].armed) { apps[i].armed = vnow; }
			round_(1);
			for (i = 0; i < nconn; i++) if (conns[i].bios && !apps[i].armed) { apps[i].armed = vnow; conns[i].any_act = vnow; }
			if (upto(40) == 0) { i = upto(nconn); if (conns[i].quiet == 0) { conns[i].quiet = 1; tell(", peer %d is silent", i); } else if (conns[i].quiet == 1) conns[i].quiet = 0; }
			if (upto(6) == 0) {
				double d = T > 0 && upto(2) ? T * upto(12) / 10 : upto(20) / 10.0, m = next_timer() - vnow;
				if (upto(2) && m > 0 && m < 1e9) d = m;
				while (d > 0) { double s = d; m = next_timer() - vnow; if (m >= 0 && m < s) s = m; tell(", +%.1f s", s); advance(s); ev_invoke_pending(); d -= s; if (s <= 0) break; end_check(); }
			}
			end_check();
		}
		/* the end: the peers close their connections; what is still open then times out */
		smooth = 1;
		for (i = 0; i < nconn; i++) { if (conns[i].quiet != 2) { conns[i].quiet = 0; if (conns[i].in_end == END_SILENT) conns[i].in_end = END_NOTIFY; } }
		for (k = 0; k < 4000; k++) { int open = 0; for (i = 0; i < nconn; i++) open += conns[i].bio != NULL; if (!open && next_conn == nconn) break; round_(1); }
		if (T > 0) for (k = 0; k < 6; k++) { advance(T + 0.001); ev_invoke_pending(); for (i = 0; i < 30; i++) round_(1); end_check(); }
		for (i = 0; i < nconn; i++) {
			conn *c = &conns[i];
			if (next_conn <= i || (T == 0 && c->quiet)) { if (T == 0 && c->quiet && c->bio) goto skip; continue; }
			if (c->bio != NULL || c->ssl != NULL) fail("C25,C21", "connection %d is not released (peer ended with %d)", i, c->in_end);
		}
		for (i = 0; i < nvio; i++) if (((ev_io *)vio[i])->fd != 50) fail("C25", "a watcher of a closed connection is still registered");
		if (nvtm > 0) fail("C25", "a timer of a closed connection is still registered");
		ev_io_stop(&srv->accept_watcher);
		tls_server_stop(srv);
		for (i = 0; i < nconn; i++) free(conns[i].out);
		if (live != base) fail("C25", "%ld bytes of memory are leaked", live - base);
		continue;
skip:		vreset();
	}
	printf("%d random histories\n", cases);
	return 0;
}
