/* the embedded client code against a simulated server and TLS library; usage: embed_xx SEED CASES */
#include <ctype.h>
#define SIM_SELF
#include "embren.h"
#define __wrap_malloc live_malloc
#include "live.h"
#undef __wrap_malloc
static int failmalloc; static long long now_ms = 1500000000000LL; static long calls;
void *__wrap_malloc(size_t n) { if (failmalloc > 0 && --failmalloc == 0) { tell(" [malloc fails]"); return NULL; } return live_malloc(n); }
#define F(...) fail("C24", __VA_ARGS__)
/* ---- objects ---- */
typedef struct { int alive, host, port, nbio; void *ssl; } B; typedef struct { int alive, ciphers; unsigned long opt; } X;
typedef struct { int alive, conn; B *bio; X *ctx; unsigned int (*cb)(SSL *, const char *, char *, unsigned int, unsigned char *, unsigned int); int client, shut, retry, want, pendw; const void *wbuf; int wlen, dead; } S;
#define NC 4
static struct { nscang_client_t c; int used, ok, registered, odd; char host[60], id[300], key[900], *ciphers; int port;
  char in[9000]; int nin; char req[400000]; int nreq; int phase; int pushn; int moin, pushok, dataok, bad, quit; char data[400000]; int ndata; int silent, closed; S *ssl; } K[NC], *cur;
static int nobj, initfail;
static void step(void) { now_ms += 1; if (++calls > 400000) F("the client never returns"); }
time_t sim_time(time_t *p) { time_t t = now_ms / 1000; step(); if (p) *p = t; return t; }
static struct { int held; } L;
static int lock(int w) { if (upto(8) == 0) return EBUSY; if (!w && upto(8) == 0) return EAGAIN; if (L.held) F("the lock is taken twice"); if (initfail == 9) { initfail = 0; tell(" [no lock]"); return EDEADLK; } L.held = 1; return 0; }
int sim_rdlock(pthread_rwlock_t *l) { step(); return lock(0); } int sim_wrlock(pthread_rwlock_t *l) { step(); return lock(1); }
int sim_unlock(pthread_rwlock_t *l) { if (!L.held) F("a lock is released that is not held"); L.held = 0; return 0; }
int sim_poll(struct pollfd *p, nfds_t n, int t) { int d; step(); if (t < 0) F("the client waits without limit"); if (n != 1 || p->fd != 77) F("poll() on a wrong descriptor"); d = upto(4) ? (int)upto(t + 1) : t; now_ms += d; p->revents = d == t ? 0 : p->events; return p->revents != 0; }
/* ---- the TLS library ---- */
const SSL_METHOD *TLS_client_method(void) { return (void *)1; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { X *x; if (initfail == 1) return NULL; x = __real_malloc(sizeof(*x)); memset(x, 0, sizeof(*x)); x->alive = 1; nobj++; return (SSL_CTX *)x; }
void SSL_CTX_free(SSL_CTX *c) { X *x = (X *)c; if (c == NULL) return; if (!x->alive) F("the TLS context is released twice"); x->alive = 0; nobj--; __real_free(x); }
int SSL_CTX_set_cipher_list(SSL_CTX *c, const char *s) { if (cur->ciphers == NULL || strcmp(s, cur->ciphers)) F("wrong ciphers"); ((X *)c)->ciphers = 1; return initfail == 2 ? 0 : 1; }
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { ((X *)c)->opt |= o; return 0; }
const BIO_METHOD *BIO_s_connect(void) { return (void *)2; }
BIO *BIO_new(const BIO_METHOD *m) { B *b; if (initfail == 3) return NULL; b = __real_malloc(sizeof(*b)); memset(b, 0, sizeof(*b)); b->alive = 1; nobj++; return (BIO *)b; }
int BIO_free(BIO *p) { B *b = (B *)p; if (b == NULL) return 0; if (!b->alive) F("a BIO is released twice"); b->alive = 0; nobj--; __real_free(b); return 1; }
void BIO_free_all(BIO *b) { BIO_free(b); }
SSL *SSL_new(SSL_CTX *c) { S *s; if (initfail == 4) { nobj--; return NULL; } s = __real_malloc(sizeof(*s)); memset(s, 0, sizeof(*s)); s->alive = 1; s->conn = cur - K; s->ctx = (X *)c; cur->ssl = s; nobj++; return (SSL *)s; }
static S *chk(const SSL *p, const char *f) { S *s = (S *)p; int i; if (s == NULL) F("%s on a missing connection", f); for (i = 0; i < NC; i++) if (K[i].ssl == s) return s; F("%s on a released connection", f); return NULL; }
void SSL_set_bio(SSL *p, BIO *r, BIO *w) { S *s = chk(p, "SSL_set_bio()"); if (r != w || r == NULL) F("the BIO is missing"); s->bio = (B *)r; }
void SSL_set_connect_state(SSL *p) { chk(p, "SSL_set_connect_state()")->client = 1; }
void SSL_set_psk_client_callback(SSL *p, SSL_psk_client_cb_func f) { chk(p, "SSL_set_psk_client_callback()")->cb = f; }
void SSL_free(SSL *p) { S *s; if (p == NULL) return; s = chk(p, "SSL_free()"); if (s->bio) BIO_free((BIO *)s->bio); K[s->conn].ssl = NULL; s->alive = 0; nobj--; __real_free(s); }
int SSL_want(const SSL *p) { return chk(p, "SSL_want()")->want; }
int BIO_test_flags(const BIO *b, int f) { S *s = NULL; int i; for (i = 0; i < NC; i++) if (K[i].ssl && K[i].ssl->bio == (B *)b) s = K[i].ssl; if (s == NULL) F("BIO_test_flags() on a released BIO"); return s->retry ? f & BIO_FLAGS_SHOULD_RETRY : 0; }
long BIO_ctrl(BIO *p, int c, long n, void *a) {
	B *b = (B *)p; char w[40];
	if (b == NULL || !b->alive) F("BIO_ctrl() on a missing BIO");
	switch (c) {
	case BIO_C_SET_CONNECT: if (n == 0) { if (strcmp(a, cur->host)) F("the client connects to `%s' instead of `%s'", (char *)a, cur->host); b->host = 1; } if (n == 1) { sprintf(w, "%d", cur->port); if (strcmp(a, w)) F("the client connects to port `%s' instead of %s", (char *)a, w); b->port = 1; } return 1;
	case BIO_C_SET_NBIO: b->nbio = n; return 1;
	case BIO_C_GET_FD: if (a) *(int *)a = 77; return 77;
	}
	return 1;
}
long BIO_int_ctrl(BIO *p, int c, long n, int i) { return BIO_ctrl(p, c, n, &i); }
unsigned long ERR_peek_error(void) { return 1; } unsigned long ERR_peek_last_error(void) { return 1; } unsigned long ERR_get_error(void) { return 0; } void ERR_clear_error(void) {}
const char *ERR_reason_error_string(unsigned long e) { return upto(2) ? "the reason" : NULL; }
static void handshake(S *s) {
	int mi = 1 + upto(4) * upto(100), mp = 1 + upto(4) * upto(300), l, r; char *id = __real_malloc(mi), *wi = cur->id, *wk = cur->key; unsigned char *k = __real_malloc(mp);
	if (s->cb == NULL || !s->client || !s->bio->host || !s->bio->port || !s->bio->nbio) F("the connection is used before it is set up");
	if ((cur->ciphers != NULL) != s->ctx->ciphers) F("the ciphers are not configured");
	memset(id, 'x', mi); memset(k, 'x', mp);
	r = s->cb((SSL *)s, NULL, id, mi, k, mp);
	if (strnlen(id, mi) >= (size_t)mi) F("the identity is not terminated");
	l = strlen(wi); if (l > mi - 1) l = mi - 1; if ((int)strlen(id) != l || memcmp(id, wi, l)) F("the identity presented is `%s' instead of `%.*s'", id, l, wi);
	l = strlen(wk); if (r > mp) F("the key is longer than the buffer"); if (r != l && !(r < l && (r == mp - 1 || r == mp))) F("the key has %d bytes instead of %d (%d)", r, l, mp); if (memcmp(k, wk, r)) F("a wrong key is presented");
	__real_free(id); __real_free(k);
}
static int rate;
static int trouble(S *s, int want) {
	if (s->dead || cur->closed) { s->retry = 0; s->dead = 1; return 1; }
	if (rate && upto(rate) == 0) { s->retry = 0; s->dead = 1; cur->odd = cur->bad = 1; tell(" [error]"); return 1; }
	if (upto(5) == 0) { s->retry = 1; s->want = want; return 1; }
	return 0;
}
static void reply(const char *s) { int n = strlen(s); memcpy(cur->in + cur->nin, s, n); cur->nin += n; tell(" <"); show(s, n); }
static int strange;
static void answer(int what) {	/* 0 greeting, 1 announcement, 2 data */
	char b[3000]; const char *e = upto(2) ? "\r\n" : "\n"; int i;
	if (strange && upto(strange) == 0) {
		cur->bad = 1;
		switch (upto(9)) {
		case 0: sprintf(b, "FAIL%s%s", upto(3) ? " because" : "", e); break;
		case 1: sprintf(b, "BAIL%s%s", upto(3) ? " because %s%n" : "", e); break;
		case 2: strcpy(b, e); break;
		case 3: sprintf(b, "%s%s", what ? upto(3) ? "MOIN 1" : "MOIN" : upto(2) ? "MOIN 2" : "OKAY", e); break;
		case 4: for (i = 0; i < 1020 + (int)upto(10); i++) b[i] = upto(3) ? 'z' : "%sn"[upto(3)]; strcpy(b + i, e); if (upto(3) == 0) memcpy(b, upto(2) ? "FAIL " : "BAIL ", 5); if (i + strlen(e) > 1024) cur->odd = 1; break;
		case 5: cur->silent = 1; cur->odd = 1; tell(" <silence"); return;
		case 6: cur->closed = 1; cur->odd = 1; tell(" <closed"); return;
		case 7: strcpy(b, "OK"); cur->odd = 1; break;
		case 8: sprintf(b, "nonsense %u%s", rnd(), e); break;
		}
		reply(b); return;
	}
	if (what == 0) cur->moin = 1; if (what == 1) cur->pushok = 1; if (what == 2) cur->dataok = 1;
	sprintf(b, "%s%s", what == 0 ? "MOIN 1" : upto(3) ? "OKAY" : "OKAY fine", e); reply(b);
}
static void request(void) {
	char *e; int l;
	for (;;) {
		if (cur->phase == 2) { if (cur->nreq < cur->pushn) return; if (cur->nreq > cur->pushn) F("%d bytes are sent instead of the announced %d", cur->nreq, cur->pushn); memcpy(cur->data, cur->req, cur->nreq); cur->ndata = cur->nreq; cur->nreq = 0; cur->phase = 1; answer(2); return; }
		if ((e = memchr(cur->req, '\n', cur->nreq)) == NULL) { if (cur->nreq) F("an incomplete line is sent"); return; }
		l = e + 1 - cur->req; *e = 0; if (l >= 2 && e[-1] == '\r') e[-1] = 0;
		tell(" >%s", cur->req);
		if (strncmp(cur->req, "BAIL ", 5) == 0) { if (!cur->bad) F("the client bails out although nothing is wrong"); cur->closed = 1; }
		else if (strcmp(cur->req, "QUIT") == 0) { if (cur->phase != 1) F("QUIT is sent before the greeting"); cur->quit = cur->closed = 1; }
		else if (cur->phase == 0) { if (strncmp(cur->req, "MOIN 1 ", 7) || cur->req[7] == 0 || strchr(cur->req + 7, ' ')) F("the greeting is `%s'", cur->req); answer(0); if (cur->moin) cur->phase = 1; }
		else if (strncmp(cur->req, "PUSH ", 5) == 0) { char *p; if (!cur->moin && !cur->odd) F("PUSH is sent although the greeting failed"); cur->pushn = strtol(cur->req + 5, &p, 10); if (*p || cur->pushn <= 0 || !isdigit((unsigned char)cur->req[5])) F("the announcement is `%s'", cur->req); cur->pushok = 0; cur->phase = 2; answer(1); if (!cur->pushok) cur->phase = 1; }
		else F("the request is `%s'", cur->req);
		memmove(cur->req, cur->req + l, cur->nreq - l); cur->nreq -= l;
		if (cur->nreq && cur->nin) F("the next request is sent before the answer arrived");
	}
}
static int bailing; /* the write that did not finish is one that need not be repeated */
int SSL_write(SSL *p, const void *buf, int n) {
	S *s = chk(p, "SSL_write()"); step(); cur = &K[s->conn];
	if (L.held) F("the lock is held during I/O");
	if (s->pendw && (s->wbuf != buf || s->wlen != n) && bailing) cur->odd = 1;
	if (s->pendw && (s->wbuf != buf || s->wlen != n) && !cur->odd) F("a write is not repeated with the same data");
	if (s->shut == 0) { handshake(s); s->shut = 1; }
	if (n <= 0) F("SSL_write() of %d bytes", n);
	if (cur->silent) { s->retry = 1; s->want = SSL_WRITING; s->pendw = 1; s->wbuf = buf; s->wlen = n; cur->odd = 1; return -1; }
	if (trouble(s, upto(3) ? SSL_WRITING : SSL_READING)) { s->pendw = s->retry; s->wbuf = buf; s->wlen = n; bailing = n >= 4 && (memcmp(buf, "BAIL", 4) == 0 || memcmp(buf, "QUIT", 4) == 0); return -1; }
	s->pendw = 0;
	if (cur->nreq + n > (int)sizeof(cur->req)) exit(77);
	memcpy(cur->req + cur->nreq, buf, n); cur->nreq += n;
	if (!cur->odd) request(); else { cur->nreq = 0; cur->silent = 1; }
	return n;
}
int SSL_read(SSL *p, void *buf, int n) {
	S *s = chk(p, "SSL_read()"); int k; step(); cur = &K[s->conn];
	if (n <= 0) F("SSL_read() of %d bytes", n);
	if (cur->nin == 0 && cur->closed) { s->retry = 0; s->dead = 1; return 0; }
	if (cur->nin == 0) { s->retry = 1; s->want = SSL_READING; if (!cur->silent && calls < 300000 && !cur->odd && cur->nreq == 0) { } return -1; }
	if (trouble(s, SSL_READING)) return -1;
	k = upto(3) ? cur->nin : 1 + upto(cur->nin); if (k > n) k = n;
	memcpy(buf, cur->in, k); memmove(cur->in, cur->in + k, cur->nin - k); cur->nin -= k; return k;
}
int SSL_shutdown(SSL *p) { S *s = chk(p, "SSL_shutdown()"); step(); s->retry = upto(2); s->want = SSL_READING; return (int)upto(3) - 1; }
int SSL_clear(SSL *p) { S *s = chk(p, "SSL_clear()"); cur = &K[s->conn]; s->dead = s->pendw = s->shut = 0; cur->phase = cur->nin = cur->nreq = cur->closed = cur->silent = cur->moin = cur->odd = 0; return 1; }
/* ---- operations ---- */
static char big[6][200000];
static char *text(int i, int nl) { int l = upto(4) ? upto(30) : upto(3) ? upto(600) : upto(60000), k; for (k = 0; k < l; k++) { int r = upto(30); big[i][k] = r == 0 ? '%' : r == 1 ? ';' : r == 2 ? '\\' : r == 3 ? (char)(128 + upto(128)) : r == 4 && nl ? '\n' : r == 5 ? 's' : r == 6 ? 'n' : 'a' + upto(26); } big[i][l] = 0; return big[i]; }
static void open_(void) {
	int i, l, r;
	memset(cur, 0, sizeof(*cur)); cur->used = 1;
	sprintf(cur->host, "host%u", rnd() % 1000); cur->port = upto(4) ? upto(65536) : upto(100);
	l = upto(4) ? upto(30) : upto(290); for (i = 0; i < l; i++) cur->id[i] = 'a' + upto(26); l = upto(4) ? upto(60) : upto(890); for (i = 0; i < l; i++) cur->key[i] = 'A' + upto(26);
	cur->ciphers = upto(2) ? "CIPHERS" : NULL;
	initfail = upto(3) ? 0 : 1 + upto(10); if (initfail == 2 && !cur->ciphers) initfail = 0; if (initfail > 9 || (!LANG_PY && initfail == 9)) initfail = 0; failmalloc = initfail == 5 ? 1 : initfail == 6 ? 2 : 0; if (initfail > 6 && initfail < 9) initfail = 0;
	memset(&cur->c, 0x55, sizeof(cur->c));
	tell("; init %d (failure %d)", (int)(cur - K), initfail);
	{ int f = initfail; r = nscang_client_init(&cur->c, cur->host, cur->port, cur->ciphers, cur->id, cur->key); initfail = failmalloc = 0;
	  if (!f && !r) F("the initialization fails although nothing is wrong"); if (f && r) F("the initialization succeeds although something failed"); if (!r && cur->c._errno == 0) F("no error is reported"); }
	if (L.held) F("the lock stays held");
	cur->ok = r;
}
static void close_(void) {
	tell("; free %d", (int)(cur - K)); calls = 0; nscang_client_free(&cur->c); if (cur->ssl) F("the TLS object is not released"); if (L.held) F("the lock stays held");
	if (upto(3) == 0) { tell("; free again"); nscang_client_free(&cur->c); }
	cur->used = 0;
}
static void push(void) {
	long long t0 = now_ms, t; int timeout = upto(4) ? upto(20) : 0, r, cmd = !LANG_PY && upto(2), status = upto(5) ? upto(4) : (int)rnd(), was, ts = 0; char *h = text(0, 0), *s = upto(2) ? text(1, 0) : NULL, *m = text(2, 1), w[260000], *q; int wasodd = cur->odd; size_t n;
	calls = 0; cur->bad = cur->quit = cur->pushok = cur->dataok = cur->ndata = 0; was = cur->c.state;
	rate = upto(3) ? 0 : 40; strange = upto(3) ? 0 : 4; failmalloc = upto(30) ? 0 : 1 + (!LANG_PY && !cmd && upto(2));
	tell("; push %d (timeout %d)", (int)(cur - K), timeout);
	if (cmd) {
		switch (upto(5)) { case 0: sprintf(w, "[%u] ", rnd()); ts = 1; break; case 1: strcpy(w, upto(2) ? "[x] " : upto(2) ? "[12 3] " : "[-5] "); ts = -1; break; default: *w = 0; }
		strcat(w, m); if (ts == 0 && *w == '[') *w = '{'; n = strlen(w); { char *x = __real_malloc(n + 1); int lm = failmalloc; memcpy(x, w, n + 1); tell(" command "); show(x, n > 100 ? 100 : n); r = nscang_client_send_command(&cur->c, x, timeout); __real_free(x); }
		if (ts == -1 && r) F("a malformed time stamp is accepted"); if (ts == -1 && cur->ndata) F("a command with a malformed time stamp is sent");
		if (n == 0) strcpy(w, "");
	} else {
		tell(" host "); show(h, strlen(h) > 60 ? 60 : strlen(h)); if (s) { tell(" service "); show(s, strlen(s) > 60 ? 60 : strlen(s)); }
		if (s) sprintf(w, "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s", h, s, status, m); else sprintf(w, "PROCESS_HOST_CHECK_RESULT;%s;%d;%s", h, status, m);
		r = nscang_client_send_push(&cur->c, h, s, status, m, timeout);
	}
	tell(" -> %d", r); { int fm = failmalloc; failmalloc = 0; if (fm == 0 && 0) ; }
	if (L.held) F("the lock stays held");
	if (now_ms - t0 > 8000LL * (timeout + 2)) F("the client waits %lld ms although the limit is %d s", now_ms - t0, timeout);
	if (!r && cur->c._errno == 0) F("no error is reported");
	if (cur->ndata) {
		char *d = cur->data; int nd = cur->ndata, ok = 0, lt = strlen(w);
		if (!cur->pushok) F("the command is sent although its announcement was refused");
		if (!ts) { unsigned long v; char *e; if (*d != '[') F("the command has no time stamp"); v = strtoul(d + 1, &e, 10); if (e[0] != ']' || e[1] != ' ' || (long long)v < t0 / 1000 || (long long)v > now_ms / 1000) F("the time stamp is wrong: %.30s", d); nd -= e + 2 - d; d = e + 2; }
		if (nd == lt + 1 && memcmp(d, w, lt) == 0 && d[lt] == '\n' && (LANG_PY || lt == 0 || w[lt - 1] != '\n')) ok = 1;
		if (!LANG_PY && lt && w[lt - 1] == '\n' && nd == lt && memcmp(d, w, lt) == 0) ok = 1;
		if (!ok) { tell(" sent: "); show(d, nd > 300 ? 300 : nd); tell(" (%d)", nd); F("the command sent is not the one given"); }
	}
	if (!wasodd) {
		if (r && !(cur->moin && cur->pushok && cur->dataok && !cur->bad)) F("success is reported although the server did not accept the command");
		if (r && cur->ndata == 0) F("success is reported although nothing was sent");
		if (!r && cur->moin && cur->pushok && cur->dataok && !cur->bad && !cur->odd && timeout > 8) F("an error is reported although the server accepted the command");
		if (!r && (cur->dataok || timeout <= 8)) cur->odd = 1;
	}
	if (cur->c._errno == 2) cur->odd = 1;
	if (rate) rate = 0; strange = 0;
}
static void errtext(void) { int n = upto(3) ? 1 + upto(1200) : 1 + upto(30); char *b = __real_malloc(n); if (upto(3) == 0) cur->c._errno = upto(12); if (upto(6) == 0) cur->c._errno = 100 + upto(7); memset(b, 'x', n); if (nscang_client_errstr(&cur->c, b, n) != b || strnlen(b, n) >= (size_t)n) F("the error text is not terminated"); if (strnlen(cur->c.errstr, sizeof(cur->c.errstr)) >= sizeof(cur->c.errstr)) F("the stored error text is not terminated"); __real_free(b); }
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n, i, k;
	for (n = workers(6); n < cases; n += 6) {
		seed(atoll(argv[1]) * 900001 + n); nstory = 0; story[0] = 0; tell("case %d", n); calls = 0; live = 0; memset(K, 0, sizeof(K)); nobj = 0; L.held = 0; initfail = failmalloc = 0;
		for (k = 2 + upto(14); k > 0; k--) {
			cur = &K[upto(NC)]; calls = 0; rate = strange = 0;
			if (!cur->used) open_();
			else if (!cur->ok) { if (upto(2)) errtext(); else close_(); }
			else switch (upto(8)) {
			case 0: close_(); break;
			case 1: tell("; disconnect"); nscang_client_disconnect(&cur->c); break;
			case 2: errtext(); break;
			case 3: tell("; moin"); { int r, t = 20; cur->bad = 0; r = nscang_client_send_moin(&cur->c, t); if (!cur->odd && !r != !cur->moin) F("the greeting %s", r ? "succeeds although it failed" : "fails although nothing is wrong"); if (cur->c._errno == 2 && !r) cur->odd = 1; } break;
			case 4: tell("; quit"); { int moin = cur->moin, r = nscang_client_send_quit(&cur->c); if (r && !moin && !cur->odd) F("QUIT is sent before the greeting"); } break;
			default: push();
			}
			if (cur->used && cur->ssl && cur->ssl->pendw) cur->odd = 1;
		}
		for (i = 0; i < NC; i++) if (K[i].used) { cur = &K[i]; calls = 0; close_(); }
		if (nobj) F("%d TLS objects are not released", nobj);
		if (live) F("%ld allocated blocks are not released", live);
	}
	fflush(stdout); _exit(0);
}
