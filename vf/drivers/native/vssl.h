/* simulated OpenSSL: connections with scripted peers */
#define SIM_SELF
#include "simren.h"
#include <errno.h>
#include <arpa/inet.h>
#include <netinet/in.h>
enum { END_SILENT, END_NOTIFY, END_RESET, END_EOF, END_ERROR };
typedef struct conn {
	int used, fd; BIO *bio; SSL *ssl; int bios, ssls;		/* how often allocated; released again when the pointer is NULL */
	unsigned char *in; size_t in_len, in_pos, in_avail; int in_end;
	unsigned char *out; size_t out_len, out_cap;
	const void *wptr; int wlen;
	int hs_left, hs_result;			/* 0 ok, else the END_ with which it fails */
	const char *ids[3]; unsigned char key[600]; int keylen; char *idkey;
	int shut_calls, notified, broken, quiet; size_t shut_len;
	double any_act, progress;
	void *user;
} conn;
struct bio_st { conn *c; int accept, retry; };
struct ssl_st { conn *c; BIO *bio; void *ex; int err; };
struct ssl_ctx_st { int live; };
static conn conns[8]; static int nconn, next_conn;	/* accepted so far, next to be accepted */
static struct ssl_ctx_st the_ctx; static int ctxs, accept_bios;
static SSL_psk_server_cb_func psk_server; static SSL_psk_client_cb_func psk_client;
static BIO *accept_bio;
static int smooth;			/* no spurious results */
static void (*on_ssl_read)(conn *, int), (*on_ssl_shutdown)(conn *), (*on_ssl_write)(conn *, int);
static conn *of_fd(int fd) { int i; for (i = 0; i < nconn; i++) if (conns[i].fd == fd) return &conns[i]; return NULL; }
static BIO *mkbio(conn *c) { BIO *b = calloc(1, sizeof(*b)); b->c = c; c->bio = b; c->bios++; return b; }
static void progress(conn *c) { c->progress = vnow; vinv = 0; }
BIO *sim_BIO_new_accept(const char *h) { accept_bio = calloc(1, sizeof(BIO)); accept_bio->accept = 1; accept_bios++; return accept_bio; }
BIO *sim_BIO_new(const BIO_METHOD *m) { return sim_BIO_new_accept(""); }
const BIO_METHOD *sim_BIO_s_accept(void) { return (const BIO_METHOD *)"accept"; }
BIO *sim_BIO_new_connect(const char *h) { conn *c = &conns[next_conn++]; return mkbio(c); }

static BIO *popped;
BIO *sim_BIO_pop(BIO *b) { BIO *p = popped; popped = NULL; return p; }
long sim_BIO_ctrl(BIO *b, int cmd, long l, void *p) {
	switch (cmd) {
	case BIO_C_DO_STATE_MACHINE:
		if (!b->accept) return 1;
		if (!b->retry) { b->retry = 1; return 1; }			/* bound */
		if (next_conn < nconn) { popped = mkbio(&conns[next_conn]); next_conn++; return 1; }
		return -1;
	case BIO_C_GET_FD: { int fd = b->accept ? 50 : b->c->fd; if (p) *(int *)p = fd; return fd; }
	}
	return 1;
}
long sim_BIO_int_ctrl(BIO *b, int cmd, long l, int i) { return 1; }
int sim_BIO_test_flags(const BIO *b, int f) { return f & BIO_FLAGS_SHOULD_RETRY; }
static void bio_done(BIO *b) { if (b->accept) accept_bios--; else { if (b->c->bio != b) fail("C25", "a socket is released twice"); b->c->bio = NULL; } free(b); }
void sim_BIO_free_all(BIO *b) { if (b) bio_done(b); }
int sim_BIO_free(BIO *b) { if (b) bio_done(b); return 1; }
void sim_ERR_clear_error(void) {} unsigned long sim_ERR_get_error(void) { return 0; } unsigned long sim_ERR_peek_error(void) { return 0; }
const char *sim_ERR_reason_error_string(unsigned long e) { return NULL; }
long sim_SSL_CTX_ctrl(SSL_CTX *c, int cmd, long l, void *p) { return 1; }
void sim_SSL_CTX_free(SSL_CTX *c) { ctxs--; } SSL_CTX *sim_SSL_CTX_new(const SSL_METHOD *m) { ctxs++; return &the_ctx; }
int sim_SSL_CTX_set_cipher_list(SSL_CTX *c, const char *s) { return 1; } uint64_t sim_SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { return o; }
void sim_SSL_CTX_set_psk_server_callback(SSL_CTX *c, SSL_psk_server_cb_func f) { psk_server = f; }
void sim_SSL_set_psk_client_callback(SSL *s, SSL_psk_client_cb_func f) { psk_client = f; }
SSL *sim_SSL_new(SSL_CTX *c) { return calloc(1, sizeof(SSL)); }
void sim_SSL_set_bio(SSL *s, BIO *r, BIO *w) { s->bio = r; s->c = r->c; r->c->ssl = s; r->c->ssls++; }
void sim_SSL_free(SSL *s) { if (s == NULL) return; if (s->c) { if (s->c->ssl != s) fail("C25", "a TLS object is released twice"); s->c->ssl = NULL; bio_done(s->bio); } free(s); }
int sim_SSL_set_ex_data(SSL *s, int i, void *p) { s->ex = p; return 1; }
void *sim_SSL_get_ex_data(const SSL *s, int i) { return s->ex; }
int sim_SSL_get_error(const SSL *s, int r) { return r > 0 ? SSL_ERROR_NONE : s->err; }
int sim_SSL_pending(const SSL *s) { return 0; }
const SSL_METHOD *sim_TLS_client_method(void) { return (const SSL_METHOD *)"c"; } const SSL_METHOD *sim_TLS_server_method(void) { return (const SSL_METHOD *)"s"; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
	struct sockaddr_in *s = (void *)a; conn *c = of_fd(fd);
	if (c && c->hs_result == 77) { errno = ENOTCONN; return -1; }
	memset(s, 0, sizeof(*s)); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(0x7f000001); s->sin_port = 1234; *l = sizeof(*s); return 0;
}
static int end(SSL *s, int how) {
	s->c->broken = 1;
	progress(s->c);
	switch (how) {
	case END_NOTIFY: s->err = SSL_ERROR_ZERO_RETURN; s->c->notified = 1; return 0;
	case END_RESET: s->err = SSL_ERROR_SYSCALL; errno = ECONNRESET; return -1;
	case END_EOF: s->err = SSL_ERROR_SYSCALL; errno = 0; return upto(2) ? 0 : -1;
	default: s->err = SSL_ERROR_SSL; return -1;
	}
}
static int want(SSL *s, int how) { s->err = how; errno = EAGAIN; return -1; }
static int handshake(SSL *s, int server) {
	conn *c = s->c; int i;
	if (c->hs_left > 0) { c->hs_left--; progress(c); return want(s, upto(3) ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE); }
	if (c->hs_left == 0 && c->quiet == 2) { return want(s, SSL_ERROR_WANT_READ); }		/* the peer stays silent in the middle of it */
	if (server) {
		for (i = 0; c->ids[i] != NULL; i++) {
			memset(c->key, 0xee, sizeof(c->key));
			c->keylen = psk_server(s, c->ids[i], c->key, 256);
			if (c->key[256] != 0xee || c->keylen > 256) fail("C04", "the key callback wrote beyond the buffer it was given");
		}
	}
	if (c->hs_result != 0) return end(s, c->hs_result);
	progress(c);
	return 1;
}
int sim_SSL_accept(SSL *s) { return handshake(s, 1); }
int sim_SSL_connect(SSL *s) { return handshake(s, 0); }
int sim_SSL_read(SSL *s, void *p, int n) {
	conn *c = s->c; size_t a = c->in_avail - c->in_pos; int k;
	if (n <= 0) fail("C11", "SSL_read() of %d bytes", n);
	if (c->broken) return end(s, END_EOF);
	if (!smooth && upto(12) == 0) return want(s, upto(5) ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE);
	if (a > 0) {
		k = (size_t)n < a ? n : (int)a;
		if (upto(3) == 0) k = 1 + upto(k);
		memcpy(p, c->in + c->in_pos, k); c->in_pos += k; progress(c);
		if (on_ssl_read) on_ssl_read(c, k);
		return k;
	}
	if (c->in_pos == c->in_len && c->in_end != END_SILENT) return end(s, c->in_end);
	return want(s, SSL_ERROR_WANT_READ);
}
int sim_SSL_write(SSL *s, const void *p, int n) {
	conn *c = s->c; int k;
	if (c->wptr != NULL && (c->wptr != p || c->wlen != n)) fail("C12", "SSL_write() is not repeated with the same buffer and length (%d bytes after %d bytes)", n, c->wlen);
	if (n <= 0) fail("C12", "SSL_write() of %d bytes", n);
	if (c->shut_calls) fail("C12", "SSL_write() after the shutdown was begun");
	if (c->broken) return end(s, END_RESET);
	if (!smooth && (upto(4) == 0 || c->quiet)) { c->wptr = p; c->wlen = n; return want(s, upto(4) ? SSL_ERROR_WANT_WRITE : SSL_ERROR_WANT_READ); }
	c->wptr = NULL;
	k = upto(2) ? n : 1 + (int)upto(n);
	if (c->out_len + k > c->out_cap) { c->out_cap = 2 * (c->out_len + k); c->out = realloc(c->out, c->out_cap); }
	memcpy(c->out + c->out_len, p, k); c->out_len += k; progress(c);
	if (on_ssl_write) on_ssl_write(c, k);
	return k;
}
int sim_SSL_shutdown(SSL *s) {
	conn *c = s->c; int r = upto(6);
	if (c->shut_calls == 0 && !c->broken) { c->shut_len = c->out_len; if (on_ssl_shutdown) on_ssl_shutdown(c); }
	c->shut_calls++;
	if (c->broken) { s->err = SSL_ERROR_SYSCALL; errno = 0; return -1; }
	if (c->quiet) return want(s, SSL_ERROR_WANT_READ);
	if (c->shut_calls > 12) r = 5;
	switch (r) {
	case 0: return want(s, SSL_ERROR_WANT_WRITE);
	case 1: return want(s, SSL_ERROR_WANT_READ);
	case 2: progress(c); return 0;
	case 3: return end(s, upto(2) ? END_EOF : upto(2) ? END_RESET : END_ERROR);
	default: progress(c); return 1;
	}
}
/* one round of events; io: whether descriptors may become ready */
static void round_(int io) {
	vinv = 0;
	int i, n = nvio; ev_io *fed[4096]; int evs[4096], k = 0;
	if (io)
		for (i = 0; i < n; i++) {
			ev_io *w = (ev_io *)vio[i]; conn *c = of_fd(w->fd); int ready = 0;
			if (w->fd == 50) ready = next_conn < nconn && upto(2);
			else if (c != NULL && !c->quiet) {
				if (c->in_avail < c->in_len && upto(2)) { size_t d = c->in_len - c->in_avail; c->in_avail += upto(3) ? 1 + upto(d > 40 ? 40 : d) : 1 + upto(d); }
				if (w->events & EV_WRITE) ready |= upto(3) ? EV_WRITE : 0;
				if (w->events & EV_READ) ready |= (c->in_pos < c->in_avail || (c->in_pos == c->in_len && c->in_end != END_SILENT) || c->hs_left >= 0 || upto(8) == 0) && upto(4) ? EV_READ : 0;
			}
			if (ready) { fed[k] = w; evs[k++] = w->fd == 50 ? EV_READ : ready; }
		}
	while (k > 0) { int j = upto(2) ? k - 1 : (int)upto(k); ev_feed_event(fed[j], evs[j]); k--; fed[j] = fed[k]; evs[j] = evs[k]; }
	ev_invoke_pending();
}
