/* the command file writer against a simulated pipe and file system; usage: fifo SEED CASES */
#define SIM_SELF
#include "fiforen.h"
#include "h.h"
#include "vev.h"
#include <limits.h>
#include "log.h"
#include "fifo.h"
size_t __sanitizer_get_current_allocated_bytes(void);
#define live ((long)__sanitizer_get_current_allocated_bytes())
#define NSUB 4000
typedef struct { char *p; size_t len; int freed, own, gone, dropok, at, end; } subm;		/* gone: 1 passed on, 2 lost in a failed dump */
static subm subs[NSUB]; static int nsub, last_out, tick;
typedef struct { char path[64]; int excused, fd, open, ok, written, tried, announced; size_t len; int first, last; } dump;
static dump dumps[NSUB]; static int ndump;
static int reader, isfifo, full, pfd, pfd_open, io_ok;	/* state of the command file */
static size_t limit;
static struct aiocb *aio; static int aio_done, aio_err; static ssize_t aio_ret; static int aio_dump; static char *aio_copy;
static void (*handler)(int, siginfo_t *, void *);
static size_t unit(const char *p, size_t n, int *id) {		/* length of the unit at p */
	char b[64]; size_t k = n < 60 ? n : 60; int i; unsigned long l; char *e;
	memcpy(b, p, k); b[k] = 0;
	if (b[0] == '<' && sscanf(b, "<%d:%lu:", &i, &l) == 2 && i >= 0 && i < nsub && subs[i].len == l && l <= n && memcmp(p, subs[i].p, l) == 0) { *id = i; return l; }
	if (b[0] == '[' && (e = memchr(p, '\n', n)) != NULL) { *id = -1; return e - p + 1; }
	return 0;
}
static void announce(const char *p, size_t n) {
	char b[200]; unsigned long t; char path[100]; int i, fl, k = 0;
	if (n > 150) fail("C07,C08", "something else than the submitted data is passed on");
	memcpy(b, p, n); b[n] = 0;
	if (sscanf(b, "[%lu] PROCESS_FILE;%90[^;];%d%n", &t, path, &fl, &k) != 3 || fl != 1 || strcmp(b + k, "\n") != 0 || t < 1000000)
		{ tell(" >>%s<<", b); fail("C08,C07", "not a well-formed PROCESS_FILE command (or not submitted)"); }
	for (i = 0; i < ndump; i++) if (strcmp(dumps[i].path, path) == 0) break;
	if (i == ndump) fail("C08", "a file that was not created (%s) is announced", path);
	if (!dumps[i].ok) fail("C08", "dump %d (%s) is announced although it is incomplete", i, path);
	if (dumps[i].announced++) fail("C08,C07", "dump %d is announced twice", i);
}
static int pass(const char *p, size_t n, int how, int *first, int *last) {	/* data leaves the queue */
	size_t k; int id, units = 0;
	*first = *last = -1;
	for (; n > 0; p += k, n -= k, units++) {
		if ((k = unit(p, n, &id)) == 0) fail("C07", "something else than a sequence of submissions is passed on (%s)", how ? "dump" : "pipe");
		if (id < 0) { announce(p, k); continue; }
		if (id <= last_out) fail("C07", "submission %d is passed on after submission %d", id, last_out);
		last_out = id; subs[id].gone = 1; subs[id].dropok = 0; subs[id].at = tick;
		if (*first < 0) *first = id;
		*last = id;
	}
	return units;
}
int sim_open(const char *path, int fl, ...) {
	if (strcmp(path, "/fifo") != 0) fail("C07", "%s is opened", path);
	if (upto(6) == 0 && !io_ok) { errno = EINTR; return -1; }
	if (pfd_open) fail("C07", "the command file is opened twice");
	if (isfifo && !reader) { errno = ENXIO; return -1; }
	if (isfifo < 0) { errno = ENOENT; return -1; }
	if (!(fl & O_NONBLOCK)) fail("C07", "the command file is opened in blocking mode");
	if (fl & O_CREAT) fail("C07", "the command file is created");
	pfd_open = 1; return pfd = 10 + upto(3);
}
int sim_close(int fd) {
	int i;
	if (pfd_open && fd == pfd) { pfd_open = 0; return 0; }
	for (i = ndump - 1; i >= 0; i--) if (dumps[i].open && dumps[i].fd == fd) break;
	if (i < 0) fail("C08,C07", "descriptor %d, which is not open, is closed", fd);
	if (!io_ok && upto(8) == 0) { errno = EINTR; return -1; }
	dumps[i].open = 0;
	if (aio != NULL && !aio_done && aio_dump == i) fail("C08", "a dump file is closed while it is being written");
	if (!io_ok && upto(8) == 0) { dumps[i].ok = 0; tell(", close of dump %d fails", i); errno = EIO; return -1; }
	return 0;
}
static void lost(int i) { int j; if (dumps[i].first >= 0) for (j = dumps[i].first; j <= dumps[i].last; j++) if (subs[j].gone == 1) subs[j].gone = 2; }
ssize_t sim_write(int fd, const void *p, size_t n) {
	int a, b;
	if (!pfd_open || fd != pfd) {
		int i;
		for (i = 0; i < ndump; i++) if (dumps[i].open && dumps[i].fd == fd) fail("", "synchronous dumps are not simulated");
		fail("C07", "write() to descriptor %d, which is not the command file", fd);
	}
	if (isfifo != 1) fail("C07", "something that is not a named pipe is written");
	if (n > PIPE_BUF) fail("C07", "%zu bytes are written to the pipe at once", n);
	if (!io_ok && upto(10) == 0) { errno = EINTR; return -1; }
	if (!reader) { tell(", EPIPE"); errno = EPIPE; return -1; }
	if (full) { errno = EAGAIN; return -1; }
	tell(", pipe %zu", n);
	if (n > 0) pass(p, n, 0, &a, &b);
	return n;
}
int sim_fstat(int fd, struct stat *s) {
	memset(s, 0, sizeof(*s));
	if (!pfd_open || fd != pfd) fail("C07", "fstat() of another descriptor");
	if (!io_ok && upto(20) == 0) { errno = EIO; return -1; }
	s->st_mode = (isfifo == 1 ? S_IFIFO : S_IFREG) | 0600; return 0;
}
int sim_mkstemp(char *t) {
	size_t l = strlen(t); dump *d = &dumps[ndump];
	if (l < 6 || strcmp(t + l - 6, "XXXXXX") != 0 || strncmp(t, "/tmpdir/", 8) != 0) fail("C08", "a dump file %s is created", t);
	if (!io_ok && upto(8) == 0) { { int j; for (j = last_out + 1; j < nsub; j++) subs[j].dropok = 1; for (j = 0; j < ndump; j++) dumps[j].excused = 1; } tell(", mkstemp fails"); errno = ENOSPC; return -1; }
	snprintf(t + l - 6, 7, "%06d", ndump); memset(d, 0, sizeof(*d)); snprintf(d->path, sizeof(d->path), "%s", t); d->fd = 30 + ndump % 5; d->open = 1; d->first = d->last = -1; ndump++;
	return d->fd;
}
int sim_aio_write(struct aiocb *c) {
	int i;
	if (aio != NULL && !aio_done) fail("C08", "two asynchronous writes are outstanding at a time");
	for (i = ndump - 1; i >= 0; i--) if (dumps[i].open && dumps[i].fd == c->aio_fildes) break;
	if (i < 0) fail("C08", "asynchronous write to descriptor %d, which is no dump file", c->aio_fildes);
	if (c->aio_offset != 0) fail("C08", "the data is not written to the beginning of the file");
	if (c->aio_sigevent.sigev_notify != SIGEV_SIGNAL || !ev_is_active((ev_watcher *)vas[nvas ? nvas - 1 : 0]) || nvas == 0) fail("C08", "nobody waits for the end of the write");
	dumps[i].tried = 1;
	pass((void *)c->aio_buf, c->aio_nbytes, 1, &dumps[i].first, &dumps[i].last);
	dumps[i].len = c->aio_nbytes;
	if (!io_ok && upto(10) == 0) { tell(", aio_write fails"); lost(i); errno = EAGAIN; return -1; }
	tell(", dump %d (%zu)", i, dumps[i].len);
	aio = c; aio_done = 0; aio_dump = i; aio_err = EINPROGRESS;
	aio_copy = malloc(c->aio_nbytes); memcpy(aio_copy, (void *)c->aio_buf, c->aio_nbytes);
	return 0;
}
static size_t pending_now(void) { size_t t = 0; int i; for (i = last_out + 1; i < nsub; i++) t += subs[i].len; return t; }
static void complete(void) {
	int i = aio_dump, w = io_ok ? 9 : upto(10);
	aio_done = 1; aio_err = 0; aio_ret = dumps[i].len;
	if (memcmp(aio_copy, (void *)aio->aio_buf, dumps[i].len) != 0) fail("C08", "the data of an outstanding write was modified");
	free(aio_copy); aio_copy = NULL;
	if (w == 0) { aio_err = EIO; aio_ret = -1; } else if (w == 1) aio_ret = upto(dumps[i].len);
	else {
		dumps[i].ok = 1;
		/* the command that announces it is a submission as well */
		if (limit > 0 && pending_now() + 100 > limit) { int j; for (j = last_out + 1; j < nsub; j++) subs[j].dropok = 1; for (j = 0; j < ndump; j++) dumps[j].excused = j != i; }
	}
	tell(", dump %d %s", i, aio_err ? "fails" : (size_t)aio_ret < dumps[i].len ? "is short" : "done");
}
int sim_aio_error(const struct aiocb *c) { if (c != aio) fail("C08", "aio_error() of an unknown request"); return aio_done ? aio_err : EINPROGRESS; }
ssize_t sim_aio_return(struct aiocb *c) { if (c != aio || !aio_done) fail("C08", "aio_return() of a request that is not complete"); return aio_ret; }
int sim_aio_suspend(const struct aiocb *const l[], int n, const struct timespec *t) { if (upto(3) == 0) { errno = EINTR; return -1; } if (!aio_done) complete(); return 0; }
int sim_aio_cancel(int fd, struct aiocb *c) { return aio_done ? AIO_ALLDONE : AIO_NOTCANCELED; }
int sim_fsync(int fd) { return 0; }
int sim_unlink(const char *p) { int i; for (i = 0; i < ndump; i++) if (strcmp(dumps[i].path, p) == 0 && dumps[i].ok) fail("C07,C08", "a complete dump is removed"); return 0; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { handler = a->sa_sigaction; return 0; }
void (*sim_signal(int s, void (*h)(int)))(int) { return SIG_DFL; }
time_t sim_time(time_t *t) { if (t) *t = (time_t)vnow; return (time_t)vnow; }
static char *owned[NSUB]; static int freed[NSUB];
static void own_free(void *p) {
	int i;
	for (i = nsub - 1; i >= 0; i--) if (owned[i] == p && !freed[i]) break;
	if (i < 0) fail("C08,C07", "a buffer is released that was not submitted, or released before");
	if (aio != NULL && !aio_done && aio->aio_buf == (void *)p) fail("C08", "the data of an outstanding write is released");
	freed[i] = 1; free(p);
}
static void submit(fifo_state *f, size_t len) {
	int i = nsub; subm *s = &subs[i]; char *p; size_t k, pend = pending_now();
	memset(s, 0, sizeof(*s));
	s->p = malloc(len + 40); k = sprintf(s->p, "<%d:%zu:", i, len); if (len <= k) len = sprintf(s->p, "<%d:%zu:", i, k + 2) + 1; k = sprintf(s->p, "<%d:%zu:", i, len);
	memset(s->p + k, 'a' + i % 26, len - k); s->p[len - 1] = '\n'; s->len = len;
	/* may what is waiting be dropped now? */
	if (limit > 0 && pend + len > limit) { int j; for (j = last_out + 1; j < i; j++) subs[j].dropok = 1; for (j = 0; j < ndump; j++) dumps[j].excused = 1; }
	nsub++;
	tell(", submit %d (%zu)", i, len);
	p = malloc(len); memcpy(p, s->p, len);
	owned[i] = NULL; freed[i] = 0;
	if (upto(3)) { owned[i] = p; fifo_write(f, p, len, own_free); }
	else { fifo_write(f, p, len, NULL); memset(p, 'X', len); free(p); }
	s->end = tick++;
}
static void signals(void) {
	if (aio != NULL && !aio_done && (io_ok || upto(2))) {
		siginfo_t si; memset(&si, 0, sizeof(si)); complete();
		si.si_code = SI_ASYNCIO; si.si_value = aio->aio_sigevent.sigev_value;
		if (handler == NULL) fail("C08", "no signal handler");
		handler(SIGRTMIN, &si, NULL);
		if (async_sent) { async_sent = 0; if (async_which->active) ev_feed_event(async_which, EV_ASYNC); }
	}
}
static void writable(void) {
	int i;
	for (i = nvio - 1; i >= 0; i--) {
		ev_io *w = (ev_io *)vio[i];
		if (!pfd_open || w->fd != pfd) fail("C07", "the program waits for descriptor %d, which is not open", w->fd);
		if ((w->events & EV_WRITE) && (!full || !reader)) ev_feed_event(w, EV_WRITE);
	}
}
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n;
	log_set(-1, 0);
	freopen("/dev/null", "w", stderr);
	for (n = 0; n < cases; n++) {
		fifo_state *f; int steps, k, j; long base; int mb;
		seed(atoll(argv[1]) * 7919 + n); nstory = 0; story[0] = 0;
		vreset(); nsub = ndump = 0; last_out = -1; aio = NULL; aio_done = 0; io_ok = 0; pfd_open = 0;
		mb = upto(8) == 0 ? 1 + upto(2) : upto(2) ? 0 : 30; limit = (size_t)mb * 1048576;
		isfifo = upto(12) ? 1 : (int)upto(2) - 1; reader = upto(3) != 0; full = upto(3) == 0; vnow = ev_rt_now = 1000000 + upto(1000);
		tell("case %d: limit %d MB, %s, reader %d, full %d", n, mb, isfifo == 1 ? "pipe" : isfifo ? "no file" : "regular file", reader, full);
		base = live;
		f = fifo_start("/fifo", "/tmpdir", mb);
		steps = 1 + upto(mb == 1 || mb == 2 ? 40 : upto(4) ? 40 : 150);
		for (k = 0; k < steps; k++) {
			vinv = 0;
			switch (upto(9)) {
			case 0: case 1: case 2: case 3: {
				size_t len = upto(3) ? 20 + upto(300) : upto(3) ? 20 + upto(3000) : upto(2) ? 4000 + upto(200) : 20 + upto(20000);
				if (mb && mb < 30 && upto(3)) len = 50000 + upto(upto(4) ? 500000 : 1500000);
				if (mb && mb < 30 && pending_now() == 0) len = 50;
				else if (mb && mb < 30 && pending_now() < limit && upto(6) == 0) len = limit - pending_now() + upto(3) - 1 + (upto(2) ? 50 : 0);	/* around the limit */
				submit(f, len); break; }
			case 4: full = upto(3) == 0; break;
			case 5: if (upto(3) == 0) { reader = upto(3) != 0; tell(", reader %d", reader); } break;
			case 6: if (upto(6) == 0 && !pfd_open) { isfifo = upto(4) ? 1 : (int)upto(2) - 1; tell(", type %d", isfifo); } break;
			case 7: advance(upto(12)); break;
			default: break;
			}
			signals(); writable(); ev_invoke_pending();
		}
		if (upto(6)) {		/* everything is well again: everything is passed on */
			size_t tot; int idle = 0;
			io_ok = 1; reader = 1; full = 0; 
			if (!pfd_open) isfifo = 1;
			if (isfifo == 1) {
				tell(", all well");
				for (k = 0; k < 200 + 3 * nsub; k++) { vinv = 0; signals(); writable(); ev_invoke_pending(); advance(6); signals(); writable(); ev_invoke_pending(); }
				/* queued data behind a chunk may need another submission or not; it is to be passed on without one */
				for (j = 0; j < nsub; j++)
					if (!subs[j].gone && !subs[j].dropok) fail(j > last_out ? "C07,C09" : "C07,C09", "submission %d is never passed on", j);
				for (j = 0; j < ndump; j++)
					if (dumps[j].ok && !dumps[j].announced && !dumps[j].excused && !dumps[j].open) fail("C08,C07", "dump %d (%s) is complete but was never announced", j, dumps[j].path);
			}
		}
		for (k = 0; limit && k < nsub; k++) {	/* what is known (from what became of it) to have been queued after submission k */
			size_t tot = 0, first = 0;
			for (j = 0; j <= k; j++) if (subs[j].gone && subs[j].at > subs[k].end) { if (first == 0) first = subs[j].len; tot += subs[j].len; }
			if (tot > (first > 4096 ? first : 4096) && tot - (first > 4096 ? first : 4096) > (limit > subs[k].len ? limit : subs[k].len))
				fail("C09", "at least %zu bytes are queued after submission %d", tot, k);
		}
		tell(", stop");
		fifo_stop(f);
		if (nvio || nvtm || nvas) fail("C07,C08", "a watcher is registered after the end");
		if (pfd_open) fail("C07", "the command file is left open");
		for (j = 0; j < ndump; j++) if (dumps[j].open) fail("C08", "dump file %d is left open", j);
		for (j = 0; j < nsub; j++) { if (owned[j] && !freed[j]) { if (0) fail("C08,C07", "buffer %d is never released", j); } free(subs[j].p); subs[j].p = NULL; }
		if (aio_copy) { free(aio_copy); aio_copy = NULL; }
		if (live > base) fail("C08,C07", "%ld bytes are not released", live - base);
	}
	printf("%d random histories\n", cases);
	return 0;
}
