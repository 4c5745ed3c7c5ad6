/* the PID file functions on a simulated file system shared with other servers; usage: pidfile SEED CASES */
#include "h.h"
#include <errno.h>
#define SIM_SELF
#include "pidren.h"
#include "libutil.h"
#define NI 40
static struct { char data[200]; size_t n; int locked; dev_t dev; ino_t ino; } I[NI]; static int ni;	/* locked: 0 nobody, 1 we, 2 another process */
static int dir;			/* the file at the path, or -1 */
static struct { int open, ino; size_t pos; int lock; } F[64]; static int base;
static int ours;		/* the file the handle stands for, or -1 */
static int faults, unlinks, polite, waits, badfd, serving; static pid_t mypid = 12345;
static int new_inode(void) { int i = ni++; if (ni >= NI) ni = NI - 1; memset(&I[i], 0, sizeof(I[i])); I[i].dev = upto(2) ? 7 : 8; I[i].ino = 1000 + i + (upto(3) ? 0 : 1L << 33); if (i > 0 && upto(3) == 0) { I[i].ino = I[i - 1].ino; I[i].dev = 15 - I[i - 1].dev; if (i > 1 && I[i].ino == I[i - 2].ino) I[i].ino += 100; } return i; }
static int other_pid;
static void others(void) {	/* what other processes do between two calls */
	if (upto(4)) return;
	switch (upto(6)) {
	case 0: if (dir >= 0 && I[dir].locked == 0) { I[dir].locked = 2; I[dir].n = 0; tell(" [another locks]"); } break;
	case 1: if (dir < 0) { dir = new_inode(); I[dir].locked = 2; tell(" [another creates and locks]"); } break;
	case 2: if (dir >= 0 && I[dir].locked == 2) { I[dir].n = sprintf(I[dir].data, "%d", other_pid = 1 + upto(99999)); tell(" [another writes %d]", other_pid); } break;
	case 3: if (dir >= 0 && I[dir].locked == 2 && !serving) { I[dir].locked = 0; dir = -1; tell(" [another removes its file]"); } break;
	case 4: if (dir >= 0 && I[dir].locked == 2 && !serving) { I[dir].locked = 0; tell(" [another crashes]"); } break;
	case 5: if (!polite && dir >= 0) { dir = upto(2) ? -1 : new_inode(); tell(" [the file is replaced]"); } break;
	}
}
static int fault(const char *w) { if (faults && upto(12) == 0) { tell(" %s fails", w); errno = upto(2) ? EIO : EACCES; return 1; } return 0; }
static int fd_of(int fd) { if (fd < 3 || fd >= 64 || !F[fd].open) { errno = EBADF; return -1; } return fd; }
int sim_open(const char *p, int fl, ...) {
	int fd; others(); if (strcmp(p, "/run/x.pid")) fail("C23", "open(%s)", p);
	if (fault("open")) return -1;
	if (dir < 0) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } dir = new_inode(); tell(" created"); }
	else if (fl & O_EXCL) { errno = EEXIST; return -1; }
	if (fl & O_TRUNC) { if (I[dir].locked == 2) fail("C23", "the PID file of another server is truncated"); if (I[dir].locked == 0) fail("C23", "the PID file is truncated before it is locked"); I[dir].n = 0; }
	for (fd = base; F[fd].open; fd++); F[fd].open = 1; F[fd].ino = dir; F[fd].pos = 0; F[fd].lock = 0; tell(" open=%d", fd); return fd;
}
int sim_close(int fd) { if (fd == badfd) fail("C23", "a descriptor that is not the PID file's any more is closed"); if (fd_of(fd) < 0) { fail("C23", "descriptor %d is closed twice", fd); return -1; } F[fd].open = 0; if (F[fd].lock) { I[F[fd].ino].locked = 0; } tell(" close(%d)", fd); return fault("close") ? -1 : 0; }
int sim_flock(int fd, int op) {
	others(); if (fd_of(fd) < 0) return -1; if (op & LOCK_UN) { if (F[fd].lock) { F[fd].lock = 0; I[F[fd].ino].locked = 0; } return 0; }
	if (!(op & LOCK_EX)) fail("C23", "the lock is not exclusive");
	if (fault("flock")) { if (upto(2)) errno = EINTR; return -1; }
	if (I[F[fd].ino].locked == 2) { if (!(op & LOCK_NB)) fail("C23", "the server waits for the lock instead of being refused"); tell(" would block"); errno = EWOULDBLOCK; return -1; }
	I[F[fd].ino].locked = 1; F[fd].lock = 1; tell(" locked"); return 0;
}
static void fill(struct stat *s, int i) { memset(s, 0, sizeof(*s)); s->st_dev = I[i].dev; s->st_ino = I[i].ino; s->st_size = I[i].n; s->st_nlink = dir == i; }
int sim_stat(const char *p, struct stat *s) { others(); if (strcmp(p, "/run/x.pid")) fail("C23", "stat(%s)", p); if (dir < 0) { errno = ENOENT; return -1; } fill(s, dir); return 0; }
int sim_fstat(int fd, struct stat *s) { if (fd_of(fd) < 0) return -1; if (fault("fstat")) return -1; fill(s, F[fd].ino); return 0; }
static void writing(int fd, const char *w) {
	if (fd == badfd || (ours >= 0 && F[fd].ino != ours)) fail("C23", "%s changes another file", w);
	if (!F[fd].lock) fail("C23", "%s changes a file that is not locked", w);
}
int sim_ftruncate(int fd, off_t n) { if (fd_of(fd) < 0) return -1; writing(fd, "ftruncate()"); if (fault("ftruncate")) return -1; if (n != 0) fail("C23", "ftruncate(%ld)", (long)n); I[F[fd].ino].n = 0; tell(" truncated"); return 0; }
ssize_t sim_pwrite(int fd, const void *p, size_t n, off_t o) {
	if (fd_of(fd) < 0) return -1; writing(fd, "pwrite()"); if (fault("pwrite")) { if (upto(2) && n > 1) { n = 1; } else return -1; }
	if (o < 0 || o + n > sizeof(I[0].data)) fail("C23", "pwrite() of %zu bytes at %ld", n, (long)o);
	if (I[F[fd].ino].n < (size_t)o) memset(I[F[fd].ino].data + I[F[fd].ino].n, 0, o - I[F[fd].ino].n);
	memcpy(I[F[fd].ino].data + o, p, n); if (I[F[fd].ino].n < o + n) I[F[fd].ino].n = o + n; return n;
}
ssize_t sim_write(int fd, const void *p, size_t n) { ssize_t r; if (fd_of(fd) < 0) return -1; r = sim_pwrite(fd, p, n, F[fd].pos); if (r > 0) F[fd].pos += r; return r; }
off_t sim_lseek(int fd, off_t o, int w) { if (fd_of(fd) < 0) return -1; if (w == SEEK_SET) F[fd].pos = o; return F[fd].pos; }
ssize_t sim_read(int fd, void *p, size_t n) { size_t l; others(); if (fd_of(fd) < 0) return -1; if (fault("read")) return -1; l = I[F[fd].ino].n - (F[fd].pos < I[F[fd].ino].n ? F[fd].pos : I[F[fd].ino].n); if (l > n) l = n; memcpy(p, I[F[fd].ino].data + F[fd].pos, l); F[fd].pos += l; return l; }
int sim_unlink(const char *p) {
	if (strcmp(p, "/run/x.pid")) fail("C23", "unlink(%s)", p);
	tell(" unlink"); unlinks++; if (unlinks > 1) fail("C23", "the PID file is removed twice");
	if (polite && dir >= 0 && I[dir].locked != 1) fail("C23", "the PID file is removed without holding its lock");
	if (fault("unlink")) return -1;
	if (dir < 0) { errno = ENOENT; return -1; }
	dir = -1; return 0;
}
pid_t sim_getpid(void) { return mypid; }
int sim_nanosleep(const struct timespec *a, struct timespec *b) { if (++waits > 1000) fail("C23", "pidfile_open() waits forever"); others(); return 0; }
static int fds(void) { int i, k = 0; for (i = 0; i < 64; i++) k += F[i].open; return k; }
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), n;
	for (n = 0; n < cases; n++) {
		struct pidfh *h; pid_t other = -7; int k, e, dirty = 0, gone = 0;
		seed(atoll(argv[1]) * 70001 + n); nstory = 0; story[0] = 0;
		memset(F, 0, sizeof(F)); ni = 0; dir = -1; ours = badfd = -1; faults = upto(2); unlinks = waits = serving = 0; polite = upto(3) != 0; base = 3 + upto(4); mypid = upto(3) ? 1 + upto(4194304) : 1 + upto(9);
		if (upto(3)) { dir = new_inode(); I[dir].n = upto(3) ? 0 : sprintf(I[dir].data, "%u", rnd() % 100000); if (upto(3) == 0) { I[dir].n = sprintf(I[dir].data, upto(4) ? "%d" : "%d garbage and so on", other_pid = 1 + upto(99999)); } if (upto(2)) { I[dir].locked = 2; serving = upto(2); } }
		tell("case %d: file %d (%.*s), locked %d;", n, dir, dir < 0 ? 0 : (int)I[dir].n, dir < 0 ? "" : I[dir].data, dir < 0 ? 0 : I[dir].locked);
		errno = 0; h = pidfile_open("/run/x.pid", 0600, upto(5) ? &other : NULL); e = errno;
		if (h == NULL) {
			tell(" -> NULL (%d)", e);
			if (fds()) fail("C23", "a descriptor stays open although pidfile_open() failed");
			if (serving && !faults && polite && other != -7 && e == EEXIST && other != -1 && I[dir].n && (int)other != atoi(I[dir].data)) fail("C23", "process %d is reported instead of %s", (int)other, I[dir].data);
			if (serving && !faults && polite && I[dir].n == 0 && other != -7 && other != -1) fail("C23", "process %d is reported although none has been written yet", (int)other);
			if (serving && !faults && other != -7 && e != EEXIST && polite && strspn(I[dir].data, "0123456789") >= I[dir].n) fail("C23", "the other server is not reported");
			continue;
		}
		if (serving && polite) fail("C23", "a second server is not refused");
		{ int i, c = -1; for (i = 0; i < 64; i++) if (F[i].open && F[i].lock) c = i; if (c < 0) fail("C23", "the PID file is not locked"); if (fds() != 1) fail("C23", "%d descriptors are open", fds()); ours = F[c].ino;
		  if (polite && dir != ours) fail("C23", "the locked file is not the one at the path");
		  if (I[ours].n != 0) fail("C23", "the old content stays in the PID file");
		  if (pidfile_fileno(h) != c) fail("C23", "pidfile_fileno() is wrong");
		  tell(" -> %d;", c);
		  for (k = upto(4); k >= 0; k--) {
			int how = upto(8), r;
			if (how == 0 && !dirty) { F[c].open = 0; if (F[c].lock) I[ours].locked = 0; dirty = 1; tell(" [descriptor lost]"); if (upto(2)) { int x = new_inode(); F[c].open = 1; F[c].lock = 0; F[c].ino = x; if (upto(2)) I[x].dev = I[ours].dev, I[x].ino = 555; else I[x].ino = I[ours].ino, I[x].dev = 15 - I[ours].dev; F[c].pos = 0; badfd = c; tell(" [and reused]"); } }
			if (how == 1) { mypid = 1 + upto(4194304); tell(" [fork]"); }
			tell(" write"); r = pidfile_write(h);
			if (r == 0 && dirty) fail("C23", "pidfile_write() succeeds on a lost descriptor");
			if (r == 0) { char w[30]; sprintf(w, "%d", (int)mypid); if (I[ours].n != strlen(w) || memcmp(I[ours].data, w, I[ours].n)) fail("C23", "the PID file contains `%.*s' instead of %s", (int)I[ours].n, I[ours].data, w); }
			else if (!dirty && !faults && !gone) fail("C23", "pidfile_write() fails although nothing is wrong");
			if (unlinks) gone = 1;
		  }
		  { int r; char *pre = NULL; int was = dir; tell(" remove"); r = pidfile_remove(h);
		    if (dirty && (unlinks > gone || (r == 0))) fail("C23", "a PID file whose descriptor was lost is removed");
		    if (!dirty && !gone && !faults) { if (r != 0 && polite) fail("C23", "pidfile_remove() fails although nothing is wrong"); if (polite && (dir >= 0 && dir == ours)) fail("C23", "the PID file is not removed"); if (fds()) fail("C23", "the descriptor stays open"); }
		    if (r != 0 && (dirty || gone)) free(NULL); }
		}
	}
	printf("%d random histories\n", cases);
	return 0;
}
