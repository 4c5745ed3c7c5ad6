/* helpers for the harnesses */
#include <config.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
static unsigned long long rs = 88172645463325252ULL;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 11); }
static unsigned upto(unsigned n) { return n ? rnd() % n : 0; }
static void seed(unsigned long long s) { int i; rs = s * 0x9E3779B97F4A7C15ULL + 12345; if (rs == 0) rs = 1; for (i = 0; i < 20; i++) rnd(); }
static char story[1 << 16]; static size_t nstory;
static void tell(const char *f, ...) {
	va_list a; int n;
	if (nstory > sizeof(story) - 400) return;
	va_start(a, f); n = vsnprintf(story + nstory, 400, f, a); va_end(a);
	nstory += n > 399 ? 399 : n;
}
static void fail(const char *props, const char *f, ...) {
	va_list a;
	printf("FAIL%s%s%s ", *props ? "[" : "", props, *props ? "]" : "");
	va_start(a, f); vprintf(f, a); va_end(a);
	{ char *p; for (p = story; *p; p++) if (*p == '\n') *p = ' '; }
	if (nstory > 7000) printf(" | history: %.4000s ... %s\n", story, story + nstory - 3000);
	else printf(" | history: %s\n", story);
	fflush(stdout);
	exit(1);
}
/* split the work over k processes: returns the number of the worker; the parent never returns */
static int workers(int k) {
	int i, st, r = 0; pid_t c[32];
	fflush(NULL);
	for (i = 0; i < k; i++) if ((c[i] = fork()) == 0) { char d[20]; sprintf(d, "w%d", i); mkdir(d, 0700); if (chdir(d)) _exit(0); return i; }
	for (i = 0; i < k; i++) { if (waitpid(c[i], &st, 0) < 0) continue; if (!WIFEXITED(st)) r = r ? r : 134; else if (WEXITSTATUS(st)) r = r ? r : WEXITSTATUS(st); }
	if (r == 0) printf("done by %d processes\n", k);
	fflush(NULL); _exit(r);
}
static void show(const char *p, size_t n) {
	size_t i;
	for (i = 0; i < n && i < 600; i++)
		if (p[i] >= ' ' && p[i] < 127 && p[i] != '\\') tell("%c", p[i]); else tell("\\x%02x", (unsigned char)p[i]);
	if (i < n) tell("...(%zu)", n);
}
