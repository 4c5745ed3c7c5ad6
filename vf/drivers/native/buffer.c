/* the byte queue against a plain array; usage: buffer SEED CASES */
#include "h.h"
#include "buffer.h"
static long live;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
#define MAX (1 << 18)
static unsigned char model[MAX], in[70000]; static size_t h, t;
static unsigned char out[MAX + 70000];
static const unsigned sizes[] = { 0, 1, 2, 3, 5, 16, 100, 1000, 2000, 4000, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 65536 };
static unsigned size(void) { unsigned r = upto(10), s; s = sizes[upto(sizeof(sizes) / sizeof(*sizes))]; if (r < 4) return upto(40); if (r < 8) return s; return upto(s + 1); }
static void cmp(const unsigned char *p, size_t n, const char *op) {
	if (memcmp(p, model + h, n) != 0) fail("C10,C11,C07,C15", "%s delivered other bytes than those appended", op);
}
int main(int argc, char **argv) {
	int cases = atoi(argv[2]), c;
	for (c = 0; c < cases; c++) {
		long base; buffer *b; int k, ops;
		seed(atoll(argv[1]) * 1000003 + c); nstory = 0; story[0] = 0; h = t = 0;
		base = live;
		b = buffer_new();
		tell("case %d: new", c);
		ops = 1 + upto(60);
		for (k = 0; k < ops; k++) {
			size_t n, i, want; char *p; unsigned char term;
			int op = upto(9);
			if (buffer_size(b) != t - h) fail("C10", "buffer_size() is %zu, but %zu bytes are queued", buffer_size(b), t - h);
			switch (op) {
			case 0: case 1: case 2:
				n = size(); if (t + n > MAX) break;
				for (i = 0; i < n; i++) { unsigned r = upto(200); in[i] = r < 2 ? '\n' : r < 4 ? '\r' : r < 6 ? 0 : r < 8 ? 255 : 'a' + r % 26; }
				if (upto(3) == 0 && n > 1) { in[n - 1] = '\n'; if (upto(2)) in[n - 2] = '\r'; }
				tell(", append %zu", n);
				buffer_append(b, in, n); memcpy(model + t, in, n); t += n;
				break;
			case 3:
				n = upto(3) ? size() : t - h; want = n < t - h ? n : t - h;
				tell(", read %zu", n);
				memset(out, 0xaa, n + 1);
				i = buffer_read(b, out, n);
				if (i != want) fail("C10,C11,C07", "buffer_read() of %zu bytes with %zu queued returned %zu", n, t - h, i);
				cmp(out, want, "buffer_read()"); h += want;
				if (out[n] != 0xaa && n < sizeof(out)) fail("C10", "buffer_read() wrote behind its output");
				break;
			case 4:
				n = upto(3) ? size() : t - h; want = n < t - h ? n : t - h; i = n;
				tell(", read_alloc %zu", n);
				p = buffer_read_alloc(b, &i);
				if (i != want) fail("C10,C11,C07", "buffer_read_alloc() of %zu bytes with %zu queued delivered %zu", n, t - h, i);
				cmp((unsigned char *)p, want, "buffer_read_alloc()"); h += want; memset(p, 0, want); free(p);
				break;
			case 5:
				tell(", slurp"); i = 12345;
				p = buffer_slurp(b, &i);
				if (i != t - h) fail("C10,C07", "buffer_slurp() with %zu bytes queued delivered %zu", t - h, i);
				cmp((unsigned char *)p, i, "buffer_slurp()"); h += i; free(p);
				break;
			case 6: case 7: {
				unsigned char *e; size_t l;
				term = op == 6 ? '\n' : upto(4) == 0 ? 255 : upto(3) == 0 ? 0 : '\n';
				tell(op == 6 ? ", read_line" : ", read_chunk(%d)", term);
				p = op == 6 ? buffer_read_line(b) : buffer_read_chunk(b, (char)term);
				e = memchr(model + h, term, t - h);
				if (e == NULL) { if (p != NULL) fail("C10,C11,C15", "a line was returned although no terminator is queued"); break; }
				if (p == NULL) fail("C10,C11,C15", "no line was returned although one is queued");
				l = e - (model + h);
				if (op == 6 && l > 0 && model[h + l - 1] == '\r') { cmp((unsigned char *)p, l - 1, "buffer_read_line()"); if (p[l - 1] != 0) fail("C10,C11", "the line is not terminated before its CRLF"); }
				else { cmp((unsigned char *)p, l, op == 6 ? "buffer_read_line()" : "buffer_read_chunk()"); if (p[l] != 0) fail("C10,C11,C15", "the line is not NUL-terminated in place of its terminator"); }
				h += l + 1; free(p);
				break; }
			default:
				if (upto(6) == 0) { tell(", free, new"); buffer_free(b); if (live != base) fail("C10,C25", "buffer_free() leaves %ld blocks", live - base); b = buffer_new(); h = t = 0; }
			}
			if (h == t) h = t = 0;
		}
		buffer_free(b);
		if (live != base) fail("C10,C25", "%ld memory blocks leaked or freed twice", live - base);
	}
	printf("%d random histories\n", cases);
	return 0;
}
