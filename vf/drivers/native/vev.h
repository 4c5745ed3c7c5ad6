/* a virtual libev (API of lib/ev/ev.h): the harness decides which events occur and how time passes */
#include <ev.h>
static double vnow = 1000000.0;
static ev_watcher *vio[4096]; static int nvio;
static ev_timer *vtm[4096]; static int nvtm;
static ev_async *vas[64]; static int nvas;
static ev_signal *vsg[64]; static int nvsg;
static struct { ev_watcher *w; int ev; } vpend[3][4096]; static int nvpend[3];
static void (*before_cb)(ev_watcher *, int);
static int vbreak, vinv;
ev_tstamp ev_rt_now = 1000000.0;
ev_tstamp ev_time(void) { return vnow; }
void ev_now_update(void) {}
int ev_default_loop(unsigned int f) { return 1; }
int ev_version_major(void) { return 4; } int ev_version_minor(void) { return 33; } unsigned int ev_backend(void) { return 1; }
void ev_loop_fork(void) {} void ev_break(int how) { vbreak = 1; } void ev_ref(void) {} void ev_unref(void) {}
void ev_feed_event(void *p, int ev) {
	ev_watcher *w = p; int q = w->priority + 1;
	if (w->pending) { vpend[q][w->pending - 1].ev |= ev; return; }
	vpend[q][nvpend[q]].w = w; vpend[q][nvpend[q]].ev = ev; w->pending = ++nvpend[q];
}
int ev_clear_pending(void *p) {
	ev_watcher *w = p; int r = 0;
	if (w->pending) { r = vpend[w->priority + 1][w->pending - 1].ev; vpend[w->priority + 1][w->pending - 1].w = NULL; w->pending = 0; }
	return r;
}
void ev_invoke(void *p, int ev) {
	ev_watcher *w = p;
	if (++vinv > 20000) { story[nstory > 600 ? 600 : nstory] = 0; fail("C21,C05", "the callbacks trigger each other endlessly; nothing else is served"); }
	if (before_cb) before_cb(w, ev); w->cb((void *)w, ev);
}
void ev_invoke_pending(void) {
	int q;
again:
	for (q = 2; q >= 0; q--)
		while (nvpend[q] > 0) {
			ev_watcher *w = vpend[q][--nvpend[q]].w; int ev = vpend[q][nvpend[q]].ev;
			if (w == NULL) continue;
			w->pending = 0;
			ev_invoke(w, ev);
			goto again;
		}
}
static void vdel(void **a, int *n, void *w) { int i; for (i = 0; i < *n; i++) if (a[i] == w) { memmove(a + i, a + i + 1, (*n - i - 1) * sizeof(*a)); --*n; return; } }
void ev_io_start(ev_io *w) { if (w->active) return; if (w->fd < 0) { printf("FAIL ev_io_start() on a negative descriptor\n"); exit(1); } w->active = 1; vio[nvio++] = (ev_watcher *)w; }
void ev_io_stop(ev_io *w) { ev_clear_pending(w); if (!w->active) return; vdel((void **)vio, &nvio, w); w->active = 0; }
void ev_timer_start(ev_timer *w) { if (w->active) return; ((ev_watcher_time *)w)->at += vnow; w->active = 1; vtm[nvtm++] = w; }
void ev_timer_stop(ev_timer *w) { ev_clear_pending(w); if (!w->active) return; vdel((void **)vtm, &nvtm, w); ((ev_watcher_time *)w)->at -= vnow; w->active = 0; }
void ev_timer_again(ev_timer *w) {
	ev_clear_pending(w);
	if (w->active) { if (w->repeat) ((ev_watcher_time *)w)->at = vnow + w->repeat; else ev_timer_stop(w); }
	else if (w->repeat) { ((ev_watcher_time *)w)->at = w->repeat; ev_timer_start(w); }
}
ev_tstamp ev_timer_remaining(ev_timer *w) { return ((ev_watcher_time *)w)->at - (w->active ? vnow : 0.); }
void ev_async_start(ev_async *w) { if (w->active) return; w->active = 1; vas[nvas++] = w; }
void ev_async_stop(ev_async *w) { ev_clear_pending(w); if (!w->active) return; vdel((void **)vas, &nvas, w); w->active = 0; }
static int async_sent; static ev_async *async_which;
void ev_async_send(ev_async *w) { async_sent = 1; async_which = w; }
void ev_signal_start(ev_signal *w) { w->active = 1; vsg[nvsg++] = w; }
void ev_signal_stop(ev_signal *w) { ev_clear_pending(w); if (!w->active) return; vdel((void **)vsg, &nvsg, w); w->active = 0; }
static double next_timer(void) { double m = 1e300; int i; for (i = 0; i < nvtm; i++) if (((ev_watcher_time *)vtm[i])->at < m) m = ((ev_watcher_time *)vtm[i])->at; return m; }
static void timers(void) {
	for (;;) {
		int i, k = -1; ev_timer *w;
		for (i = 0; i < nvtm; i++) if (((ev_watcher_time *)vtm[i])->at <= vnow + 1e-9 && (k < 0 || ((ev_watcher_time *)vtm[i])->at < ((ev_watcher_time *)vtm[k])->at)) k = i;
		if (k < 0) return;
		w = vtm[k];
		if (w->repeat) ((ev_watcher_time *)w)->at = vnow + w->repeat;
		else { vdel((void **)vtm, &nvtm, w); ((ev_watcher_time *)w)->at -= vnow; w->active = 0; }
		ev_feed_event(w, EV_TIMER);
	}
}
static void advance(double d) { vnow += d; ev_rt_now = vnow; timers(); }
static void vreset(void) { nvio = nvtm = nvas = nvsg = 0; nvpend[0] = nvpend[1] = nvpend[2] = 0; async_sent = 0; }
