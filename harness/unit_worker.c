/*
 * Drives background workers from many threads, recording a history of calls and
 * function executions, and judges the history.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include "worker.h"
#include "wrap.h"

int __real_clock_gettime(clockid_t, struct timespec *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

static int nviol;
static pthread_mutex_t outl = PTHREAD_MUTEX_INITIALIZER;
static void viol(const char *key, const char *fmt, long a, long b)
{
	__real_pthread_mutex_lock(&outl);
	if (nviol++ < 20) { printf("V %s ", key); printf(fmt, a, b); printf("\n"); fflush(stdout); }
	__real_pthread_mutex_unlock(&outl);
}
#define ADD(x, n) __atomic_add_fetch(&(x), n, __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
#define SET(x, v) __atomic_store_n(&(x), v, __ATOMIC_SEQ_CST)
static unsigned nxt(unsigned *r) { *r = *r * 1103515245u + 12345u; return *r >> 16; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void nap(long us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; syscall(SYS_nanosleep, &t, NULL); }
static void spin(unsigned *r)
{
	switch (nxt(r) % 6) {
	case 0: { volatile int i; for (i = 0; i < (int)(nxt(r) % 800); i++) ; break; }
	case 1: sched_yield(); break;
	case 2: nap(nxt(r) % 120); break;
	default: break;
	}
}

/* ---- history ---------------------------------------------------------- */
enum { WAKE, RUN, WAITIDLE, JOIN, START };
struct ev { int kind, ret; long a, b; };
#define MAXEV 400000
static struct ev *ev;
static long nev, seq;
static long begin(int kind) { long i = ADD(nev, 1) - 1; if (i >= MAXEV) { printf("V harness history full\n"); _exit(3); } ev[i].kind = kind; ev[i].b = 0; ev[i].ret = -9999; SET(ev[i].a, ADD(seq, 1)); return i; }
static void finish(long i, int ret) { ev[i].ret = ret; SET(ev[i].b, ADD(seq, 1)); }

static struct worker_handle W;
static int inside, stop, self_wakes;
static unsigned func_rng;
static void func(struct worker_handle *wh)
{
	long i = begin(RUN);
	int n = ADD(inside, 1);
	if (n != 1) viol("overlap", "%ld executions of the function at once (%ld)", n, 0);
	if (wh != &W) viol("context", "wrong context (%ld %ld)", 0, 0);
	spin(&func_rng);
	if (GET(self_wakes) > 0 && nxt(&func_rng) % 8 == 0) {
		long k = begin(WAKE);
		ADD(self_wakes, -1);
		finish(k, worker_wake(&W));
	}
	if (ADD(inside, 0) != 1) viol("overlap", "%ld executions of the function at once (%ld)", inside, 1);
	ADD(inside, -1);
	finish(i, 0);
}

struct th { pthread_t t; unsigned r; int kind; };
static int paused, npaused;
static void *caller(void *p)
{
	struct th *me = p;
	while (!GET(stop)) {
		long i;
		spin(&me->r);
		if (me->kind == 0) {
			int burst = 1 + (nxt(&me->r) % 10 == 0 ? nxt(&me->r) % 6 : 0);
			while (burst--) { i = begin(WAKE); finish(i, worker_wake(&W)); }
			if (nxt(&me->r) % 3 == 0) nap(nxt(&me->r) % 300);
		} else if (me->kind == 1) {
			i = begin(WAITIDLE);
			finish(i, worker_wait_idle(&W));
			if (ev[i].ret != 0) nap(50);
		} else {
			worker_is_idle(&W);
			nap(100);
		}
		if (GET(paused)) { ADD(npaused, 1); while (GET(paused)) nap(50); ADD(npaused, -1); }
	}
	return NULL;
}
static void *joiner(void *p) { long i = begin(JOIN); (void)p; finish(i, worker_join(&W)); return NULL; }

static void timed_join(pthread_t t, const char *key, long a)
{
	struct timespec ts;
	__real_clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 30;
	if (pthread_timedjoin_np(t, NULL, &ts) != 0) { viol(key, "call did not return (%ld %ld)", a, 0); fflush(stdout); _exit(3); }
}

static int by_a(const void *x, const void *y) { const struct ev *p = x, *q = y; return p->a < q->a ? -1 : p->a > q->a; }

/* judges the recorded history; the worker is stopped at its end */
static void judge(void)
{
	struct ev *run = malloc((nev + 1) * sizeof(*run)), *wk = malloc((nev + 1) * sizeof(*wk));
	long nr = 0, nw = 0, i, j, k, ok = 0;
	for (i = 0; i < nev; i++) {
		if (ev[i].b == 0) viol("unfinished", "call of kind %ld has not finished (%ld)", ev[i].kind, i);
		if (ev[i].kind == RUN) run[nr++] = ev[i];
		else if (ev[i].kind == WAKE && ev[i].ret == 0) { wk[nw++] = ev[i]; ok++; }
		else if (ev[i].kind == WAKE && ev[i].ret != -EINVAL) viol("wake-return", "wake returned %ld (%ld)", ev[i].ret, 0);
	}
	qsort(run, nr, sizeof(*run), by_a);
	qsort(wk, nw, sizeof(*wk), by_a);
	for (i = 1; i < nr; i++)
		if (run[i].a < run[i - 1].b) viol("overlap", "execution %ld began before %ld ended", i, i - 1);
	/* a wake is followed by an execution */
	for (i = 0, j = 0; i < nw; i++) {
		while (j < nr && run[j].a < wk[i].a) j++;
		if (j == nr) viol("lost-wake", "no execution starts after wake %ld of %ld", i, nw);
	}
	/* every execution is due to a wake of its own */
	for (i = 0, k = 0; i < nr; i++) {
		while (k < nw && wk[k].a < run[i].a) k++;
		if (k < i + 1) viol("unprovoked", "execution %ld although only %ld wakes were issued", i + 1, k);
	}
	for (i = 1; i < nr; i++) {
		/* some wake took effect since execution i-1 was taken up */
		long since = i >= 2 ? run[i - 2].b : 0, cnt = 0;
		for (j = 0; j < nw && wk[j].a < run[i].a; j++) if (wk[j].b > run[i - 1].a || wk[j].b > since) cnt++;
		if (cnt == 0) viol("unprovoked", "execution %ld without a wake since the one before it (%ld)", i, since);
		if (nr > 4000 && i > 4000) break;
	}
	/* waiting for idle, joining */
	for (i = 0; i < nev; i++) {
		if (ev[i].kind != JOIN && !(ev[i].kind == WAITIDLE && ev[i].ret == 0)) continue;
		if (ev[i].kind == JOIN && ev[i].ret != 0) viol("join-return", "join returned %ld (%ld)", ev[i].ret, i);
		/* last successful wake finished before the call: its execution is over */
		for (j = nw - 1; j >= 0; j--) {
			long lo = 0, hi = nr;
			if (wk[j].b > (ev[i].kind == JOIN ? ev[i].a : ev[i].a)) continue;
			while (lo < hi) { long m = (lo + hi) / 2; if (run[m].a < wk[j].a) lo = m + 1; else hi = m; }
			if (lo == nr || run[lo].b > ev[i].b)
				viol(ev[i].kind == JOIN ? "join-early" : "idle-early", ev[i].kind == JOIN ?
				     "join returned before work signalled by wake %ld was done (%ld)" : "waiting for idle returned before work signalled by wake %ld was done (%ld)", j, wk[j].a);
			if (wk[j].a < ev[i].a - 400) break;
		}
		if (ev[i].kind == JOIN) {
			/* stopped: no execution until the next start, and no successful wake */
			long next = seq + 1;
			for (j = 0; j < nev; j++) if (ev[j].kind == START && ev[j].b > ev[i].a && ev[j].a < next) next = ev[j].a;
			for (j = 0; j < nr; j++) {
				if (run[j].a < ev[i].b && run[j].b > ev[i].b) viol("join-early", "join returned while the function was running (%ld %ld)", run[j].a, ev[i].b);
				if (run[j].a > ev[i].b && run[j].a < next) viol("run-after-join", "execution at %ld after join at %ld", run[j].a, ev[i].b);
			}
			for (j = 0; j < nw; j++)
				if (wk[j].a > ev[i].b && wk[j].b < next) viol("wake-stopped", "waking a stopped worker succeeded (%ld, joined at %ld)", wk[j].a, ev[i].b);
		} else {
			/* at some moment of the wait nothing was running */
			for (j = 0; j < nr; j++)
				if (run[j].a < ev[i].a && run[j].b > ev[i].b) viol("idle-busy", "waiting for idle returned during an execution (%ld, %ld)", run[j].a, ev[i].a);
		}
	}
	for (i = 0; i < nev; i++)
		if (ev[i].kind == START && ev[i].ret == 0) {
			/* wakes between a start and the next join succeed */
			long next = seq + 1;
			for (j = 0; j < nev; j++) if (ev[j].kind == JOIN && ev[j].a > ev[i].b && ev[j].a < next) next = ev[j].a;
			for (j = 0; j < nev; j++)
				if (ev[j].kind == WAKE && ev[j].ret != 0 && ev[j].a > ev[i].b && ev[j].b < next)
					viol("wake-refused", "waking a started worker failed (%ld, started at %ld)", ev[j].a, ev[i].b);
		}
	free(run); free(wk);
}

static uint64_t hist_hash(void)
{
	uint64_t h = 1469598103934665603ull;
	long i;
	for (i = 0; i < nev; i++) h = (h ^ (uint64_t)(ev[i].kind * 7 + ev[i].ret)) * 1099511628211ull;
	return h;
}

static long n_wakes, n_runs, n_idle, n_joins, n_rounds, n_startfail, n_periodic;
static void tally(void)
{
	long i;
	for (i = 0; i < nev; i++) {
		if (ev[i].kind == WAKE && ev[i].ret == 0) n_wakes++;
		if (ev[i].kind == RUN) n_runs++;
		if (ev[i].kind == WAITIDLE && ev[i].ret == 0) n_idle++;
		if (ev[i].kind == JOIN) n_joins++;
	}
	printf("T %016llx %ld\n", (unsigned long long)hist_hash(), nev);
	n_rounds++;
}
static void reset(void) { nev = 0; seq = 0; stop = 0; paused = 0; npaused = 0; }

static void stress(unsigned seed, int nw, int ni, int cycles)
{
	struct th t[32];
	unsigned r = seed * 77u + 3;
	int i, c, n = nw + ni + 1;
	reset();
	memset(&W, 0, sizeof(W));
	W.func_ptr = func;
	W.stack_size = 1024 * 1024;
	W.periodic_wake = seed % 3 == 1 ? 600000 : 0;
	func_rng = seed;
	SET(self_wakes, 50);
	if (worker_init(&W) != 0) { viol("init", "worker_init failed %ld %ld", 0, 0); return; }
	{ long e = begin(WAKE); finish(e, worker_wake(&W)); if (ev[e].ret == 0) viol("wake-stopped", "waking a worker never started succeeded (%ld %ld)", 0, 0); }
	for (i = 0; i < n; i++) {
		t[i].r = seed * 13u + i * 997u; t[i].kind = i < nw ? 0 : i < nw + ni ? 1 : 2;
		__real_pthread_create(&t[i].t, NULL, caller, &t[i]);
	}
	for (c = 0; c < cycles; c++) {
		long e = begin(START);
		int k;
		pthread_t j[3];
		int nj = 1 + (nxt(&r) % 4 == 0) + (nxt(&r) % 8 == 0);
		finish(e, worker_start(&W));
		if (ev[e].ret != 0) viol("start-return", "start returned %ld (%ld)", ev[e].ret, c);
		if (nxt(&r) % 4 == 0) {
			/* starting a started worker changes nothing */
			int ret = worker_start(&W);
			if (ret != 0) viol("start-return", "second start returned %ld (%ld)", ret, c);
		}
		nap(nxt(&r) % 3 ? nxt(&r) % 400 : nxt(&r) % 5000);
		for (k = 0; k < nj; k++) __real_pthread_create(&j[k], NULL, joiner, NULL);
		for (k = 0; k < nj; k++) timed_join(j[k], "join-stuck", c);
		nap(nxt(&r) % 200);
	}
	SET(stop, 1);
	for (i = 0; i < n; i++) timed_join(t[i].t, "wait-idle-stuck", i);
	worker_free(&W);
	judge();
	tally();
}

/* ---- directed -------------------------------------------------------------- */
static struct { struct worker_handle w; int runs, active, hold, peak; double last_end; double min_gap; } D;
static void dfunc(struct worker_handle *wh)
{
	int n = ADD(D.active, 1);
	(void)wh;
	if (n > D.peak) D.peak = n;
	ADD(D.runs, 1);
	while (GET(D.hold)) nap(50);
	ADD(D.active, -1);
}
static int until(int *v, int want, double secs)
{
	double end = now() + secs;
	while (GET(*v) != want) { if (now() > end) return 0; nap(100); }
	return 1;
}
static int idle_is(int want)
{
	double end = now() + 30;
	while (worker_is_idle(&D.w) != want) { if (now() > end) return 0; nap(100); }
	return 1;
}
static double pt[256];
static int pn;
static void pfunc(struct worker_handle *wh) { int i = GET(pn); (void)wh; if (i < 256) { pt[i] = now(); ADD(pn, 1); } }
static void *dwait(void *p) { int *done = p; int r = worker_wait_idle(&D.w); SET(*done, r == 0 ? 1 : 2); return NULL; }
static void *djoin(void *p) { int *done = p; worker_join(&D.w); SET(*done, 1); return NULL; }

static void directed(unsigned seed)
{
	unsigned r = seed;
	int i, k, done;
	pthread_t t;
	memset(&D, 0, sizeof(D));
	D.w.func_ptr = dfunc;
	D.w.stack_size = 65536;
	worker_init(&D.w);
	for (k = 0; k < 6; k++) {
		int base;
		D.runs = 0;
		if (worker_start(&D.w) != 0) viol("start-return", "start failed (%ld %ld)", k, 0);
		nap(nxt(&r) % 2000);
		if (GET(D.runs)) viol("unprovoked", "%ld executions without a wake (%ld)", D.runs, k);
		if (!idle_is(1)) viol("idle-never", "a worker waiting for work never calls itself idle (%ld %ld)", k, 0);
		/* a burst of wakes during an execution: exactly one more */
		SET(D.hold, 1);
		if (worker_wake(&D.w) != 0) viol("wake-refused", "wake failed (%ld %ld)", k, 0);
		if (!until(&D.runs, 1, 30)) viol("lost-wake", "function did not run after a wake (%ld %ld)", k, 0);
		if (worker_is_idle(&D.w)) viol("idle-busy", "a running worker calls itself idle (%ld %ld)", k, 0);
		base = 1 + (int)(nxt(&r) % 5);
		for (i = 0; i < base; i++) worker_wake(&D.w);
		if (worker_is_idle(&D.w)) viol("idle-busy", "a worker with work signalled calls itself idle (%ld %ld)", k, 1);
		done = 0;
		__real_pthread_create(&t, NULL, dwait, &done);
		nap(1500);
		if (GET(done)) viol("idle-early", "waiting for idle returned during an execution (%ld %ld)", k, 0);
		SET(D.hold, 0);
		timed_join(t, "wait-idle-stuck", k);
		if (GET(D.runs) != 2) viol("burst", "%ld executions for one wake and a burst of %ld during it", D.runs, base);
		if (done != 1) viol("idle-return", "waiting for idle failed on a running worker (%ld %ld)", done, k);
		nap(1000);
		if (GET(D.runs) != 2) viol("unprovoked", "%ld executions, expected 2 (%ld)", D.runs, k);
		if (!idle_is(1)) viol("idle-never", "a worker which has done its work never calls itself idle (%ld %ld)", k, 1);
		/* joining: finishes the running one, and what was signalled */
		SET(D.hold, 1);
		worker_wake(&D.w);
		until(&D.runs, 3, 30);
		if (k & 1) worker_wake(&D.w);
		done = 0;
		__real_pthread_create(&t, NULL, djoin, &done);
		nap(1500);
		if (GET(done)) viol("join-early", "join returned during an execution (%ld %ld)", k, 0);
		if (worker_wake(&D.w) == 0 && !(k & 1)) { /* accepted before the join took effect */
			nap(0);
			SET(D.hold, 0);
			timed_join(t, "join-stuck", k);
			if (GET(D.runs) != 4) viol("lost-wake", "work signalled before a join was not done: %ld executions (%ld)", D.runs, k);
		} else {
			SET(D.hold, 0);
			timed_join(t, "join-stuck", k);
			if (GET(D.runs) != 3 + (k & 1)) viol("lost-wake", "%ld executions instead of %ld when joined", D.runs, 3 + (k & 1));
		}
		if (worker_wake(&D.w) != -EINVAL) viol("wake-stopped", "waking a stopped worker succeeded (%ld %ld)", k, 0);
		if (worker_is_idle(&D.w)) viol("idle-stopped", "a stopped worker calls itself idle (%ld %ld)", k, 0);
		if (worker_join(&D.w) != 0) viol("join-return", "joining a stopped worker failed (%ld %ld)", k, 0);
		i = D.runs;
		nap(1000);
		if (GET(D.runs) != i) viol("run-after-join", "%ld executions after joining (%ld)", D.runs, i);
		/* a start which fails leaves it stopped */
		vf_ctl.armed = 1;
		vf_set("fail_mask", "2");
		vf_set("fail_at", (k & 1) ? "1" : "2");
		i = worker_start(&D.w);
		vf_ctl.armed = 0;
		if (vf_ctl.fail_hits) {
			ADD(n_startfail, 1);
			if (i >= 0) viol("start-return", "start returned %ld although no thread could be created (%ld)", i, k);
			if (worker_wake(&D.w) != -EINVAL) viol("wake-stopped", "waking a worker which failed to start succeeded (%ld %ld)", k, 0);
			if (worker_is_idle(&D.w)) viol("idle-stopped", "a worker which failed to start calls itself idle (%ld %ld)", k, 1);
			done = 0;
			__real_pthread_create(&t, NULL, djoin, &done);
			timed_join(t, "join-stuck", k);
		} else if (i == 0)
			worker_join(&D.w);
	}
	if (D.peak > 1) viol("overlap", "%ld executions at once (%ld)", D.peak, 0);
	worker_free(&D.w);
	/* work signalled immediately before join, without having begun */
	for (k = 0; k < 60; k++) {
		memset(&D, 0, sizeof(D));
		D.w.func_ptr = dfunc;
		/* a period so long that it does not matter */
		D.w.periodic_wake = k % 4 > 1 ? 600000 : 0;
		worker_init(&D.w);
		worker_start(&D.w);
		if (k % 3 == 0) spin(&r);
		if (k % 3 == 1) nap(300);
		i = worker_wake(&D.w);
		if (i != 0) viol("wake-refused", "wake after start failed (%ld %ld)", i, k);
		if (k & 1) {
			done = 0;
			__real_pthread_create(&t, NULL, djoin, &done);
			timed_join(t, "join-stuck", k);
		} else {
			done = 0;
			__real_pthread_create(&t, NULL, dwait, &done);
			timed_join(t, "wait-idle-stuck", k);
			if (done == 1 && GET(D.runs) != 1) viol("idle-early", "waiting for idle returned with %ld executions after a wake (%ld)", D.runs, k);
		}
		worker_free(&D.w);
		if (D.runs != 1) viol("lost-wake", "%ld executions for one wake before joining (%ld)", D.runs, k);
		ADD(n_rounds, 1);
	}
	/* several waiting for the same worker to become idle */
	for (k = 0; k < 6; k++) {
		pthread_t ts[5];
		int dn[5], m, nt = 2 + (int)(nxt(&r) % 4);
		memset(&D, 0, sizeof(D));
		D.w.func_ptr = dfunc;
		worker_init(&D.w);
		worker_start(&D.w);
		SET(D.hold, 1);
		worker_wake(&D.w);
		if (!until(&D.runs, 1, 30)) viol("lost-wake", "function did not run after a wake (%ld %ld)", k, 0);
		for (m = 0; m < nt; m++) { dn[m] = 0; __real_pthread_create(&ts[m], NULL, dwait, &dn[m]); }
		nap(k & 1 ? 10000 : nxt(&r) % 1000);
		for (m = 0; m < nt; m++) if (GET(dn[m])) viol("idle-early", "waiting for idle returned during an execution (%ld %ld)", k, m);
		SET(D.hold, 0);
		for (m = 0; m < nt; m++) timed_join(ts[m], "wait-idle-stuck", k);
		for (m = 0; m < nt; m++) if (dn[m] != 1) viol("idle-return", "waiting for idle failed on a running worker (%ld %ld)", dn[m], k);
		worker_join(&D.w);
		worker_free(&D.w);
		if (D.runs != 1) viol("unprovoked", "%ld executions, expected 1 (%ld)", D.runs, k);
		ADD(n_rounds, 1);
	}
	/* period */
	for (k = 0; k < 4; k++) {
		struct worker_handle p = { 0 };
		double t0, t1;
		p.func_ptr = pfunc;
		p.periodic_wake = 30 + seed % 20;
		pn = 0;
		worker_init(&p);
		if (k >= 2) vf_clock(0);
		t0 = now();
		worker_start(&p);
		if (k == 1) worker_wake(&p);
		nap(k < 2 ? 250000 : 100000);
		if (k >= 2) {
			/* the wall clock is set: the period stays what it is */
			vf_clock((k == 2 ? -1 : 1) * (long)(nxt(&r) % 2 ? 3600 : 31536000));
			for (i = GET(pn), done = 0; GET(pn) < i + 3 && done < 3000; done++) nap(10000);
			if (GET(pn) < i + 3) viol("no-period", "%ld executions in 30 s with a period of %ld ms, after the clock was set", GET(pn) - i, p.periodic_wake);
		}
		t1 = now();
		worker_join(&p);
		if (now() - t1 > 10) viol("join-stuck", "joining a periodic worker took %ld s (%ld)", (long)(now() - t1), k);
		if (pn < 2) viol("no-period", "%ld executions in 250 ms with a period of %ld ms", pn, p.periodic_wake);
		for (i = k == 1; i < pn && i < 256; i++)
			if (pt[i] - (i ? pt[i - 1] : t0) < p.periodic_wake * 0.999 / 1000.0 - 0.001)
				viol("early-period", "executions %ld us apart with a period of %ld ms", (long)((pt[i] - (i ? pt[i - 1] : t0)) * 1e6), p.periodic_wake);
		ADD(n_periodic, pn);
		i = pn;
		nap(60000);
		if (pn != i) viol("run-after-join", "%ld executions after joining (%ld)", pn, i);
		worker_free(&p);
		vf_clock(0);
	}
}

int main(int argc, char **argv)
{
	unsigned seed = argc > 1 ? (unsigned)atoi(argv[1]) : 1;
	int rounds = argc > 2 ? atoi(argv[2]) : 5, cycles = argc > 3 ? atoi(argv[3]) : 20, i;
	ev = calloc(MAXEV, sizeof(*ev));
	directed(seed);
	for (i = 0; i < rounds; i++)
		stress(seed + i, 1 + (seed + i) % 4, (seed / 3 + i) % 3, cycles);
	printf("S wakes %ld\nS executions %ld\nS idle_waits %ld\nS joins %ld\nS rounds %ld\nS failed_starts %ld\nS periodic_executions %ld\n", n_wakes, n_runs, n_idle, n_joins, n_rounds, n_startfail, n_periodic);
	free(ev);
	printf("DONE\n");
	return nviol ? 1 : 0;
}
