/*
 * Drives the shared/exclusive locks and condition variables from many threads,
 * with holder counts kept by an independent monitor.
 * Output: "V <key> <text>" per violation, "S <name> <number>" per statistic.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include "mutex.h"
#include "wrap.h"

int __real_clock_gettime(clockid_t, struct timespec *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static int nviol;
static pthread_mutex_t outl = PTHREAD_MUTEX_INITIALIZER;
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static void viol(const char *key, const char *fmt, long a, long b)
{
	__real_pthread_mutex_lock(&outl);
	if (nviol++ < 20) {
		printf("V %s ", key);
		printf(fmt, a, b);
		printf("\n");
		fflush(stdout);
	}
	__real_pthread_mutex_unlock(&outl);
}
static double now(clockid_t c)
{ struct timespec t; clock_gettime(c, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void spin(unsigned *r, int kind)
{
	*r = *r * 1103515245u + 12345u;
	switch ((*r >> 16) % (kind ? 4 : 6)) {
	case 0: { volatile int i; for (i = 0; i < (int)((*r >> 20) % 400); i++) ; break; }
	case 1: sched_yield(); break;
	case 2: { struct timespec t = { 0, ((*r >> 18) % 60) * 1000 }; syscall(SYS_nanosleep, &t, NULL); break; }
	default: break;
	}
}
static unsigned nxt(unsigned *r) { *r = *r * 1103515245u + 12345u; return *r >> 16; }

/* ---- monitored lock -------------------------------------------------- */
#define NLOCK 2
struct mon {
	struct mutex_handle m;
	struct condvar_handle c;
	int excl, shared;           /* kept by the monitor */
	long guarded;               /* plain: a race detector watches it */
	long shadow;                /* the same, atomic */
	long epoch;                 /* wakes so far (under the lock) */
	int waiting;                /* threads in a wait (under the lock) */
};
static struct mon L[NLOCK];
static long n_excl, n_shared, n_overlap, n_wait, n_timed, n_timeout, n_wake1, n_wakeall, n_wait_reader;
static uint64_t trace_hash[64];
static long n_ops;
#define ADD(x, n) __atomic_add_fetch(&(x), n, __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)

static void in_excl(struct mon *k, const char *how)
{
	int e = ADD(k->excl, 1), s = GET(k->shared);
	if (e != 1) viol(how, "%ld exclusive holders at once (%ld shared)", e, s);
	if (s != 0) viol(how, "exclusive holder while held shared by %ld (%ld exclusive)", s, e);
}
static void out_excl(struct mon *k, const char *how)
{
	int s = GET(k->shared), e = GET(k->excl);
	if (s != 0 || e != 1) viol(how, "before releasing an exclusive lock: %ld shared, %ld exclusive", s, e);
	ADD(k->excl, -1);
}
static void in_shared(struct mon *k)
{
	int s = ADD(k->shared, 1), e = GET(k->excl);
	if (e != 0) viol("shared-with-exclusive", "shared holder while held exclusively by %ld (%ld shared)", e, s);
	if (s > 1) ADD(n_overlap, 1);
}
static void out_shared(struct mon *k)
{
	int e = GET(k->excl), s = ADD(k->shared, -1);
	if (e != 0) viol("shared-with-exclusive", "before releasing a shared lock: held exclusively by %ld (%ld more shared)", e, s);
}
static void touch(struct mon *k, unsigned *r)
{
	long a = k->guarded;
	ADD(n_excl, 1);
	spin(r, 0);
	if (k->guarded != a) viol("torn", "guarded value changed from %ld to %ld under an exclusive lock", a, k->guarded);
	k->guarded = a + 1;
	__atomic_store_n(&k->shadow, a + 1, __ATOMIC_SEQ_CST);
}

static volatile int phase_over;
static long per_thread, nthreads;
struct th { pthread_t t; unsigned r; int id, done; long at; uint64_t h; };

static void *stress(void *p)
{
	struct th *me = p;
	long i;
	for (i = 0; i < per_thread; i++) {
		struct mon *k = &L[nxt(&me->r) % NLOCK];
		unsigned op = nxt(&me->r) % 16;
		__atomic_store_n(&me->at, i, __ATOMIC_RELAXED);
		spin(&me->r, 1);
		me->h = me->h * 1099511628211ull ^ (uint64_t)(op | (GET(k->shared) << 4) | (GET(k->excl) << 10));
		if (op < 5) {
			mutex_lock(&k->m);
			in_excl(k, "exclusive");
			touch(k, &me->r);
			out_excl(k, "exclusive");
			mutex_unlock(&k->m);
		} else if (op < 11) {
			long a, b;
			mutex_lock_shared(&k->m);
			in_shared(k);
			ADD(n_shared, 1);
			a = k->guarded;
			spin(&me->r, 0);
			b = k->guarded;
			if (a != b) viol("torn-shared", "guarded value changed from %ld to %ld under a shared lock", a, b);
			out_shared(k);
			mutex_unlock_shared(&k->m);
		} else if (op < 14) {
			/* wait, timed so that the end of the test does not strand anybody */
			int ret;
			unsigned ms = 1 + nxt(&me->r) % 8;
			long ep, sh;
			double t0, t1;
			mutex_lock(&k->m);
			in_excl(k, "exclusive");
			touch(k, &me->r);
			ep = k->epoch;
			k->waiting++;
			out_excl(k, "exclusive");
			t0 = now(CLOCK_MONOTONIC);
			if (op == 13 || phase_over) {
				ret = condvar_wait_time(&k->c, &k->m, ms);
				t1 = now(CLOCK_MONOTONIC);
				in_excl(k, "after-timed-wait");
				ADD(n_timed, 1);
				if (ret == 1) {
					ADD(n_timeout, 1);
					if (t1 - t0 < ms * 0.999 / 1000.0 - 0.0005)
						viol("early-timeout", "timeout of %ld ms reported after %ld us", ms, (long)((t1 - t0) * 1e6));
				} else if (ret != 0)
					viol("wait-error", "timed wait returned %ld (%ld)", ret, 0);
			} else {
				/* untimed; a helper keeps waking while anybody waits */
				ret = condvar_wait(&k->c, &k->m);
				in_excl(k, "after-wait");
				ADD(n_wait, 1);
				if (ret != 0) viol("wait-error", "wait returned %ld (%ld)", ret, 0);
				if (k->epoch == ep && 0) viol("spurious", "%ld %ld", 0, 0);
			}
			sh = k->guarded;
			touch(k, &me->r);
			(void)sh;
			k->waiting--;
			out_excl(k, "after-wait");
			mutex_unlock(&k->m);
		} else {
			mutex_lock(&k->m);
			in_excl(k, "exclusive");
			k->epoch++;
			if (op == 14) { condvar_wake_one(&k->c); ADD(n_wake1, 1); }
			else { condvar_wake_all(&k->c); ADD(n_wakeall, 1); }
			touch(k, &me->r);
			out_excl(k, "exclusive");
			mutex_unlock(&k->m);
		}
		ADD(n_ops, 1);
	}
	__atomic_store_n(&me->done, 1, __ATOMIC_SEQ_CST);
	return NULL;
}

static int all_done(struct th *t, int n)
{ int i, d = 0; for (i = 0; i < n; i++) d += GET(t[i].done); return d == n; }

static void do_stress(unsigned seed, int n, long iters)
{
	struct th *t = calloc(n, sizeof(*t));
	double last = now(CLOCK_MONOTONIC);
	long seen = -1;
	int i;
	per_thread = iters;
	nthreads = n;
	for (i = 0; i < n; i++) {
		t[i].r = seed * 7919u + i * 104729u + 1;
		t[i].id = i;
		__real_pthread_create(&t[i].t, NULL, stress, &t[i]);
	}
	while (!all_done(t, n)) {
		struct timespec ts = { 0, 2000000 };
		long ops = GET(n_ops);
		nanosleep(&ts, NULL);
		/* nobody may be left in an untimed wait only for lack of wakers */
		for (i = 0; i < NLOCK; i++) {
			mutex_lock(&L[i].m);
			in_excl(&L[i], "exclusive");
			if (L[i].waiting) { L[i].epoch++; condvar_wake_all(&L[i].c); }
			out_excl(&L[i], "exclusive");
			mutex_unlock(&L[i].m);
		}
		if (ops != seen) { seen = ops; last = now(CLOCK_MONOTONIC); }
		else if (now(CLOCK_MONOTONIC) - last > 30) {
			viol("stuck", "no progress after %ld operations although waiters are being woken (%ld threads)", ops, n);
			fflush(stdout);
			_exit(3);
		}
	}
	for (i = 0; i < n; i++) {
		pthread_join(t[i].t, NULL);
		trace_hash[i % 64] ^= t[i].h;
		printf("T %016llx\n", (unsigned long long)t[i].h);
	}
	for (i = 0; i < NLOCK; i++)
		if (L[i].guarded != GET(L[i].shadow)) viol("lost-update", "%ld increments seen instead of %ld", L[i].guarded, L[i].shadow);
	free(t);
}

/* ---- bounded buffer: each item is taken exactly once; one wake per item ---- */
static struct { struct mutex_handle m; struct condvar_handle c; int q[64]; int head, tail; unsigned char *taken; long total; long consumed; int stop; } B;
static void *consumer(void *p)
{
	struct th *me = p;
	for (;;) {
		int v;
		mutex_lock(&B.m);
		while (B.head == B.tail && !B.stop) condvar_wait(&B.c, &B.m);
		if (B.head == B.tail) { mutex_unlock(&B.m); break; }
		v = B.q[B.head++ % 64];
		spin(&me->r, 0);
		B.taken[v]++;
		B.consumed++;
		mutex_unlock(&B.m);
		spin(&me->r, 1);
	}
	me->done = 1;
	return NULL;
}
static void *peeker(void *p)
{
	struct th *me = p;
	while (!GET(B.stop)) {
		int a, b;
		mutex_lock_shared(&B.m);
		a = B.tail - B.head;
		spin(&me->r, 0);
		b = B.tail - B.head;
		if (a != b || a < 0 || a > 64) viol("torn-shared", "queue length changed from %ld to %ld under a shared lock", a, b);
		mutex_unlock_shared(&B.m);
		spin(&me->r, 1);
	}
	me->done = 1;
	return NULL;
}
static void do_queue(unsigned seed, int nc, int np, long total)
{
	struct th *t = calloc(nc + np, sizeof(*t));
	unsigned r = seed + 5;
	long i;
	double last;
	memset(&B, 0, sizeof(B));
	mutex_init(&B.m); condvar_init(&B.c);
	B.taken = calloc(total, 1);
	B.total = total;
	for (i = 0; i < nc + np; i++) {
		t[i].r = seed * 31u + (unsigned)i * 977u;
		__real_pthread_create(&t[i].t, NULL, i < nc ? consumer : peeker, &t[i]);
	}
	last = now(CLOCK_MONOTONIC);
	for (i = 0; i < total;) {
		mutex_lock(&B.m);
		if (B.tail - B.head < 64) {
			B.q[B.tail++ % 64] = (int)i++;
			condvar_wake_one(&B.c);
			last = now(CLOCK_MONOTONIC);
		}
		mutex_unlock(&B.m);
		spin(&r, 1);
		if (now(CLOCK_MONOTONIC) - last > 30) { viol("lost-wake", "consumers sleep although %ld items are queued (%ld made)", B.tail - B.head, i); fflush(stdout); _exit(3); }
	}
	for (;;) {
		int left;
		mutex_lock(&B.m); left = B.tail - B.head; mutex_unlock(&B.m);
		if (!left) break;
		usleep(500);
		if (now(CLOCK_MONOTONIC) - last > 30) { viol("lost-wake", "consumers sleep although %ld items are queued (%ld made)", left, i); fflush(stdout); _exit(3); }
	}
	mutex_lock(&B.m);
	__atomic_store_n(&B.stop, 1, __ATOMIC_SEQ_CST);
	condvar_wake_all(&B.c);
	mutex_unlock(&B.m);
	last = now(CLOCK_MONOTONIC);
	for (i = 0; i < nc + np; i++) {
		struct timespec ts;
		__real_clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 30;
		if (pthread_timedjoin_np(t[i].t, NULL, &ts) != 0) { viol("wake-all", "thread %ld of %ld was not woken by wake-all", i, nc + np); fflush(stdout); _exit(3); }
	}
	for (i = 0; i < total; i++)
		if (B.taken[i] != 1) viol("item-count", "item %ld was taken %ld times", i, B.taken[i]);
	mutex_free(&B.m); condvar_free(&B.c);
	free(B.taken); free(t);
}

/* ---- directed situations ------------------------------------------------- */
static struct { struct mutex_handle m; struct condvar_handle c; int state, returned, go, order; int inside; } D;
static void nap(long us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; nanosleep(&t, NULL); }
static int until(int *v, int want, double secs)
{
	double end = now(CLOCK_MONOTONIC) + secs;
	while (GET(*v) != want) { if (now(CLOCK_MONOTONIC) > end) return 0; nap(100); }
	return 1;
}
static void *d_reader(void *p)
{
	(void)p;
	mutex_lock_shared(&D.m);
	ADD(D.inside, 1);
	while (GET(D.go) == 0) nap(50);
	ADD(D.inside, -1);
	mutex_unlock_shared(&D.m);
	return NULL;
}
static void *d_crowd(void *p)
{
	mutex_lock_shared(&D.m);
	ADD(D.inside, 1);
	while (GET(D.go) <= (int)(long)p) nap(200);
	ADD(D.inside, -1);
	mutex_unlock_shared(&D.m);
	return NULL;
}
static void *d_writer(void *p)
{
	(void)p;
	mutex_lock(&D.m);
	if (GET(D.inside)) viol("exclusive", "exclusive lock granted with %ld shared holders (%ld)", D.inside, 0);
	ADD(D.state, 1);
	mutex_unlock(&D.m);
	return NULL;
}
static void *d_waiter(void *p)
{
	long timed = (long)p;
	int r;
	mutex_lock(&D.m);
	ADD(D.order, 1);
	r = timed ? condvar_wait_time(&D.c, &D.m, 25000) : condvar_wait(&D.c, &D.m);
	if (r != 0) viol("wait-error", "a woken wait returned %ld (timed: %ld)", r, timed);
	if (GET(D.inside)) viol(timed ? "after-timed-wait" : "after-wait", "a wait returned while the lock is held shared by %ld (%ld)", D.inside, 0);
	ADD(D.returned, 1);
	nap(300);
	if (GET(D.inside)) viol(timed ? "after-timed-wait" : "after-wait", "lock held shared by %ld during exclusive ownership after a wait (%ld)", D.inside, 0);
	mutex_unlock(&D.m);
	return NULL;
}
static void *d_timeouter(void *p)
{
	double t0;
	int r;
	mutex_lock(&D.m);
	ADD(D.order, 1);
	t0 = now(CLOCK_MONOTONIC);
	r = condvar_wait_time(&D.c, &D.m, (uint32_t)(long)p);
	if (r != 1) viol("timeout-return", "an unwoken timed wait returned %ld (%ld)", r, 0);
	if (now(CLOCK_MONOTONIC) - t0 < (long)p * 0.999 / 1000.0 - 0.0005) viol("early-timeout", "timeout of %ld ms reported after %ld us", (long)p, (long)((now(CLOCK_MONOTONIC) - t0) * 1e6));
	if (GET(D.inside)) viol("after-timed-wait", "a timed wait returned while the lock is held shared by %ld (%ld)", D.inside, 0);
	ADD(D.returned, 1);
	mutex_unlock(&D.m);
	return NULL;
}
static void must_join(pthread_t t, const char *key, long a)
{
	struct timespec ts;
	__real_clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 30;
	if (pthread_timedjoin_np(t, NULL, &ts) != 0) { viol(key, "a thread stayed blocked (%ld, %ld)", a, 0); fflush(stdout); _exit(3); }
}
static void directed(unsigned seed)
{
	pthread_t a, b, c, w[6];
	long i;
	long n;
	unsigned r = seed;
	/* shared holders overlap, a writer waits for the last of them */
	memset(&D, 0, sizeof(D)); mutex_init(&D.m); condvar_init(&D.c);
	__real_pthread_create(&a, NULL, d_reader, NULL);
	__real_pthread_create(&b, NULL, d_reader, NULL);
	if (!until(&D.inside, 2, 30)) viol("no-overlap", "two shared holders do not overlap (%ld, %ld)", D.inside, 0);
	__real_pthread_create(&c, NULL, d_writer, NULL);
	nap(1500);
	if (GET(D.state)) viol("exclusive", "exclusive lock granted with %ld shared holders (%ld)", D.inside, 0);
	__atomic_store_n(&D.go, 1, __ATOMIC_SEQ_CST);
	must_join(a, "stuck", 1); must_join(b, "stuck", 2); must_join(c, "stuck", 3);
	if (!D.state) viol("stuck", "writer never ran (%ld, %ld)", 0, 0);
	/* a crowd of shared holders who leave one by one, and several writers waiting */
	for (n = 0; n < 3; n++) {
		static const int crowd[] = { 9, 33, 270 };
		pthread_t cr[270], wr[3];
		int k = crowd[n] - (int)(nxt(&r) % 3);
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 256 * 1024);
		D.go = D.inside = D.state = 0;
		for (i = 0; i < k; i++) __real_pthread_create(&cr[i], &at, d_crowd, (void *)i);
		if (!until(&D.inside, k, 30)) viol("no-overlap", "only %ld of %ld shared holders at once", D.inside, k);
		for (i = 0; i < 3; i++) __real_pthread_create(&wr[i], &at, d_writer, NULL);
		nap(500);
		for (i = 1; i < k; i++) {
			__atomic_store_n(&D.go, (int)i, __ATOMIC_SEQ_CST);
			if (i > k - 4) nap(1500);
			if (GET(D.state)) viol("exclusive", "exclusive lock granted with at least one of %ld shared holders left (%ld)", k, k - i);
		}
		if (!until(&D.inside, 1, 30)) viol("stuck", "%ld shared holders left instead of 1 of %ld", D.inside, k);
		nap(1000);
		if (GET(D.state)) viol("exclusive", "exclusive lock granted with one of %ld shared holders left (%ld)", k, 1);
		__atomic_store_n(&D.go, k, __ATOMIC_SEQ_CST);
		for (i = 0; i < k; i++) must_join(cr[i], "stuck", i);
		for (i = 0; i < 3; i++) must_join(wr[i], "stuck", 1000 + i);
		if (D.state != 3) viol("stuck", "%ld of %ld writers ran", D.state, 3);
		pthread_attr_destroy(&at);
	}
	/* wake one / wake all with shared holders present, plain and timed */
	for (n = 1; n <= 5; n += 2) {
		int timed;
		for (timed = 0; timed < 2; timed++) {
			D.order = D.returned = D.go = D.inside = 0;
			for (i = 0; i < n; i++) __real_pthread_create(&w[i], NULL, d_waiter, (void *)(long)timed);
			if (!until(&D.order, (int)n, 30)) viol("wait-holds-lock", "waiting does not release the lock (%ld of %ld threads waiting)", D.order, n);
			/* the lock is free while they wait: this must not block */
			mutex_lock(&D.m); mutex_unlock(&D.m);
			/* hold it shared, wake from there: nobody may return before release */
			mutex_lock_shared(&D.m);
			ADD(D.inside, 1);
			if (n == 1) condvar_wake_one(&D.c); else condvar_wake_all(&D.c);
			nap(500 + nxt(&r) % 1500);
			if (GET(D.returned)) viol(timed ? "after-timed-wait" : "after-wait", "%ld waits returned while the lock was held shared (%ld)", D.returned, 0);
			ADD(D.inside, -1);
			mutex_unlock_shared(&D.m);
			for (i = 0; i < n; i++) must_join(w[i], n == 1 ? "wake-one" : "wake-all", n);
			ADD(n_wait_reader, 1);
		}
	}
	/* several wake-one calls end as many waits */
	D.order = D.returned = 0;
	for (i = 0; i < 4; i++) __real_pthread_create(&w[i], NULL, d_waiter, NULL);
	if (!until(&D.order, 4, 30)) viol("wait-holds-lock", "%ld of %ld threads waiting", D.order, 4);
	mutex_lock(&D.m); mutex_unlock(&D.m);
	for (i = 0; i < 4; i++) {
		int before = GET(D.returned);
		condvar_wake_one(&D.c);
		if (GET(D.returned) < 4 && before <= (int)i) {
			double end = now(CLOCK_MONOTONIC) + 30;
			while (GET(D.returned) <= (int)i && now(CLOCK_MONOTONIC) < end) nap(100);
			if (GET(D.returned) <= (int)i) viol("wake-one", "wake-one number %ld ended no wait (%ld returned)", i + 1, D.returned);
		}
	}
	for (i = 0; i < 4; i++) must_join(w[i], "wake-one", 4);
	/* timeouts of various lengths, around second boundaries too, with a shared holder at the end */
	for (i = 0; i < 4; i++) {
		static const long ms[] = { 1, 20, 90, 999 };
		long m = i == 3 ? ms[3 - (seed & 1)] + (seed % 20) : ms[i] + seed % 7;
		D.order = D.returned = D.inside = 0;
		__real_pthread_create(&a, NULL, d_timeouter, (void *)m);
		until(&D.order, 1, 30);
		mutex_lock(&D.m); mutex_unlock(&D.m);
		nap(m > 5 ? m * 500 : 0);
		mutex_lock_shared(&D.m);
		ADD(D.inside, 1);
		nap(m * 1000 / 2 + 3000);
		ADD(D.inside, -1);
		mutex_unlock_shared(&D.m);
		must_join(a, "timeout-stuck", m);
		ADD(n_timeout, 1);
	}
	mutex_free(&D.m); condvar_free(&D.c);
}

/* the wall clock is set while threads wait: no wait ends for that */
static long n_steps;
static void clocked(unsigned seed)
{
	static const long steps[] = { -3600, 3600, -31536000, 31536000, -7, 86400, -1, 1 };
	pthread_t a[4], b;
	unsigned r = seed;
	long i, k;
	memset(&D, 0, sizeof(D)); mutex_init(&D.m); condvar_init(&D.c);
	vf_clock(0);
	for (k = 0; k < 3; k++) {
		long st = steps[k < 2 ? k : (long)(nxt(&r) % 8)];
		/* waits which run out, and one which is woken */
		D.order = D.returned = D.inside = 0;
		for (i = 0; i < 4; i++) __real_pthread_create(&a[i], NULL, d_timeouter, (void *)(120 + i * 130 + (long)(nxt(&r) % 60)));
		if (!until(&D.order, 4, 30)) viol("wait-holds-lock", "%ld of %ld threads waiting", D.order, 4);
		mutex_lock(&D.m); mutex_unlock(&D.m);
		nap(nxt(&r) % 100000);
		vf_clock(st);
		for (i = 0; i < 4; i++) must_join(a[i], "timeout-stuck", st);
		ADD(n_timeout, 4);
		vf_clock(0);
		D.order = D.returned = 0;
		__real_pthread_create(&b, NULL, d_waiter, (void *)1L);
		if (!until(&D.order, 1, 30)) viol("wait-holds-lock", "%ld of %ld threads waiting", D.order, 1);
		mutex_lock(&D.m); mutex_unlock(&D.m);
		nap(nxt(&r) % 20000);
		vf_clock(st);
		nap(30000);
		if (GET(D.returned)) viol("early-timeout", "setting the clock by %ld s ended a wait of 25 s (%ld)", st, D.returned);
		condvar_wake_all(&D.c);
		must_join(b, "wake-all", st);
		vf_clock(0);
		ADD(n_steps, 4);
	}
	mutex_free(&D.m); condvar_free(&D.c);
}

int main(int argc, char **argv)
{
	unsigned seed = argc > 1 ? (unsigned)atoi(argv[1]) : 1;
	int n = argc > 2 ? atoi(argv[2]) : 8;
	long iters = argc > 3 ? atol(argv[3]) : 2000;
	int i;
	for (i = 0; i < NLOCK; i++) { mutex_init(&L[i].m); condvar_init(&L[i].c); }
	directed(seed);
	clocked(seed);
	do_stress(seed, n, iters);
	do_queue(seed, 1 + n / 2, 2, iters);
	for (i = 0; i < NLOCK; i++) { mutex_free(&L[i].m); condvar_free(&L[i].c); }
	printf("S exclusive %ld\nS shared %ld\nS shared_overlaps %ld\nS waits %ld\nS timed_waits %ld\nS timeouts %ld\nS wake_one %ld\nS wake_all %ld\nS waits_ended_under_shared %ld\nS queue_items %ld\nS delays %ld\nS clock_steps %ld\n",
	       n_excl, n_shared, n_overlap, n_wait, n_timed, n_timeout, n_wake1, n_wakeall, n_wait_reader, iters, vf_ctl.n_delay, n_steps);
	printf("DONE\n");
	return nviol ? 1 : 0;
}
