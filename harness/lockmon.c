/*
 * Monitor of the locks of the code under test, at the interface of mutex.h:
 * learns the order in which locks are nested and reports
 *  - cycles in that order which can deadlock: different threads, each hop
 *    blocking (one side exclusive), no common lock held that prevents it;
 *    waiting for a worker counts as acquiring what its thread holds
 *  - releases of locks not held, waits without the lock, locks freed while
 *    held, threads ending with a lock held, and overlapping holders
 * Built without instrumentation and using a lock of its own which the race
 * detector does not see.  Off unless asked for.
 */
#define _GNU_SOURCE
#include "wrap.h"
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "thread.h"
struct worker_handle;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
#define NN 65536
#define NE 60000
#define NH 12
#define SH 0
#define EX 1

int vf_lockmon;
static volatile int spin;
static void lk(void) { while (__atomic_exchange_n(&spin, 1, __ATOMIC_ACQUIRE)) __builtin_ia32_pause(); }
static void ulk(void) { __atomic_store_n(&spin, 0, __ATOMIC_RELEASE); }

struct node { const void *key; int id; int ex, sh; } *nodes;     /* open addressing */
static int nnodes, nextid = 1;
struct held { int id, mode; const void *ra; const void *key; };
struct edge { int from, to, tid, nh, next; signed char mf, mt; struct held h[NH]; const void *ra_from, *ra_to; } *edges;
static int nedges, nfree = -1, *heads;                            /* by from id, hashed */
#define HB 16384
static long n_acq, n_edges, n_checks, n_max;
static int ntid;
static char report[12][900];
static int nreport;
static __thread struct held H[NH];
static __thread int nh, tid;
extern const char __executable_start[];

/* everything here is spelt out: library functions are watched by the race detector */
static char *put(char *o, const char *e, const char *t) { while (*t && o < e - 1) *o++ = *t++; *o = 0; return o; }
static char *puthex(char *o, const char *e, unsigned long v)
{
	int sh = 60;
	while (sh > 0 && !((v >> sh) & 15)) sh -= 4;
	for (; sh >= 0 && o < e - 1; sh -= 4) *o++ = "0123456789abcdef"[(v >> sh) & 15];
	*o = 0;
	return o;
}
static void say(const char *kind, const char *detail)
{
	int i, k;
	char *o, *e;
	if (nreport >= 12) return;
	e = report[nreport] + sizeof(report[0]);
	o = put(report[nreport], e, kind);
	o = put(o, e, " ");
	put(o, e, detail);
	for (i = 0; i < nreport; i++) {
		for (k = 0; report[i][k] && report[i][k] == report[nreport][k]; k++) ;
		if (report[i][k] == report[nreport][k]) return;
	}
	nreport++;
}
#define OFF(p) ((unsigned long)((const char *)(p) - __executable_start))

static struct node *find(const void *key, int add)
{
	unsigned i = (unsigned)(((uintptr_t)key >> 3) * 2654435761u) & (NN - 1), n;
	if (!nodes) {
		nodes = __real_calloc(NN, sizeof(*nodes));
		edges = __real_calloc(NE, sizeof(*edges));
		heads = __real_malloc(HB * sizeof(int));
		memset(heads, 0xff, HB * sizeof(int));
	}
	for (n = 0; n < NN; n++, i = (i + 1) & (NN - 1)) {
		if (nodes[i].key == key) return &nodes[i];
		if (nodes[i].key == NULL) break;
	}
	if (!add || nnodes > NN / 2) return NULL;
	nnodes++;
	nodes[i].key = key;
	nodes[i].id = nextid++;
	nodes[i].ex = nodes[i].sh = 0;
	return &nodes[i];
}

static int gated(const struct edge *a, const struct edge *b)
{
	int i, j;
	for (i = 0; i < a->nh; i++)
		for (j = 0; j < b->nh; j++)
			if (a->h[i].id == b->h[j].id && (a->h[i].mode == EX || b->h[j].mode == EX)) return 1;
	return 0;
}

/* extends the path e[0..n) until it returns to e[0]'s origin */
static void search(struct edge **e, int n)
{
	struct edge *last = e[n - 1];
	int i, k;
	n_checks++;
	for (i = heads[last->to % HB]; i >= 0; i = edges[i].next) {
		struct edge *x = &edges[i];
		if (x->from != last->to || !(x->mf == EX || last->mt == EX)) continue;
		for (k = 0; k < n; k++)
			if (e[k]->tid == x->tid || e[k]->to == x->to && x->to != e[0]->from || gated(e[k], x)) break;
		if (k < n) continue;
		if (x->to == e[0]->from) {
			if (x->mt == EX || e[0]->mf == EX) {
				char b[600], *o = b;
				e[n] = x;
				for (k = 0; k <= n; k++) {
					o = puthex(o, b + sizeof(b), OFF(e[k]->ra_from));
					o = put(o, b + sizeof(b), e[k]->mf ? "X>" : "S>");
					o = puthex(o, b + sizeof(b), OFF(e[k]->ra_to));
					o = put(o, b + sizeof(b), e[k]->mt ? "X;" : "S;");
				}
				say("cycle", b);
			}
			continue;
		}
		if (n < 3) { e[n] = x; search(e, n + 1); }
	}
}

static void add_edges(int id, int mode, const void *ra)
{
	int i, j, k;
	for (i = 0; i < nh; i++) {
		struct edge *x, *path[5];
		struct held g[NH];
		int ng = 0;
		if (H[i].id == id) continue;
		for (j = 0; j < nh; j++)
			if (j != i && H[j].id != id) g[ng++] = H[j];
		for (k = heads[H[i].id % HB]; k >= 0; k = edges[k].next)
			if (edges[k].from == H[i].id && edges[k].to == id && edges[k].mf == H[i].mode && edges[k].mt == mode && edges[k].tid == tid &&
			    edges[k].nh <= ng) break;
		if (k >= 0) continue;
		if (nfree >= 0) { k = nfree; nfree = edges[k].next; }
		else if (nedges < NE) k = nedges++;
		else continue;
		n_edges++;
		x = &edges[k];
		x->from = H[i].id; x->to = id; x->mf = H[i].mode; x->mt = mode; x->tid = tid;
		x->ra_from = H[i].ra; x->ra_to = ra;
		x->nh = ng;
		for (j = 0; j < ng; j++) x->h[j] = g[j];
		x->next = heads[x->from % HB];
		heads[x->from % HB] = k;
		path[0] = x;
		search(path, 1);
	}
}

static void forget(int id)
{
	int b;
	/* edges from it are in one chain, edges to it in those of whoever held others */
	for (b = 0; b < HB; b++) {
		int *p = &heads[b];
		while (*p >= 0) {
			struct edge *x = &edges[*p];
			if (x->from == id || x->to == id) {
				int k = *p;
				*p = x->next;
				x->next = nfree; nfree = k;
				x->from = x->to = 0;
			} else p = &x->next;
		}
	}
}

static void bad(const char *kind, const void *ra)
{
	char b[40];
	put(puthex(b, b + sizeof(b), OFF(ra)), b + sizeof(b), ";");
	say(kind, b);
}

static void self(void) { if (!tid) tid = ++ntid; }

static void before(const void *m, int mode, const void *ra)
{
	struct node *n;
	lk();
	self();
	n_acq++;
	n = find(m, 1);
	if (n) {
		int i;
		for (i = 0; i < nh; i++)
			if (H[i].id == n->id && (mode == EX || H[i].mode == EX)) bad("locked-again", ra);
		if (nh) add_edges(n->id, mode, ra);
	}
	ulk();
}

static void after(const void *m, int mode, const void *ra)
{
	struct node *n;
	lk();
	self();
	n = find(m, 1);
	if (n) {
		if (n->ex || (mode == EX && n->sh)) bad("overlapping-holders", ra);
		if (mode == EX) n->ex++; else n->sh++;
		if (nh < NH - 1) { H[nh].id = n->id; H[nh].mode = mode; H[nh].ra = ra; H[nh].key = m; nh++; }
		if (nh > n_max) n_max = nh;
	}
	ulk();
}

static void release(const void *m, int mode, const void *ra)
{
	struct node *n;
	int i;
	lk();
	n = find(m, 0);
	for (i = nh - 1; i >= 0; i--)
		if (n && H[i].id == n->id && H[i].mode == mode) break;
	if (i < 0) bad("not-held", ra);
	else { for (; i < nh - 1; i++) H[i] = H[i + 1]; nh--; }
	if (n) { if (mode == EX) { if (n->ex) n->ex--; } else if (n->sh) n->sh--; }
	ulk();
}

#define RA __builtin_return_address(0)
#define W __attribute__((weak))
int W __real_mutex_lock(struct mutex_handle *); int W __real_mutex_lock_shared(struct mutex_handle *);
int W __real_mutex_unlock(struct mutex_handle *); int W __real_mutex_unlock_shared(struct mutex_handle *);
int W __real_mutex_init(struct mutex_handle *); void W __real_mutex_free(struct mutex_handle *);
int W __real_condvar_wait(struct condvar_handle *, struct mutex_handle *);
int W __real_condvar_wait_time(struct condvar_handle *, struct mutex_handle *, uint32_t);
int W __real_worker_wait_idle(struct worker_handle *); int W __real_worker_join(struct worker_handle *);
void W __real_worker_free(struct worker_handle *);

int __wrap_mutex_lock(struct mutex_handle *m)
{
	int r;
	if (!vf_lockmon) return __real_mutex_lock(m);
	before(m, EX, RA);
	r = __real_mutex_lock(m);
	if (r == 0) after(m, EX, RA);
	return r;
}
int __wrap_mutex_lock_shared(struct mutex_handle *m)
{
	int r;
	if (!vf_lockmon) return __real_mutex_lock_shared(m);
	before(m, SH, RA);
	r = __real_mutex_lock_shared(m);
	if (r == 0) after(m, SH, RA);
	return r;
}
int __wrap_mutex_unlock(struct mutex_handle *m)
{
	if (vf_lockmon) release(m, EX, RA);
	return __real_mutex_unlock(m);
}
int __wrap_mutex_unlock_shared(struct mutex_handle *m)
{
	if (vf_lockmon) release(m, SH, RA);
	return __real_mutex_unlock_shared(m);
}
int __wrap_mutex_init(struct mutex_handle *m) { return __real_mutex_init(m); }
void __wrap_mutex_free(struct mutex_handle *m)
{
	if (vf_lockmon) {
		struct node *n;
		lk();
		n = find(m, 0);
		if (n && n->id) {
			if (n->ex || n->sh) bad("freed-while-held", RA);
			forget(n->id);
			n->id = nextid++;
			n->ex = n->sh = 0;
		}
		ulk();
	}
	__real_mutex_free(m);
}
static int cwait(struct condvar_handle *c, struct mutex_handle *m, int timed, uint32_t t, const void *ra)
{
	int r, i;
	if (timed && vf_ctl.hurry > 1 && t >= 5000) {
		if ((long)t > vf_ctl.hurry_max) vf_ctl.hurry_max = t;
		r = __real_condvar_wait_time(c, m, t / (uint32_t)vf_ctl.hurry);
		if (r == 1) {
			__atomic_add_fetch(&vf_ctl.hurry_ms, (long)t, __ATOMIC_RELAXED);
			__atomic_add_fetch(&vf_ctl.n_hurry, 1, __ATOMIC_RELAXED);
		}
		return r;
	}
	if (!vf_lockmon) return timed ? __real_condvar_wait_time(c, m, t) : __real_condvar_wait(c, m);
	release(m, EX, ra);
	/* coming back acquires it while holding the others */
	before(m, EX, ra);
	r = timed ? __real_condvar_wait_time(c, m, t) : __real_condvar_wait(c, m);
	after(m, EX, ra);
	(void)i;
	return r;
}
int __wrap_condvar_wait(struct condvar_handle *c, struct mutex_handle *m) { return cwait(c, m, 0, 0, RA); }
int __wrap_condvar_wait_time(struct condvar_handle *c, struct mutex_handle *m, uint32_t t) { return cwait(c, m, 1, t, RA); }

static void waits(const void *w, const void *ra)
{
	struct node *n;
	if (!vf_lockmon || nh == 0 || w == NULL) return;
	lk();
	self();
	n = find(w, 1);
	if (n && H[0].key != w) add_edges(n->id, EX, ra);
	ulk();
}
int __wrap_worker_wait_idle(struct worker_handle *w) { waits(w, RA); return __real_worker_wait_idle(w); }
int __wrap_worker_join(struct worker_handle *w) { waits(w, RA); return __real_worker_join(w); }
void __wrap_worker_free(struct worker_handle *w) { waits(w, RA); __real_worker_free(w); }

/* a worker's thread holds what others wait for when they wait for the worker */
struct start { void *(*f)(void *); void *c; };
static void *begin(void *p)
{
	struct start s = *(struct start *)p;
	const struct thread_handle *th = s.c;
	const void *w = th && th->func_ptr == s.f ? th->func_ctx : NULL;
	struct node *n;
	void *r;
	int i;
	free(p);
	lk();
	self();
	n = w ? find(w, 1) : NULL;
	if (n) { H[0].id = n->id; H[0].mode = EX; H[0].ra = (const void *)s.f; H[0].key = w; nh = 1; }
	ulk();
	r = s.f(s.c);
	lk();
	for (i = 0; i < nh; i++)
		if (H[i].key != w) bad("thread-ends-holding", H[i].ra);
	nh = 0;
	ulk();
	return r;
}
void *vf_lockmon_start(void *(*f)(void *), void *c)
{
	struct start *s = __real_malloc(sizeof(*s));
	s->f = f; s->c = c;
	return s;
}
void *(*vf_lockmon_begin)(void *) = begin;

int vf_lockmon_dump(char *o, int max)
{
	int i;
	lk();
	snprintf(o, max, "\"acquisitions\":%ld,\"edges\":%ld,\"checks\":%ld,\"depth\":%ld,\"reports\":[", n_acq, n_edges, n_checks, n_max);
	for (i = 0; i < nreport; i++)
		snprintf(o + strlen(o), max - strlen(o), "%s\"%s\"", i ? "," : "", report[i]);
	snprintf(o + strlen(o), max - strlen(o), "]");
	ulk();
	return nreport;
}
