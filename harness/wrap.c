/*
 * Monitor and perturbation layer at the boundary between the code under test
 * and the C library, linked with -Wl,--wrap=... : short transfers, delays at
 * synchronisation points, single-failure injection, descriptor life-time
 * monitoring, redirection of the registration host, capture of syslog calls.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "wrap.h"

struct vf_ctl vf_ctl = { .short_max = 7, .delay_us = 200 };
const char *const vf_class_name[VC_N] = {
	"alloc", "thread", "lockinit", "socket", "sockopt", "bind", "listen",
	"accept", "connect", "resolve", "send", "recv", "fopen", "fork",
	"process", "udpsend"
};
static uint64_t seed0 = 88172645463325252ull;
static __thread uint64_t rng;
static long thread_no;
static char syslog_path[256];

#define NOSAN __attribute__((no_sanitize("address", "undefined", "thread")))

void vf_seed(uint64_t s) { seed0 = s * 0x9E3779B97F4A7C15ull + 1; }

NOSAN static uint32_t rnd(void)
{
	if (rng == 0)
		rng = (seed0 ^ (0xD1342543DE82EF95ull *
			(uint64_t)(__atomic_add_fetch(&thread_no, 1, __ATOMIC_RELAXED) + 1))) | 1;
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return (uint32_t)(rng >> 16);
}

#define INC(x) __atomic_add_fetch(&(x), 1, __ATOMIC_RELAXED)

NOSAN static void maybe_delay(void)
{
	int pm = vf_ctl.delay_pm;
	int e = errno;
	if (pm > 0 && (int)(rnd() % 1000) < pm) {
		struct timespec ts = { 0, 0 };
		int us = vf_ctl.delay_us > 0 ? (int)(rnd() % (unsigned)vf_ctl.delay_us) : 0;
		INC(vf_ctl.n_delay);
		ts.tv_nsec = us * 1000L;
		if (ts.tv_nsec >= 1000000000L) ts.tv_nsec = 999999999L;
		syscall(SYS_nanosleep, &ts, NULL);
	}
	errno = e;
}

NOSAN static int should_fail(enum vf_class c, const char *fn)
{
	if ((vf_ctl.slow_mask & (1u << c)) && vf_ctl.slow_us > 0) {
		struct timespec ts = { vf_ctl.slow_us / 1000000, (vf_ctl.slow_us % 1000000) * 1000L };
		int e = errno;
		INC(vf_ctl.n_delay);
		syscall(SYS_nanosleep, &ts, NULL);
		errno = e;
	}
	if (vf_ctl.err_pm > 0 && (vf_ctl.err_mask & (1u << c)) && (int)(rnd() % 1000) < vf_ctl.err_pm) {
		INC(vf_ctl.n_err);
		return 1;
	}
	if (!vf_ctl.armed)
		return 0;
	INC(vf_ctl.class_count[c]);
	if (!(vf_ctl.fail_mask & (1u << c)))
		return 0;
	if (INC(vf_ctl.fail_count) == vf_ctl.fail_at) {
		INC(vf_ctl.fail_hits);
		vf_ctl.fail_class = c;
		strncpy(vf_ctl.fail_func, fn, sizeof(vf_ctl.fail_func) - 1);
		return 1;
	}
	return 0;
}

/* ---- memory ---------------------------------------------------------- */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n)
{ if (should_fail(VC_ALLOC, "malloc")) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m)
{ if (should_fail(VC_ALLOC, "calloc")) { errno = ENOMEM; return NULL; } return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n)
{ if (should_fail(VC_ALLOC, "realloc")) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
char *__wrap_strdup(const char *s)
{ if (should_fail(VC_ALLOC, "strdup")) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n)
{ if (should_fail(VC_ALLOC, "strndup")) { errno = ENOMEM; return NULL; } return __real_strndup(s, n); }

/* ---- the regular expression library allocates by itself ---------------- */
void *__real_pcre2_compile_8(const unsigned char *, size_t, unsigned, int *, size_t *, void *);
void *__wrap_pcre2_compile_8(const unsigned char *p, size_t n, unsigned o, int *e, size_t *eo, void *c)
{ if (should_fail(VC_ALLOC, "pcre2_compile")) { *e = 121; *eo = 0; return NULL; } return __real_pcre2_compile_8(p, n, o, e, eo, c); }
void *__real_pcre2_match_data_create_from_pattern_8(const void *, void *);
void *__wrap_pcre2_match_data_create_from_pattern_8(const void *p, void *c)
{ if (should_fail(VC_ALLOC, "pcre2_match_data_create_from_pattern")) return NULL; return __real_pcre2_match_data_create_from_pattern_8(p, c); }
int __real_pcre2_match_8(const void *, const unsigned char *, size_t, size_t, unsigned, void *, void *);
int __wrap_pcre2_match_8(const void *c, const unsigned char *s, size_t n, size_t st, unsigned o, void *m, void *x)
{ if (should_fail(VC_ALLOC, "pcre2_match")) return -48; return __real_pcre2_match_8(c, s, n, st, o, m, x); }

/* ---- threads and locks ------------------------------------------------ */
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *c)
{
	if (should_fail(VC_THREAD, "pthread_create")) return EAGAIN;
	maybe_delay();
	if (vf_lockmon) {
		void *s = vf_lockmon_start(f, c);
		int r = __real_pthread_create(t, a, vf_lockmon_begin, s);
		if (r != 0) free(s);
		return r;
	}
	return __real_pthread_create(t, a, f, c);
}
int __real_pthread_attr_init(pthread_attr_t *);
int __wrap_pthread_attr_init(pthread_attr_t *a)
{ if (should_fail(VC_THREAD, "pthread_attr_init")) return ENOMEM; return __real_pthread_attr_init(a); }
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{ if (should_fail(VC_LOCKINIT, "pthread_mutex_init")) return ENOMEM; return __real_pthread_mutex_init(m, a); }
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __wrap_pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *a)
{ if (should_fail(VC_LOCKINIT, "pthread_cond_init")) return ENOMEM; return __real_pthread_cond_init(m, a); }
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	int r = __real_pthread_mutex_destroy(m);
	if (r == EBUSY) INC(vf_ctl.destroy_busy);
	return r;
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	maybe_delay();
	INC(vf_ctl.n_lock);
	return __real_pthread_mutex_lock(m);
}
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int r = __real_pthread_mutex_unlock(m);
	maybe_delay();
	return r;
}

/* ---- a wall clock which is set while the code runs ---------------------- */
/* Time stamps and timed waits by the wall clock see it set forward by
 * vf_ctl.clock_step seconds (from the first call of vf_clock() on); those by the
 * monotonic clock are left alone. A
 * wait in progress is interrupted now and then to look for a step. A wake sent
 * meanwhile makes it end as woken (which may be spurious, as POSIX allows). */
static int clock_used;
static unsigned wakes[1024];
#define CLOCK_STEP __atomic_load_n(&vf_ctl.clock_step, __ATOMIC_SEQ_CST)
#define CLOCK_USED __atomic_load_n(&clock_used, __ATOMIC_SEQ_CST)
#define WAKES(c) wakes[(((uintptr_t)(c)) >> 4) % 1024]
void vf_clock(long step)
{
	__atomic_store_n(&clock_used, 1, __ATOMIC_SEQ_CST);
	__atomic_store_n(&vf_ctl.clock_step, step, __ATOMIC_SEQ_CST);
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	int r = __real_clock_gettime(c, t);
	if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)) t->tv_sec += CLOCK_STEP;
	return r;
}
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z)
{ int r = __real_gettimeofday(t, z); if (r == 0) t->tv_sec += CLOCK_STEP; return r; }
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t)
{ time_t r = __real_time(NULL) + CLOCK_STEP; if (t) *t = r; return r; }
int __real_pthread_cond_signal(pthread_cond_t *);
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{ if (CLOCK_USED) INC(WAKES(c)); return __real_pthread_cond_signal(c); }
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{ if (CLOCK_USED) INC(WAKES(c)); return __real_pthread_cond_broadcast(c); }
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
static int stepwait(pthread_cond_t *c, pthread_mutex_t *m, int clocked, const struct timespec *abs)
{
	unsigned w0 = __atomic_load_n(&WAKES(c), __ATOMIC_SEQ_CST);
	long first = CLOCK_STEP;
	for (;;) {
		struct timespec t = *abs, u;
		int last = 1, r;
		if (CLOCK_STEP != first) { INC(vf_ctl.n_clock); first = CLOCK_STEP; }
		t.tv_sec -= first;
		__real_clock_gettime(CLOCK_REALTIME, &u);
		u.tv_nsec += 10000000;
		if (u.tv_nsec >= 1000000000) { u.tv_nsec -= 1000000000; u.tv_sec++; }
		if (u.tv_sec < t.tv_sec || (u.tv_sec == t.tv_sec && u.tv_nsec < t.tv_nsec)) { t = u; last = 0; }
		r = clocked ? __real_pthread_cond_clockwait(c, m, CLOCK_REALTIME, &t) : __real_pthread_cond_timedwait(c, m, &t);
		if (r != ETIMEDOUT || last) return r;
		if (__atomic_load_n(&WAKES(c), __ATOMIC_SEQ_CST) != w0) return 0;
	}
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *abs)
{ return CLOCK_USED && abs->tv_sec > 1000000000 ? stepwait(c, m, 0, abs) : __real_pthread_cond_timedwait(c, m, abs); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *abs)
{ return CLOCK_USED && k == CLOCK_REALTIME ? stepwait(c, m, 1, abs) : __real_pthread_cond_clockwait(c, m, k, abs); }

/* ---- sockets ----------------------------------------------------------- */
int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p)
{ if (should_fail(VC_SOCKET, "socket")) { errno = vf_ctl.err_no ? vf_ctl.err_no : EMFILE; return -1; } return __real_socket(d, t, p); }
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{ if (should_fail(VC_SOCKOPT, "setsockopt")) { errno = ENOBUFS; return -1; }
  if (vf_ctl.keep_div > 1 && n == sizeof(int) && l == IPPROTO_TCP && (o == TCP_KEEPIDLE || o == TCP_KEEPINTVL || o == TCP_USER_TIMEOUT)) {
	int x;
	memcpy(&x, v, sizeof(x));
	if (x > 0) x = x / vf_ctl.keep_div > 0 ? (int)(x / vf_ctl.keep_div) : 1;
	return __real_setsockopt(fd, l, o, &x, n);
  }
  if (vf_ctl.keep_div > 1 && n == sizeof(struct timeval) && l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) {
	struct timeval t;
	memcpy(&t, v, sizeof(t));
	if (t.tv_sec > 0) { t.tv_sec = t.tv_sec / vf_ctl.keep_div > 0 ? t.tv_sec / vf_ctl.keep_div : 1; t.tv_usec = 0; }
	return __real_setsockopt(fd, l, o, &t, n);
  }
  return __real_setsockopt(fd, l, o, v, n); }
int __real_bind(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{ if (should_fail(VC_BIND, "bind")) { errno = vf_ctl.err_no ? vf_ctl.err_no : EADDRINUSE; return -1; } maybe_delay(); return __real_bind(fd, a, n); }
int __real_listen(int, int);
int __wrap_listen(int fd, int n)
{
	if (should_fail(VC_LISTEN, "listen")) { errno = EADDRINUSE; return -1; }
	return __real_listen(fd, n < 256 ? 256 : n);
}
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n)
{
	int r = __real_accept(fd, a, n);
	maybe_delay();
	if (r >= 0 && should_fail(VC_ACCEPT, "accept")) { close(r); errno = EMFILE; return -1; }
	return r;
}
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl)
{
	int r = __real_accept4(fd, a, n, fl);
	maybe_delay();
	if (r >= 0 && should_fail(VC_ACCEPT, "accept4")) { close(r); errno = EMFILE; return -1; }
	return r;
}
int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	if (should_fail(VC_CONNECT, "connect")) { errno = vf_ctl.err_no ? vf_ctl.err_no : ENETUNREACH; return -1; }
	maybe_delay();
	return __real_connect(fd, a, n);
}

static int is_stream(int fd)
{
	int t = 0; socklen_t l = sizeof(t);
	if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) != 0) return 0;
	return t == SOCK_STREAM;
}
static int udp_fails(int fd)
{
	return (vf_ctl.err_mask & (1u << VC_UDPSEND)) && !is_stream(fd) && should_fail(VC_UDPSEND, "send");
}
static size_t cap(int fd, size_t n, int pm)
{
	size_t m;
	if (pm <= 0 || n <= 1 || (int)(rnd() % 1000) >= pm || !is_stream(fd)) return n;
	m = 1 + rnd() % (unsigned)(vf_ctl.short_max > 0 ? vf_ctl.short_max : 1);
	if (m >= n) return n;
	INC(vf_ctl.n_short);
	return m;
}
static void io_chk(int fd, long r)
{ if (r < 0 && errno == EBADF && fd >= 0) INC(vf_ctl.io_ebadf); }

#define SENDBODY(CALL) do { ssize_t r; size_t k; \
	if (should_fail(VC_SEND, "send")) { errno = ENOBUFS; return -1; } \
	if (udp_fails(fd)) { errno = vf_ctl.err_no ? vf_ctl.err_no : ENOBUFS; return -1; } \
	maybe_delay(); INC(vf_ctl.n_send); \
	k = cap(fd, n, vf_ctl.short_send_pm); \
	if (k < n && vf_ctl.send_delay_us > 0) usleep(vf_ctl.send_delay_us); \
	n = k; r = CALL; io_chk(fd, r); return r; } while (0)
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { SENDBODY(__real_send(fd, b, n, f)); }
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l)
{ SENDBODY(__real_sendto(fd, b, n, f, a, l)); }

#define RECVBODY(CALL) do { ssize_t r; \
	if (should_fail(VC_RECV, "recv")) { errno = ENOBUFS; return -1; } \
	INC(vf_ctl.n_recv); \
	n = cap(fd, n, vf_ctl.short_recv_pm); \
	r = CALL; io_chk(fd, r); maybe_delay(); return r; } while (0)
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { RECVBODY(__real_recv(fd, b, n, f)); }
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l)
{ RECVBODY(__real_recvfrom(fd, b, n, f, a, l)); }
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f)
{ ssize_t r; if (should_fail(VC_SEND, "sendmsg")) { errno = ENOBUFS; return -1; }
  if (udp_fails(fd)) { errno = vf_ctl.err_no ? vf_ctl.err_no : ENOBUFS; return -1; }
  maybe_delay(); r = __real_sendmsg(fd, m, f); io_chk(fd, r); return r; }
ssize_t __real_recvmsg(int, struct msghdr *, int);
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f)
{ ssize_t r; if (should_fail(VC_RECV, "recvmsg")) { errno = ENOBUFS; return -1; }
  r = __real_recvmsg(fd, m, f); io_chk(fd, r); maybe_delay(); return r; }
int __real_shutdown(int, int);
int __wrap_shutdown(int fd, int h)
{ int r; maybe_delay(); r = __real_shutdown(fd, h); io_chk(fd, r); maybe_delay(); return r; }
int __real_close(int);
int __wrap_close(int fd)
{
	int r;
	maybe_delay();
	r = __real_close(fd);
	if (r < 0 && errno == EBADF && fd >= 0) INC(vf_ctl.close_ebadf);
	return r;
}

int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res)
{
	if (should_fail(VC_RESOLVE, "getaddrinfo")) return EAI_MEMORY;
	if (node != NULL && strchr(node, '.') != NULL &&
	    strspn(node, "0123456789.") != strlen(node) && strchr(node, ':') == NULL) {
		/* a host name: only the stand-in registration server exists */
		if (vf_ctl.registrar[0] == '\0' || vf_ctl.registrar_gai_fail ||
		    strcmp(node, "www.echolink.org") != 0)
			return EAI_NONAME;
		node = vf_ctl.registrar;
	}
	return __real_getaddrinfo(node, svc, h, res);
}

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m)
{ if (should_fail(VC_FOPEN, "fopen")) { errno = EMFILE; return NULL; } return __real_fopen(p, m); }
pid_t __real_fork(void);
pid_t __wrap_fork(void)
{ if (should_fail(VC_FORK, "fork")) { errno = EAGAIN; return -1; } return __real_fork(); }

pid_t __real_setsid(void);
pid_t __wrap_setsid(void)
{ if (should_fail(VC_PROC, "setsid")) { errno = EPERM; return -1; } return __real_setsid(); }
int __real_chdir(const char *);
int __wrap_chdir(const char *p)
{ if (should_fail(VC_PROC, "chdir")) { errno = EACCES; return -1; } return __real_chdir(p); }
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	int m = 0;
	va_list a;
	if (fl & O_CREAT) { va_start(a, fl); m = va_arg(a, int); va_end(a); }
	else if (should_fail(VC_PROC, "open")) { errno = EMFILE; return -1; }
	return __real_open(p, fl, m);
}

/* ---- syslog ------------------------------------------------------------ */
void vf_syslog_path(const char *p) { strncpy(syslog_path, p, sizeof(syslog_path) - 1); }
static void slog(const char *fmt, ...)
{
	char buf[8192]; va_list a; int n, fd;
	if (syslog_path[0] == '\0') return;
	va_start(a, fmt); n = vsnprintf(buf, sizeof(buf), fmt, a); va_end(a);
	if (n < 0) return;
	if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
	fd = __real_open(syslog_path, O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (fd >= 0) { if (write(fd, buf, n) < 0) { } __real_close(fd); }
}
void __wrap_openlog(const char *id, int opt, int fac) { slog("OPEN %s %d\n", id, fac); (void)opt; }
void __wrap_closelog(void) { slog("CLOSE\n"); }
void __wrap_vsyslog(int pri, const char *fmt, va_list ap)
{
	char buf[8000];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	slog("MSG %d %s%s", pri, buf, buf[0] && buf[strlen(buf) - 1] == '\n' ? "" : "\n");
}
void __wrap_syslog(int pri, const char *fmt, ...)
{ va_list a; va_start(a, fmt); __wrap_vsyslog(pri, fmt, a); va_end(a); }

/* ---- configuration ------------------------------------------------------ */
void vf_set(const char *k, const char *v)
{
	long n = atol(v);
	if (!strcmp(k, "short_send")) vf_ctl.short_send_pm = n;
	else if (!strcmp(k, "short_recv")) vf_ctl.short_recv_pm = n;
	else if (!strcmp(k, "short_max")) vf_ctl.short_max = n;
	else if (!strcmp(k, "delay")) vf_ctl.delay_pm = n;
	else if (!strcmp(k, "delay_us")) vf_ctl.delay_us = n;
	else if (!strcmp(k, "hurry")) vf_ctl.hurry = n;
	else if (!strcmp(k, "clock_step")) vf_clock(n);
	else if (!strcmp(k, "keep")) vf_ctl.keep_div = n;
	else if (!strcmp(k, "slow_mask")) vf_ctl.slow_mask = (unsigned)n;
	else if (!strcmp(k, "slow_us")) vf_ctl.slow_us = n;
	else if (!strcmp(k, "send_delay_us")) vf_ctl.send_delay_us = n;
	else if (!strcmp(k, "seed")) vf_seed((uint64_t)n);
	else if (!strcmp(k, "registrar")) { memset(vf_ctl.registrar, 0, sizeof(vf_ctl.registrar)); strncpy(vf_ctl.registrar, v, sizeof(vf_ctl.registrar) - 1); }
	else if (!strcmp(k, "gai_fail")) vf_ctl.registrar_gai_fail = n;
	else if (!strcmp(k, "syslog")) vf_syslog_path(v);
	else if (!strcmp(k, "fail_mask")) vf_ctl.fail_mask = (unsigned)n;
	else if (!strcmp(k, "fail_at")) { vf_ctl.fail_count = 0; vf_ctl.fail_hits = 0; vf_ctl.fail_at = n; }
	else if (!strcmp(k, "err")) vf_ctl.err_pm = n;
	else if (!strcmp(k, "err_mask")) vf_ctl.err_mask = (unsigned)n;
	else if (!strcmp(k, "err_no")) vf_ctl.err_no = n;
	else if (!strcmp(k, "lockmon")) vf_lockmon = n;
	else if (!strcmp(k, "armed")) vf_ctl.armed = n;
}

/* reports the fault, for processes that take no commands */
__attribute__((destructor)) static void vf_report(void)
{
	const char *p = getenv("VF_FAULT_OUT");
	char b[160]; int fd, n;
	if (p == NULL) return;
	n = snprintf(b, sizeof(b), "%d %d %s\n", (int)getpid(), vf_ctl.fail_hits, vf_ctl.fail_func[0] ? vf_ctl.fail_func : "-");
	fd = __real_open(p, O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (fd >= 0) { if (write(fd, b, n) < 0) { } __real_close(fd); }
}

__attribute__((constructor)) static void vf_env(void)
{
	const char *e = getenv("VF_WRAP");
	char buf[1024], *p, *q, *save = NULL;
	if (e == NULL) return;
	strncpy(buf, e, sizeof(buf) - 1); buf[sizeof(buf) - 1] = 0;
	for (p = strtok_r(buf, ",", &save); p; p = strtok_r(NULL, ",", &save)) {
		q = strchr(p, '=');
		if (q) { *q = 0; vf_set(p, q + 1); }
	}
}
