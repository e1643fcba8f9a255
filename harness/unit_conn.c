/*
 * Drives the connection layer against plain sockets (and against itself), with
 * the boundary monitor splitting and delaying transfers, and judges what arrives.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "conn.h"
#include "wrap.h"

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr *, socklen_t);
int __real_listen(int, int);
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_close(int);

static int nviol;
static pthread_mutex_t outl = PTHREAD_MUTEX_INITIALIZER;
static void viol(const char *key, const char *fmt, ...)
{
	va_list a;
	__real_pthread_mutex_lock(&outl);
	if (nviol++ < 20) {
		printf("V %s ", key);
		va_start(a, fmt); vprintf(fmt, a); va_end(a);
		printf("\n"); fflush(stdout);
	}
	__real_pthread_mutex_unlock(&outl);
}
static __thread unsigned r_;
static unsigned rnd(void) { r_ = r_ * 1103515245u + 12345u; return (r_ >> 16) & 0x7fff; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void nap(long us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; syscall(SYS_nanosleep, &t, NULL); }
static const char *base;          /* a.b.c. */
static char *addr_of(int n) { static __thread char b[8][32]; static __thread int i; i = (i + 1) % 8; snprintf(b[i], 32, "%s%d", base, n); return b[i]; }
static struct sockaddr_in sa(int n, int port)
{ struct sockaddr_in s; memset(&s, 0, sizeof(s)); s.sin_family = AF_INET; s.sin_port = htons(port); inet_aton(addr_of(n), &s.sin_addr); return s; }
static int fds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static long n_bytes, n_dgrams, n_interrupts, n_failed, n_streams, n_errors;
static int rawl(int host, int port, int backlog)
{
	int fd = __real_socket(AF_INET, SOCK_STREAM, 0), yes = 1; struct sockaddr_in s = sa(host, port);
	setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof(yes));
	if (__real_bind(fd, (void *)&s, sizeof(s)) || __real_listen(fd, backlog)) { printf("V harness cannot listen %d\n", errno); _exit(3); }
	return fd;
}
static int rawu(int host, int port)
{
	int fd = __real_socket(AF_INET, SOCK_DGRAM, 0), yes = 1; struct sockaddr_in s = sa(host, port);
	struct timeval tv = { 15, 0 };
	setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof(yes));
	setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
	if (__real_bind(fd, (void *)&s, sizeof(s))) { printf("V harness cannot bind %d\n", errno); _exit(3); }
	return fd;
}
static int rawc(int host, int port)
{
	int fd = __real_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in s = sa(host, port);
	if (__real_connect(fd, (void *)&s, sizeof(s))) { __real_close(fd); return -1; }
	return fd;
}
static void timed_join(pthread_t t, const char *key, const char *what)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20;
	if (pthread_timedjoin_np(t, NULL, &ts) != 0) { viol(key, "%s did not return", what); fflush(stdout); _exit(3); }
}
static uint8_t code(uint32_t key, uint32_t pos) { uint32_t x = (pos + 1) * 2654435761u ^ key; x ^= x >> 15; x *= 0x85ebca6b; x ^= x >> 13; return x; }

/* ---- streams -------------------------------------------------------------- */
struct end { struct conn_handle *c; int fd; uint32_t key, total; int stop_after; unsigned seed; uint32_t sent, got; int err; uint64_t hash; };
static void *tx(void *p)
{
	struct end *e = p;
	uint32_t pos = 0, i;
	static __thread uint8_t b[70000];
	r_ = e->seed;
	while (pos < e->total) {
		uint32_t n = rnd() % 4 == 0 ? 1 + rnd() % 20000 : 1 + rnd() % 300, off = 0;
		if (n > e->total - pos) n = e->total - pos;
		for (i = 0; i < n; i++) b[i] = code(e->key, pos + i);
		if (e->c) {
			int ret = conn_send(e->c, b, n);
			if (ret < 0) { e->err = ret; break; }
			if (ret != 0) viol("send-return", "conn_send returned %d", ret);
		} else {
			while (off < n) { ssize_t k = __real_send(e->fd, b + off, n - off, MSG_NOSIGNAL); if (k <= 0) { e->err = -errno; return NULL; } off += k; }
		}
		pos += n;
		e->sent = pos;
		if (rnd() % 16 == 0) nap(rnd() % 300);
	}
	return NULL;
}
static void *rx(void *p)
{
	struct end *e = p;
	uint32_t i;
	static __thread uint8_t b[70000];
	r_ = e->seed + 77;
	e->hash = 1469598103934665603ull;
	while (e->got < e->total) {
		uint32_t n = rnd() % 4 == 0 ? 1 + rnd() % 30000 : 1 + rnd() % 300, have;
		int ret, any = rnd() % 3 == 0;
		memset(b, 0xAA, 40);
		if (e->c && any) {
			uint32_t a; uint16_t q;
			ret = conn_recv_any(e->c, b, n, rnd() % 2 ? &a : NULL, rnd() % 2 ? &q : NULL);
			if (ret == 0) { viol("recv-zero", "conn_recv_any reported success with nothing received"); break; }
			if (ret < 0) { e->err = ret; break; }
			if ((uint32_t)ret > n) viol("recv-count", "conn_recv_any returned %d for a buffer of %u", ret, n);
			have = ret;
		} else if (e->c) {
			if (n > e->total - e->got) n = e->total - e->got;
			ret = conn_recv(e->c, b, n);
			if (ret < 0) { e->err = ret; break; }
			have = n;
		} else {
			ret = __real_recv(e->fd, b, n, 0);
			if (ret <= 0) { e->err = ret < 0 ? -errno : -EPIPE; break; }
			have = ret;
		}
		for (i = 0; i < have; i++)
			if (b[i] != code(e->key, e->got + i)) {
				viol("stream", "byte %u of the stream is wrong (%s of %u, %d at %u)", e->got + i, any ? "any" : "exact", n, ret, i);
				return NULL;
			}
		__atomic_store_n(&e->got, e->got + have, __ATOMIC_SEQ_CST);
		e->hash = (e->hash ^ have) * 1099511628211ull;
		if (rnd() % 16 == 0) nap(rnd() % 300);
	}
	return NULL;
}
static int portno = 7000;
static char portstr[8];
static int next_port(void) { portno++; if (portno > 7900) portno = 7001; snprintf(portstr, 8, "%d", portno); return portno; }

struct acc { struct conn_handle *l, *a; int ret; };
static void *do_accept(void *p) { struct acc *a = p; a->ret = conn_accept(a->l, a->a); return NULL; }

static void expect_remote(struct conn_handle *c, int fd)
{
	struct sockaddr_in s; socklen_t l = sizeof(s); char got[54], want[64];
	getsockname(fd, (void *)&s, &l);
	snprintf(want, 64, "%s:%d", inet_ntoa(s.sin_addr), ntohs(s.sin_port));
	conn_get_remote_addr(c, got);
	if (strcmp(got, want)) viol("remote-addr", "remote address is '%s', not '%s'", got, want);
}

/* kinds: 0 accepted by the library, raw peer; 1 connected by the library, raw peer; 2 both the library */
static void stream(unsigned seed, int kind, uint32_t total, int cutmode)
{
	struct conn_handle L, A, C;
	struct acc ac = { &L, &A, -1 };
	pthread_t t[4];
	struct end e[4];
	int lf = -1, rawfd = -1, port = next_port(), ret, i, f0 = fds();
	char ps[8];
	strcpy(ps, portstr);
	r_ = seed;
	memset(&L, 0, sizeof(L)); memset(&A, 0, sizeof(A)); memset(&C, 0, sizeof(C)); memset(e, 0, sizeof(e));
	L.type = A.type = C.type = CONN_TYPE_TCP;
	conn_init(&L); conn_init(&A); conn_init(&C);
	L.source_addr = addr_of(1); L.source_port = ps;
	{ static char s[32]; strcpy(s, addr_of(2)); if (rnd() & 1) C.source_addr = s; }
	if (kind != 1) {
		static char s[32]; strcpy(s, addr_of(1)); L.source_addr = s;
		if ((ret = conn_listen(&L)) != 0) { viol("listen", "conn_listen returned %d", ret); return; }
		__real_pthread_create(&t[0], NULL, do_accept, &ac);
	} else
		lf = rawl(1, port, 8);
	if (kind == 0) {
		for (i = 0; i < 2000 && (rawfd = rawc(1, port)) < 0; i++) nap(1000);
	} else {
		ret = conn_connect(&C, addr_of(1), ps);
		if (ret != 0) { viol("connect", "conn_connect returned %d", ret); fflush(stdout); _exit(3); }
		if (!conn_in_use(&C)) viol("in-use", "connected, but not in use");
	}
	if (kind != 1) {
		timed_join(t[0], "accept-stuck", "conn_accept");
		if (ac.ret != 0) viol("accept", "conn_accept returned %d", ac.ret);
		if (!conn_in_use(&A)) viol("in-use", "accepted, but not in use");
	} else {
		struct sockaddr_in s; socklen_t l = sizeof(s);
		rawfd = __real_accept(lf, (void *)&s, &l);
		if (C.source_addr && strcmp(inet_ntoa(s.sin_addr), C.source_addr)) viol("source-addr", "connected from %s instead of %s", inet_ntoa(s.sin_addr), C.source_addr);
	}
	if (kind == 0) expect_remote(&A, rawfd);
	/* directions: 0 -> 1 and 2 -> 3 */
	e[0].c = kind == 0 ? NULL : &C; e[1].c = kind == 1 ? NULL : &A;
	e[2].c = e[1].c; e[3].c = e[0].c;
	for (i = 0; i < 4; i++) { if (!e[i].c) e[i].fd = rawfd; e[i].key = seed * 31 + (i / 2) * 7 + 1; e[i].seed = seed + i * 1009; e[i].total = i < 2 ? total : total / 2 + 1; }
	if (cutmode) {
		/* the receiving side expects more than will come */
		e[1].total += 1 + rnd() % 5000; e[3].total += 1 + rnd() % 5000;
	}
	for (i = 0; i < 4; i++) __real_pthread_create(&t[i], NULL, i % 2 ? rx : tx, &e[i]);
	timed_join(t[0], "stream-stuck", "sending");
	timed_join(t[2], "stream-stuck", "sending");
	if (cutmode) {
		if (rawfd >= 0) shutdown(rawfd, SHUT_WR);
		if (kind == 0) { /* the peer has sent everything; when all of ours has arrived, end it */
			nap(2000);
			nap(10000);
			shutdown(rawfd, SHUT_RDWR);
		} else if (kind == 1) {
			nap(10000);
			conn_shutdown(&C);
		} else { nap(20000); conn_shutdown(&C); }
	}
	timed_join(t[1], "stream-stuck", "receiving");
	timed_join(t[3], "stream-stuck", "receiving");
	for (i = 0; i < 2; i++) {
		struct end *s = &e[2 * i], *d = s + 1;
		if (s->err) viol("send-error", "sending failed (%d) after %u bytes on a healthy connection", s->err, s->sent);
		if (!cutmode && d->got != s->sent) viol("stream-count", "%u of %u bytes received (error %d)", d->got, s->sent, d->err);
		if (cutmode && d->got > s->sent) viol("stream-count", "%u bytes received of %u sent", d->got, s->sent);
		if (cutmode && !d->err) viol("recv-success", "receiving %u bytes succeeded although only %u were sent", d->total, s->sent);
		__atomic_add_fetch(&n_bytes, d->got, __ATOMIC_SEQ_CST);
		printf("T %d %d %llx\n", kind, cutmode, (unsigned long long)d->hash);
	}
	n_streams++;
	/* dropping or closing, and what it leaves */
	{
		uint8_t b[4];
		struct conn_handle *m = kind == 0 ? &A : &C;
		if (kind != 1 && rnd() % 2) { conn_drop(&A); m = &A; } else conn_close(m);
		if (conn_in_use(m)) viol("in-use", "in use after being closed");
		if ((ret = conn_recv(m, b, 4)) != -ENOTCONN) viol("closed-op", "receiving on a closed connection returned %d", ret);
		if ((ret = conn_recv_any(m, b, 4, NULL, NULL)) != -ENOTCONN) viol("closed-op", "receiving any on a closed connection returned %d", ret);
		if ((ret = conn_send(m, b, 4)) != -ENOTCONN) viol("closed-op", "sending on a closed connection returned %d", ret);
		if (rawfd >= 0 && !cutmode) {
			struct timeval tv = { 15, 0 };
			setsockopt(rawfd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
			ret = __real_recv(rawfd, b, 4, 0);
			if (ret > 0) viol("stray", "%d bytes arrived that nobody sent", ret);
			if (ret < 0 && errno == EAGAIN) viol("not-ended", "the peer does not see the connection end");
		}
		conn_close(m); conn_drop(m);
	}
	conn_free(&L); conn_free(&A); conn_free(&C);
	if (rawfd >= 0) __real_close(rawfd);
	if (lf >= 0) __real_close(lf);
	if (fds() != f0) viol("descriptors", "%d descriptors open instead of %d after a stream (kind %d)", fds(), f0, kind);
}

/* the peer vanishes while data is being sent: an error, no signal, no false success */
static void vanish(unsigned seed)
{
	struct conn_handle C;
	struct end e;
	pthread_t t;
	int port = next_port(), lf = rawl(1, port, 4), fd, f0 = fds(), i;
	struct linger lg = { 1, 0 };
	memset(&C, 0, sizeof(C)); memset(&e, 0, sizeof(e));
	r_ = seed;
	conn_init(&C);
	if (conn_connect(&C, addr_of(1), portstr) != 0) { viol("connect", "conn_connect failed"); return; }
	fd = __real_accept(lf, NULL, NULL);
	e.c = &C; e.key = seed; e.total = 60000000; e.seed = seed;
	__real_pthread_create(&t, NULL, tx, &e);
	nap(rnd() % 3000);
	if (rnd() & 1) setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
	else for (i = 0; i < 5; i++) { char b[3000]; __real_recv(fd, b, sizeof(b), MSG_DONTWAIT); }
	__real_close(fd);
	timed_join(t, "send-stuck", "sending to a peer which has closed the connection");
	if (!e.err) viol("send-success", "sending %u bytes to a peer which has closed succeeded", e.total);
	n_errors++;
	{ uint8_t b[8]; int r = conn_recv(&C, b, 8); if (r >= 0) viol("recv-success", "receiving from a peer which has gone returned %d", r); }
	conn_free(&C);
	__real_close(lf);
	if (fds() != f0 - 1) viol("descriptors", "%d descriptors instead of %d after a lost peer", fds(), f0 - 1);
}

/* ---- datagrams --------------------------------------------------------------- */
struct ureq { struct conn_handle *c; uint8_t b[5000]; uint32_t a; uint16_t p; int ret; size_t len; };
static void *do_urecv(void *p) { struct ureq *u = p; u->ret = conn_recv_any(u->c, u->b, u->len, &u->a, &u->p); return NULL; }
static void dgrams(unsigned seed, int count)
{
	struct conn_handle U;
	int port = next_port(), s[3], sp[3], i, k, ret, f0;
	static uint8_t b[5000], g[5000];
	char ad[32];
	r_ = seed;
	f0 = fds();
	memset(&U, 0, sizeof(U));
	U.type = CONN_TYPE_UDP;
	strcpy(ad, addr_of(1));
	U.source_addr = ad; U.source_port = portstr;
	conn_init(&U);
	if ((ret = conn_send_to(&U, b, 4, sa(3, 1).sin_addr.s_addr, 9)) != -ENOTCONN) viol("closed-op", "sending a datagram while closed returned %d", ret);
	if ((ret = conn_listen(&U)) != 0) { viol("listen", "conn_listen returned %d", ret); return; }
	for (i = 0; i < 3; i++) { sp[i] = 20000 + rnd() % 20000; s[i] = rawu(3 + i, sp[i]); }
	/* operations of the other type */
	if ((ret = conn_recv(&U, b, 4)) >= 0) viol("wrong-type", "a fixed-length receive on a datagram connection returned %d", ret);
	if ((ret = conn_send(&U, b, 4)) >= 0) viol("wrong-type", "a stream send on a datagram connection returned %d", ret);
	if ((ret = conn_connect(&U, addr_of(3), "7999")) >= 0) viol("wrong-type", "connecting a datagram connection returned %d", ret);
	for (k = 0; k < count; k++) {
		int n = rnd() % 5 == 0 ? 1 + rnd() % 4087 : 1 + rnd() % 60, w = rnd() % 3;
		for (i = 0; i < n; i++) b[i] = rnd();
		if (rnd() % 2) {
			/* inbound: empty datagrams before it are skipped */
			struct sockaddr_in d = sa(1, portno);
			int e = rnd() % 3, q;
			uint32_t a = 1; uint16_t p = 1;
			size_t room = rnd() % 2 ? (size_t)n : 4087;
			for (q = 0; q < e; q++) __real_sendto(s[rnd() % 3], "", 0, 0, (void *)&d, sizeof(d));
			__real_sendto(s[w], b, n, 0, (void *)&d, sizeof(d));
			memset(g, 0x55, sizeof(g));
			{
				struct ureq u; pthread_t t;
				memset(&u, 0, sizeof(u)); u.c = &U; u.len = room; memset(u.b, 0x55, sizeof(u.b));
				__real_pthread_create(&t, NULL, do_urecv, &u);
				timed_join(t, "recv-stuck", "receiving a datagram");
				ret = u.ret; a = u.a; p = u.p; memcpy(g, u.b, sizeof(g));
			}
			if (ret != n) viol("dgram-size", "conn_recv_any returned %d for a datagram of %d bytes", ret, n);
			else if (memcmp(g, b, n)) viol("dgram-data", "a datagram of %d bytes was altered", n);
			if (g[room] != 0x55) viol("overrun", "bytes written beyond the buffer");
			if (ret > 0 && (a != sa(3 + w, 1).sin_addr.s_addr || p != sp[w])) viol("dgram-source", "datagram from %s:%d reported as from %08x:%d", addr_of(3 + w), sp[w], ntohl(a), p);
			if (ret > 0) { char got[54], want[64]; conn_get_remote_addr(&U, got); snprintf(want, 64, "%s:%d", addr_of(3 + w), sp[w]);
				if (strcmp(got, want)) viol("remote-addr", "remote address is '%s', not '%s'", got, want); }
		} else {
			struct sockaddr_in f; socklen_t l = sizeof(f);
			ret = conn_send_to(&U, b, n, sa(3 + w, 1).sin_addr.s_addr, sp[w]);
			if (ret != 0) viol("send-return", "conn_send_to returned %d", ret);
			ret = __real_recvfrom(s[w], g, sizeof(g), 0, (void *)&f, &l);
			if (ret != n || memcmp(g, b, n)) viol("dgram-data", "a datagram of %d bytes arrived as %d", n, ret);
			if (ret >= 0 && (strcmp(inet_ntoa(f.sin_addr), ad) || ntohs(f.sin_port) != portno)) viol("dgram-source", "datagram left from %s:%d", inet_ntoa(f.sin_addr), ntohs(f.sin_port));
			for (i = 0; i < 3; i++) { ret = __real_recv(s[i], g, sizeof(g), MSG_DONTWAIT); if (ret >= 0) viol("dgram-extra", "an additional datagram of %d bytes arrived", ret); }
		}
		n_dgrams++;
	}
	printf("T dgrams %u\n", seed);
	conn_close(&U);
	if ((ret = conn_recv_any(&U, b, 10, NULL, NULL)) != -ENOTCONN) viol("closed-op", "receiving a datagram after closing returned %d", ret);
	if ((ret = conn_send_to(&U, b, 10, sa(3, 1).sin_addr.s_addr, 9)) != -ENOTCONN) viol("closed-op", "sending a datagram after closing returned %d", ret);
	/* and again on the same handle */
	if ((ret = conn_listen(&U)) != 0) viol("reuse", "listening again returned %d", ret);
	conn_free(&U);
	for (i = 0; i < 3; i++) __real_close(s[i]);
	if (fds() != f0) viol("descriptors", "%d descriptors open instead of %d after datagrams", fds(), f0);
}

/* ---- interruption -------------------------------------------------------------- */
struct blk { struct conn_handle *c, *a; int op, ret, entered, done; const char *addr, *port; };
static void *blocked(void *p)
{
	struct blk *k = p;
	static __thread uint8_t b[100000];
	__atomic_store_n(&k->entered, 1, __ATOMIC_SEQ_CST);
	switch (k->op) {
	case 0: k->ret = conn_recv(k->c, b, 100); break;
	case 1: k->ret = conn_recv_any(k->c, b, 100, NULL, NULL); break;
	case 2: do k->ret = conn_send(k->c, b, sizeof(b)); while (k->ret >= 0); break;
	case 3: k->ret = conn_accept(k->c, k->a); break;
	case 4: k->ret = conn_connect(k->c, k->addr, k->port); break;
	}
	__atomic_store_n(&k->done, 1, __ATOMIC_SEQ_CST);
	return NULL;
}
static void *do_end(void *p)
{
	struct blk *k = p;
	switch (k->op) { case 0: conn_close(k->c); break; case 1: conn_drop(k->c); break; default: conn_shutdown(k->c); }
	return NULL;
}
static const char *const opname[] = { "conn_recv", "conn_recv_any", "conn_send", "conn_accept", "conn_connect" };
static const char *const howname[] = { "conn_close", "conn_drop", "conn_shutdown" };
/* what: 0 accepted, 1 connected, 2 listening TCP, 3 datagram, 4 connecting */
static void interrupt(unsigned seed, int what, int op, int how, int two)
{
	struct conn_handle L, A, C, *m, X;
	struct blk k, k2, z;
	pthread_t t, t2, e;
	int port = next_port(), fd = -1, lf = -1, f0, ret, fill[4] = { -1, -1, -1, -1 }, i;
	char ps[8], ad[32], text[100];
	uint8_t b[4];
	if (op == 1 || op > 2) two = 0;   /* one receiver of this kind at a time */
	r_ = seed;
	f0 = fds();
	strcpy(ps, portstr);
	strcpy(ad, addr_of(1));
	memset(&L, 0, sizeof(L)); memset(&A, 0, sizeof(A)); memset(&C, 0, sizeof(C)); memset(&X, 0, sizeof(X)); memset(&k, 0, sizeof(k));
	snprintf(text, 100, "%s while %s on connection of kind %d", howname[how], opname[op], what);
	conn_init(&L); conn_init(&A); conn_init(&C); conn_init(&X);
	L.source_addr = ad; L.source_port = ps;
	m = &A;
	if (what == 0) {
		struct acc ac = { &L, &A, -1 };
		conn_listen(&L);
		__real_pthread_create(&t, NULL, do_accept, &ac);
		for (i = 0; i < 2000 && (fd = rawc(1, port)) < 0; i++) nap(1000);
		timed_join(t, "accept-stuck", "conn_accept");
	} else if (what == 1) {
		lf = rawl(1, port, 4);
		if (conn_connect(&C, ad, ps) != 0) viol("connect", "conn_connect failed");
		fd = __real_accept(lf, NULL, NULL);
		m = &C;
	} else if (what == 2) {
		conn_listen(&L); m = &L;
	} else if (what == 3) {
		C.type = CONN_TYPE_UDP; C.source_addr = ad; C.source_port = ps; conn_listen(&C); m = &C;
	} else {
		struct sockaddr_in s = sa(1, port);
		lf = rawl(1, port, 0);
		for (i = 0; i < 4; i++) { fill[i] = __real_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); __real_connect(fill[i], (void *)&s, sizeof(s)); nap(500); }
		k.addr = ad; k.port = ps; m = &C;
	}
	k.c = m; k.a = &X; k.op = op;
	k2 = k;
	__real_pthread_create(&t, NULL, blocked, &k);
	if (two) __real_pthread_create(&t2, NULL, blocked, &k2);
	while (!__atomic_load_n(&k.entered, __ATOMIC_SEQ_CST) || (two && !__atomic_load_n(&k2.entered, __ATOMIC_SEQ_CST))) nap(50);
	nap(op == 2 || op == 4 ? 30000 : rnd() % 2 ? 5000 : rnd() % 1500);
	if (op == 4 && __atomic_load_n(&k.done, __ATOMIC_SEQ_CST)) { printf("N connect-not-blocked\n"); }
	z.c = m; z.op = how;
	__real_pthread_create(&e, NULL, do_end, &z);
	timed_join(e, "end-stuck", text);
	/* an operation which began only after a shutdown fails as well */
	timed_join(t, "op-stuck", text);
	if (two) timed_join(t2, "op-stuck", text);
	if (!(op == 4 && k.done && k.ret == 0) && (k.ret >= 0 || (two && k2.ret >= 0))) viol("interrupted-success", "%s: returned %d", text, k.ret);
	n_interrupts++;
	printf("T interrupt %d %d %d %d %d\n", what, op, how, two, k.ret);
	if (how != 2) {
		if (conn_in_use(m)) viol("in-use", "%s: still in use", text);
		if (what == 0 || what == 1) {
			if ((ret = conn_recv(m, b, 4)) != -ENOTCONN) viol("closed-op", "%s: receiving afterwards returned %d", text, ret);
			if ((ret = conn_send(m, b, 4)) != -ENOTCONN) viol("closed-op", "%s: sending afterwards returned %d", text, ret);
		}
		if ((ret = conn_recv_any(m, b, 4, NULL, NULL)) != -ENOTCONN) viol("closed-op", "%s: receiving any afterwards returned %d", text, ret);
	} else if (what < 2) {
		if ((ret = conn_recv(m, b, 4)) >= 0) viol("shut-op", "%s: receiving afterwards returned %d", text, ret);
		if ((ret = conn_send(m, b, 4)) >= 0) viol("shut-op", "%s: sending afterwards returned %d", text, ret);
	} else if (what == 2) {
		if ((ret = conn_accept(m, &X)) >= 0) viol("shut-op", "%s: accepting afterwards returned %d", text, ret);
	}
	if (fd >= 0) __real_close(fd);
	for (i = 0; i < 4; i++) if (fill[i] >= 0) __real_close(fill[i]);
	if (lf >= 0) __real_close(lf);
	/* the handle can be used again */
	if (how == 0 && (what == 1 || what == 4)) {
		struct conn_handle *c = &C;
		lf = rawl(1, next_port(), 4);
		if ((ret = conn_connect(c, ad, portstr)) != 0) viol("reuse", "%s: connecting again returned %d", text, ret);
		else {
			fd = __real_accept(lf, NULL, NULL);
			__real_send(fd, "abcd", 4, 0);
			if (conn_recv(c, b, 4) < 0 || memcmp(b, "abcd", 4)) viol("reuse", "%s: receiving on the next connection failed", text);
			__real_close(fd);
		}
		__real_close(lf);
	} else if (how == 0 && (what == 2 || what == 3)) {
		next_port(); strcpy(ps, portstr);
		if ((ret = conn_listen(m)) != 0) viol("reuse", "%s: listening again returned %d", text, ret);
	}
	conn_free(&L); conn_free(&A); conn_free(&C); conn_free(&X);
	if (fds() != f0) viol("descriptors", "%s: %d descriptors open instead of %d", text, fds(), f0);
}

/* ---- failures ----------------------------------------------------------------------- */
static void failures(unsigned seed)
{
	struct conn_handle C;
	int ret, i, f0, lf, port = next_port(), fd, f1;
	char ps[8], ad[32], bad[32];
	uint8_t b[4];
	r_ = seed;
	strcpy(ps, portstr); strcpy(ad, addr_of(1)); strcpy(bad, "192.0.2.77");
	lf = rawl(1, port, 8);
	f0 = fds();
	memset(&C, 0, sizeof(C));
	conn_init(&C);
	for (i = 0; i < 12; i++) {
		int w = rnd() % 7;
		C.source_addr = NULL; C.source_port = NULL;
		switch (w) {
		case 0: ret = conn_connect(&C, addr_of(1), "6999"); break;                      /* refused */
		case 1: ret = conn_connect(&C, "no-such-host.invalid", "80"); break;
		case 2: C.source_addr = bad; ret = conn_connect(&C, ad, ps); break;             /* not a local address */
		case 3: C.source_addr = bad; C.source_port = "7990"; ret = conn_listen(&C); break;
		case 4: C.source_addr = ad; C.source_port = ps; ret = conn_listen(&C); break;   /* taken */
		case 5: C.type = CONN_TYPE_UDP; C.source_addr = bad; C.source_port = "7992"; ret = conn_listen(&C); C.type = CONN_TYPE_TCP; break;
		default: C.source_addr = "no-such-host.invalid"; C.source_port = "7991"; ret = conn_listen(&C); break;
		}
		n_failed++;
		printf("T failure %d %d\n", w, ret);
		if (ret >= 0) viol("false-success", "failing operation %d returned %d", w, ret);
		if (fds() != f0) { viol("descriptors", "failing operation %d left %d descriptors instead of %d", w, fds(), f0); break; }
		if (conn_in_use(&C)) viol("in-use", "in use after failing operation %d", w);
		if ((ret = conn_recv_any(&C, b, 4, NULL, NULL)) != -ENOTCONN) viol("closed-op", "receiving after failing operation %d returned %d", w, ret);
		if ((ret = conn_send(&C, b, 4)) != -ENOTCONN) viol("closed-op", "sending after failing operation %d returned %d", w, ret);
		if (rnd() % 3 == 0) conn_close(&C);
		if (rnd() % 3 == 0) conn_drop(&C);
		if (rnd() % 3 == 0) conn_shutdown(&C);
		if (rnd() % 2) {
			/* and works afterwards */
			C.source_addr = NULL; C.source_port = NULL;
			if (rnd() % 2) {
				if ((ret = conn_connect(&C, ad, ps)) != 0) { viol("reuse", "connecting after failing operation %d returned %d", w, ret); break; }
				fd = __real_accept(lf, NULL, NULL);
				if (conn_send(&C, (uint8_t *)"ping", 4) != 0 || __real_recv(fd, b, 4, MSG_WAITALL) != 4 || memcmp(b, "ping", 4)) viol("reuse", "the connection after failing operation %d does not work", w);
				__real_close(fd);
			} else {
				char p2[8];
				next_port(); strcpy(p2, portstr);
				C.source_addr = ad; C.source_port = p2;
				if ((ret = conn_listen(&C)) != 0) { viol("reuse", "listening after failing operation %d returned %d", w, ret); break; }
				fd = rawc(1, portno);
				if (fd < 0) viol("reuse", "cannot connect to a listener after failing operation %d", w);
				else __real_close(fd);
			}
			conn_close(&C);
			f1 = fds();
			if (f1 != f0) viol("descriptors", "%d descriptors instead of %d after closing", f1, f0);
		}
	}
	/* a receive timeout: an error, not before its time */
	C.source_addr = NULL; C.source_port = NULL;
	conn_close(&C);
	if (conn_connect(&C, ad, ps) == 0) {
		double a;
		uint32_t ms = rnd() % 4 ? 30 + rnd() % 150 : 1000 + rnd() % 200;
		fd = __real_accept(lf, NULL, NULL);
		if ((ret = conn_set_timeout(&C, ms)) < 0) viol("timeout", "setting a timeout returned %d", ret);
		__real_send(fd, "ab", 2, 0);
		a = now();
		ret = conn_recv(&C, b, 4);
		a = now() - a;
		if (ret >= 0) viol("recv-success", "receiving 4 bytes returned %d though only 2 were sent", ret);
		if (a < ms / 1000.0 - 0.012) viol("timeout-early", "a receive with a timeout of %u ms gave up after %.0f ms", ms, a * 1000);
		/* dropped while nothing is going on */
		conn_drop(&C);
		if (conn_in_use(&C)) viol("in-use", "in use after being dropped");
		if ((ret = conn_send(&C, b, 4)) != -ENOTCONN) viol("closed-op", "sending after a drop returned %d", ret);
		if ((ret = conn_recv(&C, b, 4)) != -ENOTCONN) viol("closed-op", "receiving after a drop returned %d", ret);
		conn_close(&C);
		if (conn_set_timeout(&C, ms) >= 0) viol("closed-op", "setting a timeout succeeds on a closed connection");
		__real_close(fd);
	}
	conn_free(&C);
	__real_close(lf);
}

int main(int argc, char **argv)
{
	unsigned seed = atoi(argv[1]), q;
	int rounds = atoi(argv[3]), i;
	base = argv[2];
	(void)argc;
	q = seed;
	{ struct conn_handle w; memset(&w, 0, sizeof(w)); conn_init(&w); conn_free(&w); }
	for (i = 0; i < rounds && !nviol; i++) {
		int w, op, how;
		q = q * 69069u + 1;
		for (w = 0; w < 3; w++) { stream(q + w, w, 20000 + (q >> 8) % 120000, 0); stream(q + w + 9, w, 1 + (q >> 8) % 30000, 1); }
		vanish(q + 5);
		dgrams(q + 7, 40);
		failures(q + 11);
		for (how = 0; how < 3; how++) {
			for (op = 0; op < 3; op++) {
				interrupt(q + op + how * 10, 0, op, how, (q >> (op + how)) & 1);
				if (how != 1) interrupt(q + op + how * 10, 1, op, how, (q >> (op + how + 4)) & 1);
			}
			if (how != 1) { interrupt(q + how, 2, 3, how, 0); interrupt(q + how, 3, 1, how, 0); interrupt(q + how, 4, 4, how, 0); }
		}
	}
	if (vf_ctl.close_ebadf) viol("close-twice", "%d closes of a descriptor which is not open", vf_ctl.close_ebadf);
	if (vf_ctl.io_ebadf) viol("stale-descriptor", "%d operations on a descriptor which is not open", vf_ctl.io_ebadf);
	if (vf_ctl.destroy_busy) viol("destroy-busy", "%d locks destroyed while held", vf_ctl.destroy_busy);
	printf("S bytes %ld\nS datagrams %ld\nS interrupts %ld\nS failed_ops %ld\nS streams %ld\nS lost_peers %ld\nS short_transfers %ld\n",
	       n_bytes, n_dgrams, n_interrupts, n_failed, n_streams, n_errors, vf_ctl.n_short);
	printf("DONE\n");
	return nviol != 0;
}
