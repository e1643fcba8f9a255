/* Drives the digest/encoding helpers on command; the oracle is outside (vf/Python) or,
 * for the exhaustive sweeps, an independent implementation here. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include "openelp/openelp.h"
#include "conn.h"
#include "digest.h"
#include "md5.h"
#include "pearson.h"

static unsigned char *unhex(const char *s, size_t *n, size_t align)
{
	size_t l = strlen(s) / 2, i;
	/* exact-size allocation so that any over-read is seen */
	unsigned char *raw = malloc(l + align ? l + align : 1), *b = raw + align;
	for (i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); b[i] = (unsigned char)v; }
	*n = l;
	return raw;
}
static void put(const unsigned char *b, size_t n)
{ size_t i; for (i = 0; i < n; i++) printf("%02x", b[i]); printf("\n"); }

struct sweep { uint64_t from, to, step, off; uint64_t n; uint32_t bad; int isbad; char why[128]; };
static void *sweep(void *p)
{
	struct sweep *s = p;
	static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
	uint64_t v;
	for (v = s->from; v < s->to; v += s->step) {
		uint32_t x = (uint32_t)(v + s->off);
		char buf[12], exp[8], alt[8];
		int i;
		memset(buf, 'Z', sizeof(buf));
		digest_to_hex32(x, buf);
		for (i = 0; i < 8; i++) {
			unsigned d = (x >> (28 - 4 * i)) & 15;
			exp[i] = lo[d];
			alt[i] = ((x ^ (uint32_t)v) >> i) & 1 ? up[d] : ((i + x) & 1 ? up[d] : lo[d]);
		}
		s->n++;
		if (memcmp(buf, exp, 8)) { s->isbad = 1; s->bad = x; snprintf(s->why, sizeof(s->why), "rendered as %.8s", buf); return NULL; }
		if (buf[9] != 'Z' || buf[10] != 'Z') { s->isbad = 1; s->bad = x; strcpy(s->why, "wrote beyond the digits"); return NULL; }
		if (hex32_to_digest(buf) != x) { s->isbad = 1; s->bad = x; snprintf(s->why, sizeof(s->why), "%.8s parsed as %08x", buf, hex32_to_digest(buf)); return NULL; }
		if (hex32_to_digest(alt) != x) { s->isbad = 1; s->bad = x; snprintf(s->why, sizeof(s->why), "%.8s parsed as %08x", alt, hex32_to_digest(alt)); return NULL; }
	}
	return NULL;
}

static void remote(const char *ip, int port)
{
	struct conn_handle l, a;
	struct sockaddr_storage ss;
	socklen_t sl;
	int fam = strchr(ip, ':') ? AF_INET6 : AF_INET, s, one = 1;
	char buf[80], lport[8] = "0", exp[80];
	int lp, r;
	memset(&l, 0, sizeof(l)); memset(&a, 0, sizeof(a)); memset(buf, 'Z', sizeof(buf));
	(void)lport;
	l.type = CONN_TYPE_TCP; l.source_addr = strncmp(ip, "::ffff:", 7) ? ip : "::";
	for (lp = 20000 + (getpid() * 7 + port) % 20000, r = -1; r < 0 && lp < 64000; lp += 97) {
		snprintf(lport, sizeof(lport), "%d", lp);
		l.source_port = lport;
		if (conn_init(&l) < 0) { printf("skip\n"); return; }
		r = conn_listen(&l);
		if (r < 0) conn_free(&l);
	}
	if (r < 0) { printf("skip\n"); return; }
	lp -= 97;
	s = socket(fam, SOCK_STREAM, 0);
	setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
	memset(&ss, 0, sizeof(ss));
	if (fam == AF_INET) {
		struct sockaddr_in *x = (void *)&ss; x->sin_family = AF_INET; x->sin_port = htons(port);
		inet_pton(AF_INET, ip, &x->sin_addr); sl = sizeof(*x);
		snprintf(exp, sizeof(exp), "%s:%d", ip, port);
	} else {
		struct sockaddr_in6 *x = (void *)&ss; x->sin6_family = AF_INET6; x->sin6_port = htons(port);
		inet_pton(AF_INET6, ip, &x->sin6_addr); sl = sizeof(*x);
		snprintf(exp, sizeof(exp), "[%s]:%d", ip, port);
	}
	if (s < 0 || bind(s, (void *)&ss, sl) < 0) { printf("skip\n"); close(s); conn_free(&l); return; }
	if (fam == AF_INET) ((struct sockaddr_in *)&ss)->sin_port = htons(lp);
	else ((struct sockaddr_in6 *)&ss)->sin6_port = htons(lp);
	if (connect(s, (void *)&ss, sl) < 0) { printf("skip\n"); close(s); conn_free(&l); return; }
	a.type = CONN_TYPE_TCP;
	if (conn_init(&a) < 0 || conn_accept(&l, &a) < 0) { printf("bad accept\n"); return; }
	conn_get_remote_addr(&a, buf);
	printf("%s %s\n", strcmp(buf, exp) ? "bad" : "ok", buf);
	{ struct linger lg = { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg)); }
	close(s);
	conn_free(&a); conn_free(&l);
}

int main(void)
{
	char *line = NULL; size_t cap = 0; ssize_t k;
	while ((k = getline(&line, &cap, stdin)) > 0) {
		char *sv = NULL, *c, *a, *b, *d;
		size_t n;
		unsigned char out[64];
		c = strtok_r(line, " \n", &sv); a = strtok_r(NULL, " \n", &sv); b = strtok_r(NULL, " \n", &sv); d = strtok_r(NULL, " \n", &sv);
		if (!c) continue;
		if (!strcmp(c, "digest")) { /* digest align hex */
			size_t al = atoi(a);
			unsigned char *r = unhex(b ? b : "", &n, al);
			digest_get(r + al, (unsigned)n, out); put(out, 16); free(r);
		} else if (!strcmp(c, "pieces")) { /* pieces align c1,c2,.. hex */
			size_t al = atoi(a), off = 0; MD5_CTX ctx; char *s2 = NULL, *p;
			unsigned char *r = unhex(d ? d : "", &n, al);
			MD5_Init(&ctx);
			for (p = strtok_r(b, ",", &s2); p; p = strtok_r(NULL, ",", &s2)) {
				size_t m = atoi(p); unsigned char *piece = malloc(m ? m : 1);
				if (off + m > n) m = n - off;
				memcpy(piece, r + al + off, m);
				/* alternately from the middle of the buffer (unaligned) and from a copy */
				MD5_Update(&ctx, off & 1 ? r + al + off : piece, m);
				free(piece); off += m;
			}
			MD5_Update(&ctx, r + al + off, n - off);
			MD5_Final(out, &ctx); put(out, 16); free(r);
		} else if (!strcmp(c, "big")) { /* big size piece seed: md5 over a generated stream */
			unsigned long long size = strtoull(a, 0, 10), done = 0; unsigned long piece = strtoul(b, 0, 10);
			unsigned char *r = malloc(piece); unsigned long i; MD5_CTX ctx;
			for (i = 0; i < piece; i++) r[i] = (unsigned char)(i * 131 + (i >> 8) * 7 + atoi(d));
			MD5_Init(&ctx);
			while (done < size) { unsigned long m = size - done < piece ? size - done : piece; MD5_Update(&ctx, r, m); done += m; }
			MD5_Final(out, &ctx); put(out, 16); free(r);
		} else if (!strcmp(c, "str")) { /* str hex16 */
			unsigned char *r = unhex(a, &n, 0); char *s = malloc(2 * DIGEST_LEN + 1);
			memset(s, 'Z', 2 * DIGEST_LEN + 1);
			digest_to_str(r, s);
			s[2 * DIGEST_LEN] == 0 ? printf("%s\n", s) : printf("unterminated %.32s\n", s);
			free(s); free(r);
		} else if (!strcmp(c, "resp")) { /* resp nonce hexpw */
			unsigned char *r = unhex(b ? b : "", &n, 0); char *pw = malloc(n + 1); int ret;
			uint8_t *rs = malloc(PROXY_PASS_RES_LEN);
			memcpy(pw, r, n); pw[n] = 0;
			memset(rs, 0, PROXY_PASS_RES_LEN);
			ret = get_password_response((uint32_t)strtoul(a, 0, 10), pw, rs);
			if (ret < 0) printf("err %d\n", ret); else put(rs, 16);
			if (strlen(pw) != n || memcmp(pw, r, n)) printf("password changed\n");
			free(rs); free(pw); free(r);
		} else if (!strcmp(c, "parse")) { printf("%u\n", hex32_to_digest(a)); }
		else if (!strcmp(c, "ports")) {
			int i; char e[16], *s;
			for (i = 0; i < 65536; i++) {
				s = malloc(6);
				memset(s, 'Z', 6);
				conn_port_to_str((uint16_t)i, s); snprintf(e, sizeof(e), "%d", i);
				if (memchr(s, 0, 6) == NULL || strcmp(s, e)) { printf("bad %d %.6s\n", i, s); free(s); break; }
				free(s);
			}
			if (i == 65536) printf("ok 65536\n");
		} else if (!strcmp(c, "sweep")) { /* sweep step off threads */
			struct sweep s[16]; pthread_t t[16]; int i, nt = atoi(d); uint64_t tot = 0, step = strtoull(a, 0, 10);
			memset(s, 0, sizeof(s));
			for (i = 0; i < nt; i++) {
				uint64_t per = (1ull << 32) / nt;
				s[i].from = per * i; s[i].to = i == nt - 1 ? 1ull << 32 : per * (i + 1); s[i].step = step; s[i].off = strtoull(b, 0, 10);
				pthread_create(&t[i], NULL, sweep, &s[i]);
			}
			for (i = 0; i < nt; i++) pthread_join(t[i], NULL);
			for (i = 0; i < nt; i++) { tot += s[i].n; if (s[i].isbad) { printf("bad %08x %s\n", s[i].bad, s[i].why); break; } }
			if (i == nt) printf("ok %llu\n", (unsigned long long)tot);
		} else if (!strcmp(c, "remote")) remote(a, atoi(b));
		else if (!strcmp(c, "pearson")) { unsigned char *r = unhex(a ? a : "", &n, 0); printf("%u\n", pearson_get(r, n)); free(r); }
		else printf("unknown\n");
		fflush(stdout);
	}
	free(line);
	return 0;
}
