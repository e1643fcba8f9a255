/*
 * Hosts the real library: executes public API calls on command and reports
 * their return.  Commands arrive on stdin, one per line: "<id> <cmd> [args]".
 * A command whose id starts with '&' runs in a thread of its own.
 * Replies and events go to descriptor OUTFD as JSON lines.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include "openelp/openelp.h"
#include "wrap.h"

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VF_ASAN 1
# endif
#endif
#ifdef VF_ASAN
#include <sanitizer/lsan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif

void *__real_malloc(size_t); char *__real_strdup(const char *);

#define NPH 4
static struct proxy_handle phs[NPH];
static pthread_mutex_t out_lock = PTHREAD_MUTEX_INITIALIZER;
static int outfd = 1;
static volatile int serving[NPH];

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static void reply(const char *fmt, ...)
{
	char buf[16384];
	va_list a;
	int n;
	size_t off = 0;
	va_start(a, fmt);
	n = vsnprintf(buf, sizeof(buf) - 1, fmt, a);
	va_end(a);
	if (n < 0) return;
	if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
	buf[n++] = '\n';
	__real_pthread_mutex_lock(&out_lock);
	while (off < (size_t)n) {
		ssize_t r = write(outfd, buf + off, n - off);
		if (r <= 0) break;
		off += r;
	}
	__real_pthread_mutex_unlock(&out_lock);
}

static int unhex(const char *s, char *out)
{
	int n = 0;
	while (s[0] && s[1]) {
		unsigned v;
		if (sscanf(s, "%2x", &v) != 1) break;
		out[n++] = (char)v;
		s += 2;
	}
	out[n] = 0;
	return n;
}
static void hex(const char *s, size_t n, char *out)
{
	size_t i;
	for (i = 0; i < n; i++) sprintf(out + 2 * i, "%02x", (unsigned char)s[i]);
	out[2 * n] = 0;
}
static int count_dir(const char *p)
{
	DIR *d = opendir(p);
	struct dirent *e;
	int n = 0;
	if (!d) return -1;
	while ((e = readdir(d)) != NULL) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}

struct srv { int idx; long tag; };
static void *serve(void *p)
{
	struct srv *s = p;
	int ret;
	long n = 0;
	for (;;) {
		ret = proxy_process(&phs[s->idx]);
		if (ret < 0) break;
		n++;
	}
	reply("{\"ev\":\"serve_end\",\"h\":%d,\"ret\":%d,\"n\":%ld,\"tag\":%ld}", s->idx, ret, n, s->tag);
	__atomic_store_n(&serving[s->idx], 0, __ATOMIC_SEQ_CST);
	free(s);
	return NULL;
}

struct cmd { char id[32]; char line[8192]; };

static char **field(struct proxy_handle *ph, const char *k)
{
	if (!strcmp(k, "password")) return &ph->conf.password;
	if (!strcmp(k, "bind_addr")) return &ph->conf.bind_addr;
	if (!strcmp(k, "bind_addr_ext")) return &ph->conf.bind_addr_ext;
	if (!strcmp(k, "calls_allowed")) return &ph->conf.calls_allowed;
	if (!strcmp(k, "calls_denied")) return &ph->conf.calls_denied;
	if (!strcmp(k, "reg_name")) return &ph->conf.reg_name;
	if (!strcmp(k, "reg_comment")) return &ph->conf.reg_comment;
	if (!strcmp(k, "public_addr")) return &ph->conf.public_addr;
	return NULL;
}

static void dumpf(char *o, const char *k, const char *v)
{
	char *h;
	if (v == NULL) { sprintf(o + strlen(o), "\"%s\":null,", k); return; }
	h = __real_malloc(strlen(v) * 2 + 1);
	hex(v, strlen(v), h);
	sprintf(o + strlen(o), "\"%s\":\"%s\",", k, h);
	free(h);
}

struct logjob { struct proxy_handle *ph; int thread, count, lvl, len; };
static void *log_thread(void *p)
{
	struct logjob *j = p;
	char *pad = __real_malloc(j->len + 1);
	int i;
	memset(pad, 'x', j->len); pad[j->len] = 0;
	for (i = 0; i < j->count; i++)
		proxy_log(j->ph, j->lvl, "<%d:%d:%d:%s>\n", j->thread, i, j->len, pad);
	free(pad);
	return NULL;
}

struct authjob { struct proxy_handle *ph; char call[64]; int n, expect, bad; };
static void *auth_thread(void *p)
{
	struct authjob *j = p;
	int i;
	for (i = 0; i < j->n; i++)
		if ((proxy_authorize_callsign(j->ph, j->call) == 1) != j->expect) j->bad++;
	return NULL;
}

static void run(struct cmd *c)
{
	char *save = NULL;
	char *cmd = strtok_r(c->line, " \n", &save);
	char *a1 = strtok_r(NULL, " \n", &save);
	char *a2 = strtok_r(NULL, " \n", &save);
	char *a3 = strtok_r(NULL, " \n", &save);
	char *a4 = strtok_r(NULL, " \n", &save);
	char *a5 = strtok_r(NULL, " \n", &save);
	struct proxy_handle *ph = &phs[0];
	int h = 0, ret = 0;
	char tmp[8192];
	if (!cmd) { reply("{\"id\":\"%s\",\"err\":\"empty\"}", c->id); return; }
	if (cmd[0] >= '0' && cmd[0] <= '3' && cmd[1] == ':') { h = cmd[0] - '0'; ph = &phs[h]; cmd += 2; }

	if (!strcmp(cmd, "init")) ret = proxy_init(ph);
	else if (!strcmp(cmd, "zero")) memset(ph, 0, sizeof(*ph));
	else if (!strcmp(cmd, "load")) ret = proxy_load_conf(ph, a1);
	else if (!strcmp(cmd, "set")) {
		char **f = field(ph, a1);
		if (!strcmp(a1, "port")) ph->conf.port = (uint16_t)atoi(a2);
		else if (!strcmp(a1, "ext_add")) {
			int i;
			for (i = 0; i < ph->conf.bind_addr_ext_add_len; i++) free(ph->conf.bind_addr_ext_add[i]);
			free(ph->conf.bind_addr_ext_add);
			ph->conf.bind_addr_ext_add = NULL;
			ph->conf.bind_addr_ext_add_len = 0;
			if (a2) {
				char *sv2 = NULL, *t;
				ph->conf.bind_addr_ext_add = __real_malloc(1024 * sizeof(char *));
				for (t = strtok_r(a2, ",", &sv2); t; t = strtok_r(NULL, ",", &sv2))
					ph->conf.bind_addr_ext_add[ph->conf.bind_addr_ext_add_len++] = __real_strdup(t);
			}
		} else if (f) {
			free(*f);
			if (a2) { unhex(a2[0] == '-' ? "" : a2, tmp); *f = __real_strdup(tmp); }
			else *f = NULL;
		} else ret = -1000;
	}
	else if (!strcmp(cmd, "dump")) {
		char *o = __real_malloc(1 << 22), *e;
		int i;
		o[0] = 0;
		sprintf(o, "{\"id\":\"%s\",\"ret\":0,", c->id);
		dumpf(o, "password", ph->conf.password); dumpf(o, "bind_addr", ph->conf.bind_addr);
		dumpf(o, "bind_addr_ext", ph->conf.bind_addr_ext); dumpf(o, "calls_allowed", ph->conf.calls_allowed);
		dumpf(o, "calls_denied", ph->conf.calls_denied); dumpf(o, "reg_name", ph->conf.reg_name);
		dumpf(o, "reg_comment", ph->conf.reg_comment); dumpf(o, "public_addr", ph->conf.public_addr);
		sprintf(o + strlen(o), "\"timeout\":%u,\"port\":%u,\"add_len\":%u,\"add\":[", ph->conf.connection_timeout,
			ph->conf.port, ph->conf.bind_addr_ext_add_len);
		e = o + strlen(o);
		for (i = 0; i < ph->conf.bind_addr_ext_add_len; i++) {
			const char *v = ph->conf.bind_addr_ext_add[i];
			char *hx = __real_malloc(strlen(v) * 2 + 1);
			hex(v, strlen(v), hx);
			e += sprintf(e, "%s\"%s\"", i ? "," : "", hx);
			free(hx);
		}
		strcpy(e, "]}\n");
		__real_pthread_mutex_lock(&out_lock);
		{ size_t off = 0, n = strlen(o); while (off < n) { ssize_t r = write(outfd, o + off, n - off); if (r <= 0) break; off += r; } }
		__real_pthread_mutex_unlock(&out_lock);
		free(o);
		return;
	}
	else if (!strcmp(cmd, "open")) ret = proxy_open(ph);
	else if (!strcmp(cmd, "start")) ret = proxy_start(ph);
	else if (!strcmp(cmd, "process")) ret = proxy_process(ph);
	else if (!strcmp(cmd, "serve")) {
		pthread_t t;
		pthread_attr_t at;
		struct srv *s = __real_malloc(sizeof(*s));
		s->idx = h;
		s->tag = a1 ? atol(a1) : 0;
		__atomic_store_n(&serving[h], 1, __ATOMIC_SEQ_CST);
		pthread_attr_init(&at);
		pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
		ret = -__real_pthread_create(&t, &at, serve, s);
		pthread_attr_destroy(&at);
	}
	else if (!strcmp(cmd, "serving")) ret = __atomic_load_n(&serving[h], __ATOMIC_SEQ_CST);
	else if (!strcmp(cmd, "shutdown")) proxy_shutdown(ph);
	else if (!strcmp(cmd, "drop")) proxy_drop(ph);
	else if (!strcmp(cmd, "close")) proxy_close(ph);
	else if (!strcmp(cmd, "free")) proxy_free(ph);
	else if (!strcmp(cmd, "ident")) proxy_ident(ph);
	else if (!strcmp(cmd, "update")) proxy_update_registration(ph);
	else if (!strcmp(cmd, "auth")) { unhex(a1 ? a1 : "", tmp); ret = proxy_authorize_callsign(ph, tmp); }
	else if (!strcmp(cmd, "authmt")) {
		/* authmt <n> <hexcall:expect>,... : concurrent queries, one thread each */
		struct authjob j[16]; pthread_t t[16]; int k = 0, i; char *sv2 = NULL, *p;
		for (p = strtok_r(a2, ",", &sv2); p && k < 16; p = strtok_r(NULL, ",", &sv2)) {
			char *col = strchr(p, ':');
			*col = 0;
			memset(&j[k], 0, sizeof(j[k]));
			unhex(p, tmp); strncpy(j[k].call, tmp, 63);
			j[k].ph = ph; j[k].n = atoi(a1); j[k].expect = atoi(col + 1);
			k++;
		}
		for (i = 0; i < k; i++) __real_pthread_create(&t[i], NULL, auth_thread, &j[i]);
		for (i = 0; i < k; i++) { pthread_join(t[i], NULL); ret += j[i].bad; }
	}
	else if (!strcmp(cmd, "loglevel")) proxy_log_level(ph, (enum LOG_LEVEL)atoi(a1));
	else if (!strcmp(cmd, "logmedium")) ret = proxy_log_select_medium(ph, (enum LOG_MEDIUM)atoi(a1), a2);
	else if (!strcmp(cmd, "log")) { int n = unhex(a2 ? a2 : "", tmp); (void)n; proxy_log(ph, (enum LOG_LEVEL)atoi(a1), "%s", tmp); }
	else if (!strcmp(cmd, "logmt")) {
		/* logmt threads count lvl len [level of second half] */
		int n = atoi(a1), i; pthread_t t[32]; struct logjob j[32];
		for (i = 0; i < n && i < 32; i++) {
			j[i].ph = ph; j[i].thread = i; j[i].count = atoi(a2);
			j[i].lvl = (a5 && i % 2) ? atoi(a5) : atoi(a3);
			j[i].len = atoi(a4) + i * 3;
			__real_pthread_create(&t[i], NULL, log_thread, &j[i]);
		}
		for (i = 0; i < n && i < 32; i++) pthread_join(t[i], NULL);
	}
	else if (!strcmp(cmd, "nonce")) {
		uint32_t v = 0;
		ret = get_nonce(&v);
		reply("{\"id\":\"%s\",\"ret\":%d,\"nonce\":%u}", c->id, ret, v);
		return;
	}
	else if (!strcmp(cmd, "vf")) vf_set(a1, a2 ? a2 : "");
	else if (!strcmp(cmd, "counters")) {
		char cls[512] = "";
		int i;
		for (i = 0; i < VC_N; i++) sprintf(cls + strlen(cls), "%s\"%s\":%ld", i ? "," : "", vf_class_name[i], vf_ctl.class_count[i]);
		reply("{\"id\":\"%s\",\"ret\":0,\"close_ebadf\":%d,\"io_ebadf\":%d,\"destroy_busy\":%d,\"n_send\":%ld,\"n_recv\":%ld,\"n_short\":%ld,\"n_delay\":%ld,\"n_lock\":%ld,\"n_err\":%ld,\"n_hurry\":%ld,\"hurry_max\":%ld,\"hurry_ms\":%ld,\"fail_hits\":%d,\"fail_count\":%ld,\"fail_class\":\"%s\",\"fail_func\":\"%s\",\"classes\":{%s}}",
			c->id, vf_ctl.close_ebadf, vf_ctl.io_ebadf, vf_ctl.destroy_busy, vf_ctl.n_send, vf_ctl.n_recv,
			vf_ctl.n_short, vf_ctl.n_delay, vf_ctl.n_lock, vf_ctl.n_err, vf_ctl.n_hurry, vf_ctl.hurry_max, vf_ctl.hurry_ms, vf_ctl.fail_hits, vf_ctl.fail_count,
			vf_ctl.fail_hits ? vf_class_name[vf_ctl.fail_class] : "", vf_ctl.fail_func, cls);
		return;
	}
	else if (!strcmp(cmd, "lockmon")) {
		static char o[24000];
		vf_lockmon_dump(o, sizeof(o));
		reply("{\"id\":\"%s\",\"ret\":0,%s}", c->id, o);
		return;
	}
	else if (!strcmp(cmd, "stats")) {
		long heap = -1;
		int fds = count_dir("/proc/self/fd"), th = count_dir("/proc/self/task");
#ifdef VF_ASAN
		heap = (long)__sanitizer_get_current_allocated_bytes();
#endif
		reply("{\"id\":\"%s\",\"ret\":0,\"fds\":%d,\"threads\":%d,\"heap\":%ld}", c->id, fds, th, heap);
		return;
	}
	else if (!strcmp(cmd, "fdlist")) {
		DIR *d = opendir("/proc/self/fd");
		struct dirent *e;
		char o[8000] = "";
		while (d && (e = readdir(d)) != NULL) {
			char p[64], l[256];
			ssize_t k;
			if (e->d_name[0] == '.' || strlen(o) > 7000) continue;
			snprintf(p, sizeof(p), "/proc/self/fd/%s", e->d_name);
			k = readlink(p, l, sizeof(l) - 1);
			if (k < 0) continue;
			l[k] = 0;
			sprintf(o + strlen(o), "%s\"%s=%s\"", o[0] ? "," : "", e->d_name, l);
		}
		closedir(d);
		reply("{\"id\":\"%s\",\"ret\":0,\"fds\":[%s]}", c->id, o);
		return;
	}
	else if (!strcmp(cmd, "leakcheck")) {
#ifdef VF_ASAN
		ret = __lsan_do_recoverable_leak_check();
#endif
	}
	else if (!strcmp(cmd, "fflush")) fflush(NULL);
	else if (!strcmp(cmd, "ping")) ret = 0;
	else if (!strcmp(cmd, "exit")) {
		reply("{\"id\":\"%s\",\"ret\":0}", c->id);
		exit(a1 ? atoi(a1) : 0);
	}
	else { reply("{\"id\":\"%s\",\"err\":\"unknown %s\"}", c->id, cmd); return; }
	reply("{\"id\":\"%s\",\"ret\":%d}", c->id, ret);
}

static void *run_thread(void *p)
{
	struct cmd *c = p;
	run(c);
	free(c);
	return NULL;
}

int main(int argc, char **argv)
{
	static char line[8192];
	const char *fd = getenv("VF_OUTFD");
	(void)argc; (void)argv;
	if (fd) outfd = atoi(fd);
	signal(SIGPIPE, SIG_DFL);
	setvbuf(stdin, NULL, _IONBF, 0);
	reply("{\"ev\":\"hello\",\"pid\":%d}", (int)getpid());
	while (fgets(line, sizeof(line), stdin)) {
		struct cmd c, *cp;
		char *sp = strchr(line, ' ');
		if (!sp) continue;
		*sp = 0;
		/* whoever sent this knows what was replied before: so does this thread */
		__real_pthread_mutex_lock(&out_lock);
		__real_pthread_mutex_unlock(&out_lock);
		memset(&c, 0, sizeof(c));
		strncpy(c.id, line[0] == '&' ? line + 1 : line, sizeof(c.id) - 1);
		strncpy(c.line, sp + 1, sizeof(c.line) - 1);
		if (line[0] == '&') {
			pthread_t t;
			pthread_attr_t at;
			cp = __real_malloc(sizeof(*cp));
			memcpy(cp, &c, sizeof(c));
			pthread_attr_init(&at);
			pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
			__real_pthread_create(&t, &at, run_thread, cp);
			pthread_attr_destroy(&at);
		} else {
			run(&c);
		}
	}
	return 0;
}
