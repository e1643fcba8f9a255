/* Drives the library's own client (proxy_client) on command; the servers and the
 * oracle are outside.  One line in, one line out. */
#define _GNU_SOURCE
#include <dirent.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "openelp/openelp.h"
#include "proxy_client.h"
#include "wrap.h"
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  include <sanitizer/lsan_interface.h>
#  define LEAKS() __lsan_do_recoverable_leak_check()
# endif
#endif
#ifndef LEAKS
# define LEAKS() 0
#endif
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
void *__real_malloc(size_t);

static struct proxy_client_handle ch[4];
static struct { pthread_t t; int i, ret; volatile int done; } bg[4];

static int fds(void)
{
	DIR *d = opendir("/proc/self/fd"); struct dirent *e; int n = 0;
	while ((e = readdir(d)) != NULL) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}
static void on_alarm(int s) { (void)s; if (write(1, "hang\n", 5)) {} _exit(0); }
static char *text(const char *hex)
{
	size_t n, i; char *b;
	if (!hex || !strcmp(hex, "NULL")) return NULL;
	if (!strcmp(hex, "-")) hex = "";
	n = strlen(hex) / 2; b = __real_malloc(n + 1);
	for (i = 0; i < n; i++) { unsigned v; sscanf(hex + 2 * i, "%2x", &v); b[i] = (char)v; }
	b[n] = 0;
	return b;
}
static void *bgconn(void *p)
{
	int i = *(int *)p;
	bg[i].ret = proxy_client_connect(&ch[i]);
	__atomic_store_n(&bg[i].done, 1, __ATOMIC_SEQ_CST);
	return NULL;
}

int main(void)
{
	char *line = NULL; size_t cap = 0;
	signal(SIGALRM, on_alarm);
	setvbuf(stdout, NULL, _IOLBF, 0);
	while (getline(&line, &cap, stdin) > 0) {
		char *sv = NULL, *c = strtok_r(line, " \n", &sv), *a = strtok_r(NULL, " \n", &sv), *b = strtok_r(NULL, " \n", &sv), *d = strtok_r(NULL, " \n", &sv);
		int i = a ? atoi(a) & 3 : 0;
		if (!c) continue;
		alarm(45);
		if (!strcmp(c, "init")) printf("%d\n", proxy_client_init(&ch[i]));
		else if (!strcmp(c, "set")) {
			char **f = !strcmp(b, "host") ? &ch[i].host_addr : !strcmp(b, "port") ? &ch[i].host_port : !strcmp(b, "call") ? &ch[i].callsign : &ch[i].password;
			free(*f); *f = text(d); printf("0\n");
		} else if (!strcmp(c, "conn")) { int r = proxy_client_connect(&ch[i]); printf("%d %d\n", r, fds()); }
		else if (!strcmp(c, "connbg")) { bg[i].i = i; bg[i].done = 0; printf("%d\n", __real_pthread_create(&bg[i].t, NULL, bgconn, &bg[i].i)); }
		else if (!strcmp(c, "done")) { if (__atomic_load_n(&bg[i].done, __ATOMIC_SEQ_CST)) { pthread_join(bg[i].t, NULL); printf("%d %d\n", bg[i].ret, fds()); } else printf("wait\n"); }
		else if (!strcmp(c, "disc")) { proxy_client_disconnect(&ch[i]); printf("0 %d\n", fds()); }
		else if (!strcmp(c, "free")) { proxy_client_free(&ch[i]); printf("%d %d\n", ch[i].priv != NULL, fds()); }
		else if (!strcmp(c, "forget")) {
			free(ch[i].host_addr); free(ch[i].host_port); free(ch[i].callsign); free(ch[i].password);
			memset(&ch[i], 0, sizeof(ch[i])); printf("0\n");
		}
		else if (!strcmp(c, "fds")) printf("%d\n", fds());
		else if (!strcmp(c, "leak")) printf("%d\n", LEAKS());
		else if (!strcmp(c, "vf")) { vf_set(a, b); printf("0\n"); }
		else if (!strcmp(c, "fault")) printf("%d %s\n", vf_ctl.fail_hits, vf_ctl.fail_func[0] ? vf_ctl.fail_func : "-");
		else printf("unknown\n");
		fflush(stdout);
		alarm(0);
	}
	for (int i = 0; i < 4; i++) { free(ch[i].host_addr); free(ch[i].host_port); free(ch[i].callsign); free(ch[i].password); }
	free(line);
	return 0;
}
