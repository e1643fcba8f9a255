/* Control block of the system-call/library-call boundary monitor (wrap.c). */
#ifndef VF_WRAP_H
#define VF_WRAP_H
#include <stdint.h>

enum vf_class {
	VC_ALLOC = 0, VC_THREAD, VC_LOCKINIT, VC_SOCKET, VC_SOCKOPT, VC_BIND,
	VC_LISTEN, VC_ACCEPT, VC_CONNECT, VC_RESOLVE, VC_SEND, VC_RECV,
	VC_FOPEN, VC_FORK, VC_PROC, VC_UDPSEND, VC_N
};
extern const char *const vf_class_name[VC_N];

struct vf_ctl {
	volatile int short_send_pm;   /* probability (1/1000) of capping a send */
	volatile int short_recv_pm;   /* the same for receives */
	volatile int short_max;       /* the largest capped transfer */
	volatile int delay_pm;        /* probability (1/1000) of a delay at a sync point */
	volatile int delay_us;        /* longest delay */
	volatile int send_delay_us;   /* probability-free pause before each capped send */
	volatile unsigned slow_mask;  /* classes whose calls are preceded by a fixed pause */
	volatile int slow_us;         /* that pause */
	volatile int err_pm;          /* probability (1/1000) that a call of the classes err_mask fails */
	volatile unsigned err_mask;
	volatile int err_no;          /* the error of failed socket, bind and connect calls, 0 = the usual one */
	volatile long n_err;
	volatile unsigned fail_mask;  /* classes that take part in fault counting */
	volatile long fail_at;        /* 1-based index of the call to fail, 0 = none */
	volatile long fail_count;     /* calls counted since armed */
	volatile int armed;
	volatile int fail_hits;
	volatile int fail_class;      /* class of the call that was failed */
	char fail_func[48];
	volatile int close_ebadf;     /* close() of a descriptor that was not open */
	volatile int io_ebadf;        /* I/O on a non-negative descriptor that was not open */
	volatile int destroy_busy;    /* destroying a held lock */
	volatile long n_send, n_recv, n_short, n_delay, n_lock;
	char registrar[64];           /* numeric address standing in for the registration host */
	volatile int registrar_gai_fail;
	volatile long hurry;          /* timed waits of 5 s and more are this many times shorter */
	volatile long keep_div;       /* keepalive and receive times of sockets are this many times shorter (s: 1 at least) */
	volatile long n_hurry;        /* such waits which ran out */
	volatile long hurry_max;      /* the longest time asked for (ms) */
	volatile long hurry_ms;       /* all the time which passed for the caller in them (ms) */
	volatile long clock_step;     /* the wall clock has been set forward by so many seconds */
	volatile long n_clock;        /* timed waits which had a step of the clock */
	volatile long class_count[VC_N];
};
extern struct vf_ctl vf_ctl;
extern int vf_lockmon;
void *vf_lockmon_start(void *(*f)(void *), void *c);
extern void *(*vf_lockmon_begin)(void *);
int vf_lockmon_dump(char *o, int max);
void vf_seed(uint64_t s);
void vf_clock(long step);
void vf_set(const char *key, const char *val);
void vf_syslog_path(const char *path);
#endif
