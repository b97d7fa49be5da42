/* Deterministic simulator for the Nature runtime: shared declarations.
 *
 * The whole program (generated code + runtime + libuv) runs in one process.  Every OS thread it
 * creates is parked on a futex and released one at a time by sim_core.c; all time, scheduling, I/O
 * and randomness goes through the sim_* seams. */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>

#define SIM_MAX_THREADS 1024
#define NS_MS 1000000LL
#define NEVER INT64_MAX

enum { T_FREE, T_RUN, T_BLOCK, T_DEAD };
enum { BK_NONE, BK_MUTEX, BK_COND, BK_RW, BK_SEM, BK_JOIN, BK_SLEEP, BK_POLL, BK_ONCE, BK_BARRIER, BK_IO };

typedef struct {
    int state;
    int futex;
    int tid;
    int bkind;
    const void *baddr;
    int64_t deadline;   /* virtual ns; NEVER if none */
    int64_t stall_until;
    int timed_out;
    uint64_t cnt;       /* weighted points executed by this thread: key of preemption decisions */
    uint64_t blocks;    /* times this thread blocked: key of pick decisions */
    uint32_t weight;    /* scheduling weight (swarm) */
    void *(*fn)(void *);
    void *arg, *ret;
    pthread_t real;
    int detached;
    int actor;          /* stands for something outside the program */
} sim_thread_t;

/* decision kinds (also fault kinds); name table in sim_core.c */
enum {
    D_PREEMPT, D_PICK, D_STALL, D_EPOLL_ORDER, D_SPURIOUS, D_CLOCKJUMP,
    D_NET_DELAY, D_NET_SEG, D_NET_SHORTREAD, D_NET_SHORTWRITE, D_NET_EAGAIN, D_NET_RST, D_NET_CONNDROP, D_NET_REFUSE,
    D_NET_SNDBUF, D_ACCEPT_FAIL, D_SOCK_FAIL,
    D_UDP_LOSS, D_UDP_DUP, D_UDP_DELAY, D_UDP_SENDFAIL,
    D_FS_OPEN, D_FS_READ_ERR, D_FS_READ_SHORT, D_FS_WRITE_ERR, D_FS_WRITE_SHORT, D_FS_EINTR, D_FS_DELAY, D_FS_FSYNC, D_FS_STAT, D_FS_CLOSE,
    D_SPAWN_FAIL, D_CHILD_DELAY, D_CHILD_SEG, D_CHILD_KILL, D_DNS_FAIL, D_DNS_DELAY, D_SIG_DELAY,
    D_RAND, D_WORK, D_COND_ORDER, D_MMAP_FAIL, D_THREAD_FAIL, D_EPOLL_EINTR,
    D_FS_ENOSPC, D_FS_NOTSUP, D_CRASH, D_MALLOC_FAIL, D_USER1, D_USER2, D_USER3,
    D_MAX
};

extern sim_thread_t sim_thr[SIM_MAX_THREADS];
extern int sim_cur, sim_nthr, sim_active, sim_faults_on;
extern int64_t sim_budget;
extern int64_t sim_w_atomic, sim_w_sync;

int64_t sim_now(void);
void sim_slow(const void *pc);
/* always a real call so that the footprint on the caller's stack (which the collector scans conservatively)
 * does not depend on whether the scheduler is entered */
void sim_pt(int64_t w, const void *pc);
#define SIM_POINT() sim_pt(sim_w_sync, __builtin_return_address(0))

/* block the current thread; returns 1 if the deadline fired, 0 if woken */
int sim_block(int kind, const void *addr, int64_t deadline);
int sim_wake(int kind, const void *addr, int max); /* max<0: all */
int sim_wake_one_pick(int kind, const void *addr);

/* seeded choice: dflt with probability 1-ppm/1e6, else uniform in [lo,hi] */
int64_t sim_decide(int kind, int64_t dflt, int64_t ppm, int64_t lo, int64_t hi);
int64_t sim_fault(int kind, int64_t dflt, int64_t lo, int64_t hi); /* rate from cfg, 0 if faults off */
int64_t sim_cfg(const char *k, int64_t dflt);
const char *sim_cfgs(const char *k);
void sim_end(const char *kind, int64_t code, const char *fmt, ...) __attribute__((noreturn));
void sim_ev(const char *tag, int64_t a, int64_t b, int64_t c, int64_t d);
void sim_probe(const char *name);
void sim_trace(const char *fmt, ...);
void sim_init(void);
uint64_t sim_mix(uint64_t x);

/* net/fs sides */
int sim_fd_is(int fd);
void sim_raise(int s);
extern int sim_in_child;
void sim_net_kick(void);
#endif
