/* pthread, sleep, clock, exit seams. Mutexes etc. keep their whole state in the caller's object. */
#include "sim.h"
#include "sim_proc.h"
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

typedef struct { int type; int owner; int count; int pad; } smx_t; /* overlays pthread_mutex_t */
_Static_assert(sizeof(smx_t) <= sizeof(pthread_mutex_t), "mutex");

int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof *m);
    if (a) ((smx_t *) m)->type = *(const int *) a & 3;
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *) a = t; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
    sim_init();
    SIM_POINT();
    smx_t *s = (smx_t *) m;
    int me = sim_cur + 1;
    if (s->owner == 0) { s->owner = me; s->count = 1; return 0; }
    if (s->owner == me && (s->type & 3) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    return EBUSY;
}
static void lock_nopoint(smx_t *s) {
    int me = sim_cur + 1;
    if (s->owner == me) {
        if ((s->type & 3) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return; }
        sim_end("selfdeadlock", 0, "thread %d locks a mutex it already holds", sim_cur);
    }
    while (s->owner) sim_block(BK_MUTEX, s, NEVER);
    s->owner = me;
    s->count = 1;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    sim_init();
    SIM_POINT();
    lock_nopoint((smx_t *) m);
    SIM_POINT();
    return 0;
}
static void unlock_nopoint(smx_t *s) {
    if (s->owner == 0) sim_end("badunlock", 0, "unlock of an unlocked mutex %p", (void *) s);
    if (s->owner == sim_cur + 1 && --s->count > 0) return;
    s->owner = 0;
    s->count = 0;
    sim_wake(BK_MUTEX, s, -1);
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    unlock_nopoint((smx_t *) m);
    SIM_POINT();
    return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *s, int sh) { *(volatile int *) s = 0; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *s) {
    SIM_POINT();
    while (*(volatile int *) s) sim_block(BK_MUTEX, (void *) s, NEVER);
    *(volatile int *) s = 1;
    SIM_POINT();
    return 0;
}
int sim_pthread_spin_trylock(pthread_spinlock_t *s) {
    SIM_POINT();
    if (*(volatile int *) s) return EBUSY;
    *(volatile int *) s = 1;
    SIM_POINT();
    return 0;
}
int sim_pthread_spin_unlock(pthread_spinlock_t *s) {
    *(volatile int *) s = 0;
    sim_wake(BK_MUTEX, (void *) s, -1);
    SIM_POINT();
    return 0;
}

int sim_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { memset(c, 0, sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
int sim_pthread_cond_signal(pthread_cond_t *c) { SIM_POINT(); sim_wake_one_pick(BK_COND, c); SIM_POINT(); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { SIM_POINT(); sim_wake(BK_COND, c, -1); SIM_POINT(); return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl) {
    smx_t *s = (smx_t *) m;
    int64_t sp = sim_fault(D_SPURIOUS, 0, 1, 5000000);
    int spur = 0;
    if (sp && (dl == NEVER || sim_now() + sp < dl)) { dl = sim_now() + sp; spur = 1; }
    unlock_nopoint(s);
    int to = sim_block(BK_COND, c, dl);
    lock_nopoint(s);
    return to && !spur ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, NEVER); }
#define EPOCH0 1700000000LL
static int64_t wall_skew;
/* a deadline on either clock: readings of the two are decades apart */
static int64_t deadline(const struct timespec *ts) {
    int64_t n = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    return ts->tv_sec >= EPOCH0 / 2 ? n - EPOCH0 * 1000000000LL - wall_skew : n;
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    return cwait(c, m, deadline(ts));
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    sim_init();
    SIM_POINT();
    smx_t *s = (smx_t *) m;
    while (s->owner && s->owner != sim_cur + 1) if (sim_block(BK_MUTEX, s, deadline(ts)) && s->owner) return ETIMEDOUT;
    lock_nopoint(s);
    SIM_POINT();
    return 0;
}

typedef struct { int w; int r; } srw_t;
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { memset(l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { SIM_POINT(); srw_t *s = (void *) l; while (s->w) sim_block(BK_RW, l, NEVER); s->r++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { SIM_POINT(); srw_t *s = (void *) l; while (s->w || s->r) sim_block(BK_RW, l, NEVER); s->w = 1; return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { SIM_POINT(); srw_t *s = (void *) l; if (s->w) return EBUSY; s->r++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { SIM_POINT(); srw_t *s = (void *) l; if (s->w || s->r) return EBUSY; s->w = 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { srw_t *s = (void *) l; if (s->w) s->w = 0; else s->r--; sim_wake(BK_RW, l, -1); SIM_POINT(); return 0; }

int sim_sem_init(sem_t *s, int sh, unsigned v) { *(volatile int *) s = (int) v; return 0; }
int sim_sem_destroy(sem_t *s) { return 0; }
int sim_sem_post(sem_t *s) { SIM_POINT(); (*(volatile int *) s)++; sim_wake_one_pick(BK_SEM, s); SIM_POINT(); return 0; }
int sim_sem_wait(sem_t *s) { SIM_POINT(); while (*(volatile int *) s <= 0) sim_block(BK_SEM, s, NEVER); (*(volatile int *) s)--; return 0; }
int sim_sem_timedwait(sem_t *s, const struct timespec *ts) {
    SIM_POINT();
    while (*(volatile int *) s <= 0) if (sim_block(BK_SEM, s, deadline(ts)) && *(volatile int *) s <= 0) { errno = ETIMEDOUT; return -1; }
    (*(volatile int *) s)--;
    return 0;
}
int sim_sem_trywait(sem_t *s) { SIM_POINT(); if (*(volatile int *) s <= 0) { errno = EAGAIN; return -1; } (*(volatile int *) s)--; return 0; }

int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    sim_init();
    volatile int *s = (volatile int *) o;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; fn(); *s = 2; sim_wake(BK_ONCE, o, -1); return 0; }
        sim_block(BK_ONCE, o, NEVER);
    }
}
typedef struct { unsigned n, in, gen; } sbar_t;
int sim_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) { memset(b, 0, sizeof *b); ((sbar_t *) b)->n = n; return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *b) {
    sbar_t *s = (void *) b;
    unsigned g = s->gen;
    if (++s->in == s->n) { s->in = 0; s->gen++; sim_wake(BK_BARRIER, b, -1); return PTHREAD_BARRIER_SERIAL_THREAD; }
    while (s->gen == g) sim_block(BK_BARRIER, b, NEVER);
    return 0;
}
int sim_pthread_barrier_destroy(pthread_barrier_t *b) { return 0; }

/* ---- time ---- */
static int64_t gran = 0;
static int64_t sleep_ns(int64_t ns) {
    if (!gran) gran = sim_cfg("sleep_gran_us", 60) * 1000;
    return ns + gran;
}
int sim_usleep(useconds_t us) {
    sim_init();
    sim_block(BK_SLEEP, NULL, sim_now() + sleep_ns((int64_t) us * 1000));
    return 0;
}
int sim_nanosleep(const struct timespec *a, struct timespec *b) {
    sim_init();
    sim_block(BK_SLEEP, NULL, sim_now() + sleep_ns(a->tv_sec * 1000000000LL + a->tv_nsec));
    return 0;
}
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (!(fl & TIMER_ABSTIME)) return sim_nanosleep(a, b);
    sim_init();
    sim_block(BK_SLEEP, NULL, deadline(a));
    return 0;
}
unsigned sim_sleep(unsigned n) {
    sim_init();
    sim_block(BK_SLEEP, NULL, sim_now() + sleep_ns((int64_t) n * 1000000000LL));
    return 0;
}
int sim_sched_yield(void) {
    SIM_POINT();
    sim_block(BK_SLEEP, NULL, sim_now());
    return 0;
}
void sim_wall_jump(int64_t ns) { wall_skew += ns; }
static int64_t wall(void) {
    /* the wall clock may be set, forwards or backwards, at any reading */
    wall_skew += sim_fault(D_CLOCKJUMP, 0, -100000, 100000) * NS_MS;
    return EPOCH0 * 1000000000LL + sim_now() + wall_skew; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
    sim_init();
    int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall() : sim_now();
    ts->tv_sec = n / 1000000000LL;
    ts->tv_nsec = n % 1000000000LL;
    return 0;
}
int sim_clock_getres(clockid_t c, struct timespec *ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
int sim_gettimeofday(struct timeval *tv, void *tz) { sim_init(); int64_t n = wall(); tv->tv_sec = n / 1000000000LL; tv->tv_usec = n % 1000000000LL / 1000; return 0; }
time_t sim_time(time_t *t) { sim_init(); time_t v = wall() / 1000000000LL; if (t) *t = v; return v; }
int sim_rand(void) { sim_init(); return (int) sim_decide(D_RAND, 0, 1000000, 0, RAND_MAX); }

long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned n) {}
void sim_srandom(unsigned n) {}

/* ---- cpus ---- */
int sim_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    sim_init();
    memset(s, 0, n);
    for (int i = 0; i < sim_cfg("nproc", 3); i++) CPU_SET(i, s);
    return 0;
}
/* the runtime sizes its processor table from uv_cpu_info */
#include "uv.h"
int sim_uv_cpu_info(uv_cpu_info_t **i, int *n) { sim_init(); *i = NULL; *n = (int) sim_cfg("nproc", 3); return 0; }
void sim_uv_free_cpu_info(uv_cpu_info_t *i, int n) {}
unsigned sim_uv_available_parallelism(void) { sim_init(); return (unsigned) sim_cfg("nproc", 3); }

/* ---- termination ---- */
void sim_exit(int code) { sim_init(); sim_end("exit", code, "exit(%d)", code); }
void sim__exit(int code) { if (sim_in_child) sim_child__exit(code); sim_init(); sim_end("exit", code, "_exit(%d)", code); }
void sim_abort(void) { sim_init(); sim_end("abort", 0, "abort() at %p", __builtin_return_address(0)); }
void sim___assert_fail(const char *e, const char *f, int l, const char *fn) {
    sim_init();
    const char *b = strrchr(f, '/');
    sim_end("assert", l, "%s:%d %s: %s", b ? b + 1 : f, l, fn, e);
}
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o);

/* ---- functions callable from Nature workloads ---- */
void simn_ev(int64_t k, int64_t a, int64_t b, int64_t c) { sim_ev("w", k, a, b, c); }
int64_t simn_param(int64_t i) { char k[16]; snprintf(k, sizeof k, "wp%lld", (long long) i); return sim_cfg(k, 0); }
int64_t simn_rnd(int64_t key, int64_t n) {
    static uint64_t s; static int have;
    if (!have) { s = sim_mix((uint64_t) sim_cfg("wseed", 1)); have = 1; }
    return n <= 0 ? 0 : (int64_t) (sim_mix(s ^ sim_mix((uint64_t) key)) % (uint64_t) n);
}
void simn_wall_jump(int64_t ms) { SIM_POINT(); wall_skew += ms * NS_MS; }
int64_t simn_now(void) { return sim_now(); }
void simn_point(void) { sim_pt(sim_w_sync, __builtin_return_address(0)); }
void simn_faults(int64_t on) { sim_faults_on = (int) on; }
int64_t simn_hash(void *p, int64_t n) {
    uint64_t h = 1469598103934665603ULL;
    for (int64_t i = 0; i < n; i++) h = (h ^ ((uint8_t *) p)[i]) * 1099511628211ULL;
    return (int64_t) (h & 0x7fffffffffffffffLL);
}
void simn_fail(int64_t code, int64_t a, int64_t b) { sim_end("oracle", code, "workload oracle code=%lld a=%lld b=%lld", (long long) code, (long long) a, (long long) b); }
void simn_busy(int64_t ns) { int64_t t = sim_now() + ns; while (sim_now() < t) sim_pt(1000, __builtin_return_address(0)); }

/* the runtime's main is renamed to sim_app_main at link time */
int sim_app_main(int argc, char **argv);
int main(int argc, char **argv) {
    sim_init();
    int r = sim_app_main(argc, argv);
    sim_end("exit", r, "main returned %d", r);
}
