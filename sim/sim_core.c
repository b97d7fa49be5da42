/* Scheduler, virtual clock, decision stream, history log. */
#include "sim.h"
#include <fcntl.h>
#define FUTEX_WAIT 0
#define FUTEX_WAKE 1
#define FUTEX_PRIVATE_FLAG 128
#include <signal.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

static const char *const dname[D_MAX] = {
    "preempt", "pick", "stall", "epoll_order", "spurious_wakeup", "clock_jump",
    "net_delay", "net_segment", "net_short_read", "net_short_write", "net_eagain", "net_rst", "net_conn_drop", "net_refuse",
    "net_small_sndbuf", "accept_fail", "sock_fail",
    "udp_loss", "udp_dup", "udp_delay", "udp_sendfail",
    "fs_open_err", "fs_read_err", "fs_short_read", "fs_write_err", "fs_short_write", "fs_eintr", "fs_delay", "fs_fsync_err", "fs_stat_err", "fs_close_err",
    "spawn_fail", "child_delay", "child_segment", "child_kill", "dns_fail", "dns_delay", "sig_delay",
    "rand", "work", "cond_order", "mmap_fail", "thread_fail", "epoll_eintr",
    "fs_enospc", "fs_notsup", "crash", "malloc_fail", "user1", "user2", "user3",
};

sim_thread_t sim_thr[SIM_MAX_THREADS];
int sim_cur, sim_nthr, sim_active, sim_faults_on = 1;
int64_t sim_budget = INT64_MAX / 2;
int64_t sim_w_atomic = 8, sim_w_sync = 40;

static int64_t budget_start; /* sim_budget value at last settle */
static uint64_t total_units, since_switch, n_switch, n_slow, force_units, step_cap;
static int64_t now_base, unit_ns, time_cap;
static int64_t last_progress, quiet_ns, hang_ns, stall_budget; /* liveness: faults stop after quiet_ns without a history event, hang after hang_ns more */
static int64_t mean_budget;   /* mean units between preemption opportunities; 0 = never */
static int replay_mode, trace_on, dump_dec;
static int64_t stall_ppm, stall_max;
static int pick_mode;
static uint64_t rng[4];
static uint64_t h_all = 1469598103934665603ULL, h_sched = 1469598103934665603ULL;
static uint64_t dcount[D_MAX], dfired[D_MAX];
static int64_t drate[D_MAX];
static char *tracef; /* trace buffer */
static size_t tracen;
#define TRACE_CAP (1ull << 30)

/* ---------- config ---------- */
static char cfg_buf[1 << 16];
static struct { char *k, *v; } cfg[512];
static int ncfg;

/* the simulator's own memory lives at a fixed place so that it never moves the program's mappings */
static void *sim_map(size_t n) {
    static char *next = (char *) 0x600000000000;
    n = (n + 4095) & ~(size_t) 4095;
    void *p = mmap(next, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    next += n + 4096;
    return p;
}
static int raw_open_read(const char *p, char **buf, size_t *len) {
    int fd = open(p, O_RDONLY);
    if (fd < 0) return -1;
    size_t cap = 1 << 16, n = 0;
    char *b = sim_map(256 << 20);
    for (;;) {
        ssize_t r = read(fd, b + n, cap);
        if (r <= 0) break;
        n += r;
    }
    close(fd);
    b[n] = 0;
    *buf = b;
    *len = n;
    return 0;
}

const char *sim_cfgs(const char *k) {
    for (int i = 0; i < ncfg; i++)
        if (!strcmp(cfg[i].k, k)) return cfg[i].v;
    return NULL;
}
int64_t sim_cfg(const char *k, int64_t dflt) {
    const char *v = sim_cfgs(k);
    return v ? strtoll(v, NULL, 0) : dflt;
}

/* ---------- rng ---------- */
uint64_t sim_mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd(void) {
    uint64_t r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
    rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3];
    rng[2] ^= t; rng[3] = rotl(rng[3], 45);
    return r;
}
static uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }

/* ---------- decisions ---------- */
typedef struct { uint16_t kind; uint16_t tid; uint64_t key; int64_t val; } dec_t;
static dec_t *rec;         /* recorded non-default decisions */
static size_t nrec, caprec = 4 << 20;
static dec_t *rep;         /* replay table, open addressing */
static size_t repcap;
static uint64_t **rep_pre; /* per-thread sorted preempt keys */
static size_t *rep_npre, *rep_ipre;

static void record(int kind, int tid, uint64_t key, int64_t val) {
    if (nrec < caprec) rec[nrec++] = (dec_t) {kind, tid, key, val};
}
static size_t dhash(int kind, int tid, uint64_t key) { return sim_mix(key * 1315423911u + kind * 977u + tid * 31337u); }
static int lookup(int kind, int tid, uint64_t key, int64_t *val) {
    if (!repcap) return 0;
    for (size_t i = dhash(kind, tid, key) & (repcap - 1);; i = (i + 1) & (repcap - 1)) {
        if (rep[i].kind == 0xffff) return 0;
        if (rep[i].kind == kind && rep[i].tid == tid && rep[i].key == key) { *val = rep[i].val; return 1; }
    }
}
static int cmpu(const void *a, const void *b) {
    uint64_t x = *(uint64_t *) a, y = *(uint64_t *) b;
    return x < y ? -1 : x > y;
}
static void load_replay(const char *path) {
    char *b; size_t n;
    if (raw_open_read(path, &b, &n)) return;
    size_t lines = 0;
    for (size_t i = 0; i < n; i++) lines += b[i] == '\n';
    repcap = 64;
    while (repcap < lines * 3) repcap <<= 1;
    rep = sim_map(repcap * sizeof(dec_t));
    for (size_t i = 0; i < repcap; i++) rep[i].kind = 0xffff;
    rep_pre = sim_map(SIM_MAX_THREADS * 8);
    rep_npre = sim_map(SIM_MAX_THREADS * 8);
    rep_ipre = sim_map(SIM_MAX_THREADS * 8);
    uint64_t *pool = sim_map((lines + 1) * 8);
    for (int pass = 0; pass < 2; pass++) {
        char *p = b, *e = b + n;
        size_t off = 0;
        if (pass == 1) {
            for (int t = 0; t < SIM_MAX_THREADS; t++) { rep_pre[t] = pool + off; off += rep_npre[t]; rep_npre[t] = 0; }
        }
        while (p < e) {
            char *nl = memchr(p, '\n', e - p);
            if (!nl) break;
            *nl = 0;
            char nm[64]; int tid; unsigned long long key; long long val;
            if (sscanf(p, "%63s %d %llu %lld", nm, &tid, &key, &val) == 4) {
                int kind = -1;
                for (int i = 0; i < D_MAX; i++) if (!strcmp(dname[i], nm)) kind = i;
                if (kind >= 0 && tid >= 0 && tid < SIM_MAX_THREADS) {
                    if (kind == D_PREEMPT || kind == D_STALL) {
                        if (pass == 1) rep_pre[tid][rep_npre[tid]] = key;
                        rep_npre[tid]++;
                    }
                    if (pass == 1) {
                        size_t i = dhash(kind, tid, key) & (repcap - 1);
                        while (rep[i].kind != 0xffff) i = (i + 1) & (repcap - 1);
                        rep[i] = (dec_t) {kind, tid, key, val};
                    }
                }
            }
            *nl = '\n';
            p = nl + 1;
        }
    }
    for (int t = 0; t < SIM_MAX_THREADS; t++) qsort(rep_pre[t], rep_npre[t], 8, cmpu);
}

int64_t sim_decide_c(int kind, int64_t dflt, int64_t ppm, int64_t lo, int64_t hi) {
    uint64_t key = dcount[kind]++;
    int64_t v = dflt;
    if (replay_mode) {
        lookup(kind, 0, key, &v);
    } else if (ppm > 0 && (int64_t) rndn(1000000) < ppm) {
        v = lo + (int64_t) rndn((uint64_t) (hi - lo) + 1);
        if (v != dflt) record(kind, 0, key, v);
    }
    if (v != dflt) {
        dfired[kind]++;
        h_all = (h_all ^ (uint64_t) (kind * 131 + v)) * 1099511628211ULL;
    }
    return v;
}
int64_t sim_fault(int kind, int64_t dflt, int64_t lo, int64_t hi) {
    int64_t r = sim_faults_on ? drate[kind] : 0;
    if (replay_mode && !sim_faults_on) { dcount[kind]++; return dflt; }
    return sim_decide(kind, dflt, r, lo, hi);
}

/* ---------- history ---------- */
typedef struct { const char *tag; int64_t t; int tid; int64_t a, b, c, d; } ev_t;
static ev_t *evs;
static size_t nevs;
#define MAXEVS (1 << 20)
#define NPROBE 64
static struct { const char *n; uint64_t c; } probes[NPROBE];

static void hmix(uint64_t v) { h_all = (h_all ^ sim_mix(v)) * 1099511628211ULL; }
void sim_ev_c(const char *tag, int64_t a, int64_t b, int64_t c, int64_t d) {
    if (!evs || nevs >= MAXEVS) return;
    evs[nevs++] = (ev_t) {tag, sim_now(), sim_cur, a, b, c, d};
    last_progress = now_base;
    hmix(a); hmix(b * 3); hmix(c * 5); hmix(d * 7);
    if (tracef) sim_trace("ev %s %lld %lld %lld %lld", tag, (long long) a, (long long) b, (long long) c, (long long) d);
}
void sim_probe(const char *name) {
    for (int i = 0; i < NPROBE; i++) {
        if (!probes[i].n) probes[i].n = name;
        if (probes[i].n == name || !strcmp(probes[i].n, name)) { probes[i].c++; return; }
    }
}
void sim_trace(const char *fmt, ...) {
    if (!tracef) return;
    va_list ap;
    va_start(ap, fmt);
    if (tracen + 4096 < TRACE_CAP) {
        tracen += (size_t) snprintf(tracef + tracen, 64, "[%lld t%d] ", (long long) (now_base), sim_cur);
        int k = vsnprintf(tracef + tracen, 3000, fmt, ap);
        tracen += (size_t) (k > 2999 ? 2999 : k);
        tracef[tracen++] = '\n';
    }
    va_end(ap);
}

static volatile int ending;
void sim_end(const char *kind, int64_t code, const char *fmt, ...) {
    if (ending) for (;;) syscall(SYS_exit_group, 97);
    ending = 1;
    char msg[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    for (char *p = msg; *p; p++) if (*p == '\n') *p = ' ';
    if (!strcmp(kind, "exit")) fflush(NULL);
    FILE *f = fopen("out", "w");
    if (f) {
        fprintf(f, "END %s %lld %s\n", kind, (long long) code, msg);
        fprintf(f, "STAT units=%llu switches=%llu slow=%llu vtime_ns=%lld threads=%d hash=%016llx ihash=%016llx ndec=%zu nev=%zu\n",
                (unsigned long long) total_units, (unsigned long long) n_switch, (unsigned long long) n_slow, (long long) sim_now(), sim_nthr,
                (unsigned long long) h_all, (unsigned long long) h_sched, nrec, nevs);
        for (int i = 0; i < D_MAX; i++)
            if (dfired[i]) fprintf(f, "FAULT %s %llu\n", dname[i], (unsigned long long) dfired[i]);
        for (int i = 0; i < NPROBE && probes[i].n; i++) fprintf(f, "PROBE %s %llu\n", probes[i].n, (unsigned long long) probes[i].c);
        for (size_t i = 0; i < nevs; i++)
            fprintf(f, "E %s %lld %d %lld %lld %lld %lld\n", evs[i].tag, (long long) evs[i].t, evs[i].tid, (long long) evs[i].a, (long long) evs[i].b,
                    (long long) evs[i].c, (long long) evs[i].d);
        fclose(f);
    }
    if (dump_dec && (f = fopen("dec", "w"))) {
        for (size_t i = 0; i < nrec; i++)
            fprintf(f, "%s %d %llu %lld\n", dname[rec[i].kind], rec[i].tid, (unsigned long long) rec[i].key, (long long) rec[i].val);
        fclose(f);
    }
    if (tracef && (f = fopen("trace", "w"))) {
        fwrite(tracef, 1, tracen, f);
        fclose(f);
    }
    syscall(SYS_exit_group, strcmp(kind, "exit") ? 96 : (int) code);
    __builtin_unreachable();
}

/* ---------- clock ---------- */
static inline void settle(void) {
    uint64_t used = (uint64_t) (budget_start - sim_budget);
    budget_start = sim_budget;
    if (!used) return;
    sim_thr[sim_cur].cnt += used;
    total_units += used;
    since_switch += used;
    now_base += (int64_t) used * unit_ns;
}
int64_t sim_now(void) {
    if (sim_active) settle();
    return now_base;
}

/* ---------- scheduling ---------- */
/* The scheduler runs on its own stack per thread: coroutine stacks are scanned conservatively by the collector
 * under test, so the scheduler must leave nothing on them. */
char *sim_stk_top[SIM_MAX_THREADS], *sim_saved_sp[SIM_MAX_THREADS];
#define SIM_STK (64 << 10)
/* All caller-saved registers are preserved too: a safepoint of the program may spill dead registers to a scanned
 * stack, so a run that enters the scheduler must look like one that does not. */
uint64_t sim_r11;
#define TRAMP(name, impl, arg, keep, tail) \
    ".globl " name "\n.type " name ",@function\n" name ":\n" \
    "mov %r11, sim_r11(%rip)\n movslq sim_cur(%rip), %r11\n mov %rsp, sim_saved_sp(,%r11,8)\n mov sim_stk_top(,%r11,8), %rsp\n" \
    "push sim_r11(%rip)\n push %rcx\n push %rdx\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %rax\n" \
    "sub $520, %rsp\n fxsave64 (%rsp)\n" arg "call " impl "\n fxrstor64 (%rsp)\n add $520, %rsp\n" keep \
    "pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rdx\n pop %rcx\n pop sim_r11(%rip)\n" \
    "movslq sim_cur(%rip), %r11\n mov sim_saved_sp(,%r11,8), %rsp\n mov sim_r11(%rip), %r11\n " tail "\n"
#define RW1(k) ".globl __tsan_" k "\n.type __tsan_" k ",@function\n__tsan_" k ":\n"
#define RWN(n) RW1("read" n) RW1("write" n) RW1("unaligned_read" n) RW1("unaligned_write" n) RW1("volatile_read" n) RW1("volatile_write" n) \
    RW1("unaligned_volatile_read" n) RW1("unaligned_volatile_write" n)
/* a signal that is due runs its handler here, on the stack and at the point of the thread that goes on */
int sim_sig_now;
#define SIGT "cmpl $0, sim_sig_now(%rip)\n jne sim_sig_t\n ret"
__asm__(".text\n" TRAMP("sim_slow", "sim_slow_c", "", "pop %rax\n", SIGT) TRAMP("sim_slow_2", "sim_slow_c", "mov %rsi, %rdi\n", "pop %rax\n", SIGT)
        TRAMP("sim_slow_ra", "sim_slow_c", "mov sim_saved_sp(,%r11,8), %rdi\n mov (%rdi), %rdi\n", "pop %rax\n",
              "cmpl $0, sim_sig_now(%rip)\n je sim_chk\n call sim_sig_t\n jmp sim_chk")
        "sim_sig_t: push %rbp\n mov %rsp, %rbp\n push %rax\n push %rcx\n push %rdx\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n"
        "sub $528, %rsp\n and $-16, %rsp\n fxsave64 (%rsp)\n call sim_sig_run\n fxrstor64 (%rsp)\n lea -72(%rbp), %rsp\n"
        "pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rdx\n pop %rcx\n pop %rax\n pop %rbp\n ret\n"
        TRAMP("sim_block", "sim_block_c", "", "add $8, %rsp\n", "ret") TRAMP("sim_decide", "sim_decide_c", "", "add $8, %rsp\n", "ret")
        TRAMP("sim_ev", "sim_ev_c", "", "pop %rax\n", "ret")
        ".globl sim_pt\n.type sim_pt,@function\nsim_pt:\n sub %rdi, sim_budget(%rip)\n js sim_slow_2\n ret\n"
        /* the access follows the return from here, so it is checked after any switch: heap shadow, see sim_mem.c */
        RWN("1") RWN("2") RWN("4") RWN("8") RWN("16") RW1("read_range") RW1("write_range")
        " subq $1, sim_budget(%rip)\n js sim_slow_ra\n"
        "sim_chk: mov %rdi, %rax\n shr $33, %rax\n cmp $0x3080, %eax\n je 2f\n ret\n"
        "2: mov %rdi, %rax\n shl $31, %rax\n shr $35, %rax\n add sim_shadow(%rip), %rax\n cmpb $0, (%rax)\n jne 3f\n ret\n"
        "3: mov (%rsp), %rsi\n jmp sim_heap_bad\n");
/* signals under way to the program: each becomes due after a drawn number of points */
static uint64_t sig_pend, sig_at[64], sig_in[SIM_MAX_THREADS];
static uint64_t sig_due(void) { /* the first signal that this thread may take now, as a bit */
    if (sim_thr[sim_cur].actor || sim_in_child) return 0;
    for (uint64_t m = sig_pend & ~sig_in[sim_cur]; m; m &= m - 1)
        if (sig_at[__builtin_ctzll(m)] <= total_units) return m & -m;
    return 0;
}
void sim_sig_run(void) {
    uint64_t b;
    sim_sig_now = 0;
    while ((b = sig_due())) {
        int s = __builtin_ctzll(b);
        sig_pend &= ~b;
        sig_in[sim_cur] |= b;
        sim_raise(s);
        sig_in[sim_cur] &= ~b;
        settle();
    }
}
/* another process sends a signal */
void simn_kill(int64_t s) {
    SIM_POINT();
    if (!(sig_pend >> s & 1)) {
        settle();
        uint64_t d = (uint64_t) sim_fault(D_SIG_DELAY, 0, 1, 3000);
        sig_at[s] = total_units + d % (1 + (d * 2654435761u >> 7) % 3000);
        sig_pend |= 1ull << s;
        if (sig_due()) sim_sig_run();
        settle();
        sim_budget = budget_start = 0; /* enter the scheduler at the next point, which then knows about the signal */
    }
    SIM_POINT();
}
static void draw_budget(void) {
    int64_t b;
    if (replay_mode) {
        b = INT64_MAX / 4;
        sim_thread_t *t = &sim_thr[sim_cur];
        if (rep_pre) {
            size_t *i = &rep_ipre[sim_cur];
            while (*i < rep_npre[sim_cur] && rep_pre[sim_cur][*i] <= t->cnt) (*i)++;
            if (*i < rep_npre[sim_cur]) b = (int64_t) (rep_pre[sim_cur][*i] - t->cnt);
        }
    } else if (mean_budget <= 0) {
        b = INT64_MAX / 4;
    } else {
        /* geometric-ish: exponential with given mean, integer arithmetic only */
        uint64_t u = rnd();
        int k = __builtin_clzll(u | 1); /* P(k)=2^-(k+1) */
        b = 1 + (int64_t) (mean_budget * (k + 1) * (int64_t) ((u & 1023) + 1) / 1024);
    }
    int64_t f = (int64_t) (force_units > since_switch ? force_units - since_switch : 1);
    if (b > f) b = f;
    if (sig_pend && !sim_thr[sim_cur].actor && !sim_in_child)
        for (uint64_t m = sig_pend & ~sig_in[sim_cur]; m; m &= m - 1) {
            int64_t d = (int64_t) (sig_at[__builtin_ctzll(m)] - total_units);
            if (b > d) b = d;
        }
    if (b < 1) b = 1;
    sim_budget = b - 1; /* fires when consumed >= b, i.e. sim_budget < 0 */
    budget_start = sim_budget;
}

static int fx(int *f, int op, int v, const struct timespec *ts) { return (int) syscall(SYS_futex, f, op | FUTEX_PRIVATE_FLAG, v, ts, 0, 0); }

static void switch_to(int next) {
    int me = sim_cur;
    if (next == me) return;
    n_switch++;
    h_sched = (h_sched ^ (uint64_t) (next * 1000003 + sim_thr[me].cnt)) * 1099511628211ULL;
    hmix((uint64_t) me * 64 + next + (sim_thr[me].cnt << 12));
    since_switch = 0;
    sim_cur = next;
    __atomic_store_n(&sim_thr[next].futex, 1, __ATOMIC_RELEASE);
    fx(&sim_thr[next].futex, FUTEX_WAKE, 1, NULL);
    sim_thread_t *t = &sim_thr[me];
    if (t->state == T_DEAD) {
        for (;;) { int z = 0; fx(&z, FUTEX_WAIT, 0, NULL); }
    }
    while (!__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE)) fx(&t->futex, FUTEX_WAIT, 0, NULL);
    t->futex = 0;
}

static void expire(void) {
    for (int i = 0; i < sim_nthr; i++) {
        sim_thread_t *t = &sim_thr[i];
        if (t->state == T_BLOCK && t->deadline <= now_base) {
            t->state = T_RUN;
            t->timed_out = 1;
        }
    }
}
static int collect(int *c) {
    int n = 0;
    for (int i = 0; i < sim_nthr; i++)
        if (sim_thr[i].state == T_RUN && sim_thr[i].stall_until <= now_base) c[n++] = i;
    return n;
}
static int rr_next(const int *c, int n, int me) {
    for (int i = 0; i < n; i++) if (c[i] > me) return c[i];
    return c[0];
}
static int weighted(const int *c, int n) {
    if (pick_mode == 0) return c[rndn(n)];
    uint64_t tot = 0;
    for (int i = 0; i < n; i++) tot += sim_thr[c[i]].weight;
    uint64_t r = rndn(tot);
    for (int i = 0; i < n; i++) {
        if (r < sim_thr[c[i]].weight) return c[i];
        r -= sim_thr[c[i]].weight;
    }
    return c[n - 1];
}
static uint32_t draw_weight(void) {
    static const uint32_t w[] = {1, 4, 4, 16, 64};
    return replay_mode ? 4 : w[rndn(5)];
}
static void caps(void) {
    if (total_units > step_cap) sim_end("stepcap", 0, "step cap %llu reached at vtime %lld", (unsigned long long) step_cap, (long long) now_base);
    if (now_base > time_cap) sim_end("timecap", 0, "virtual time cap reached");
    if (now_base > last_progress + quiet_ns) {
        if (sim_faults_on) {
            sim_faults_on = 0;
            sim_probe("faults_stopped");
            for (int i = 0; i < sim_nthr; i++) sim_thr[i].stall_until = 0;
        }
        if (now_base > last_progress + quiet_ns + hang_ns) sim_end("hang", 0, "no progress for %lld virtual ms after faults stopped", (long long) (hang_ns / NS_MS));
    }
}

void sim_slow_c(const void *pc) {
    if (!sim_active) { sim_budget = INT64_MAX / 2; budget_start = sim_budget; return; }
    settle();
    n_slow++;
    caps();
    expire();
    sim_thread_t *t = &sim_thr[sim_cur];
    int c[SIM_MAX_THREADS], n = collect(c), forced = since_switch >= force_units;
    int dflt = sim_cur, next;
    if (forced && n) dflt = rr_next(c, n, sim_cur);
    next = dflt;
    int64_t v;
    if (replay_mode) {
        if (lookup(D_STALL, sim_cur, t->cnt, &v)) { t->stall_until = now_base + v; dfired[D_STALL]++; n = collect(c); if (n) next = dflt = rr_next(c, n, sim_cur); }
        if (lookup(D_PREEMPT, sim_cur, t->cnt, &v) && v >= 0 && v < sim_nthr && sim_thr[v].state == T_RUN && sim_thr[v].stall_until <= now_base) next = (int) v;
    } else {
        if (stall_ppm && sim_faults_on && stall_budget > 0 && (int64_t) rndn(1000000) < stall_ppm) {
            v = 1 + (int64_t) rndn((uint64_t) stall_max);
            stall_budget--;
            t->stall_until = now_base + v;
            record(D_STALL, sim_cur, t->cnt, v);
            dfired[D_STALL]++;
            n = collect(c);
            if (n) dflt = rr_next(c, n, sim_cur);
        }
        if (n) next = weighted(c, n);
        if (next != dflt) record(D_PREEMPT, sim_cur, t->cnt, next);
        if (rndn(64) == 0) t->weight = draw_weight();
    }
    if (next != sim_cur) {
        dfired[D_PREEMPT]++;
        if (tracef) sim_trace("preempt at %p cnt=%llu -> t%d", pc, (unsigned long long) t->cnt, next);
        switch_to(next);
    } else if (forced) since_switch = 0;
    draw_budget();
    if (sig_pend && sig_due()) sim_sig_now = 1;
}

int sim_block_c(int kind, const void *addr, int64_t deadline) {
    settle();
    caps();
    sim_thread_t *t = &sim_thr[sim_cur];
    t->state = T_BLOCK;
    t->bkind = kind;
    t->baddr = addr;
    t->deadline = deadline;
    t->timed_out = 0;
    uint64_t key = t->blocks++;
    int c[SIM_MAX_THREADS], n;
    for (;;) {
        expire();
        n = collect(c);
        if (n) break;
        int64_t m = NEVER;
        for (int i = 0; i < sim_nthr; i++) {
            if (sim_thr[i].state == T_BLOCK && sim_thr[i].deadline < m) m = sim_thr[i].deadline;
            if (sim_thr[i].state == T_RUN && sim_thr[i].stall_until < m) m = sim_thr[i].stall_until;
        }
        if (m == NEVER) {
            if (kind == BK_NONE) sim_end("deadlock", 0, "no runnable thread");
            char b[600]; int o = 0;
            for (int i = 0; i < sim_nthr && o < 500; i++)
                if (sim_thr[i].state == T_BLOCK) o += snprintf(b + o, sizeof b - o, " t%d:k%d@%p", i, sim_thr[i].bkind, sim_thr[i].baddr);
            sim_end("deadlock", 0, "all threads blocked:%s", b);
        }
        if (m > now_base) now_base = m;
        caps();
    }
    int dflt = rr_next(c, n, sim_cur), next = dflt;
    int64_t v;
    if (replay_mode) {
        if (lookup(D_PICK, sim_cur, key, &v) && v >= 0 && v < sim_nthr && sim_thr[v].state == T_RUN && sim_thr[v].stall_until <= now_base) next = (int) v;
    } else {
        next = weighted(c, n);
        if (next != dflt) record(D_PICK, sim_cur, key, next);
    }
    if (next != dflt) dfired[D_PICK]++;
    if (tracef) sim_trace("block kind=%d addr=%p deadline=%lld -> t%d", kind, addr, (long long) deadline, next);
    switch_to(next);
    draw_budget();
    return t->timed_out;
}
int sim_wake(int kind, const void *addr, int max) {
    int n = 0;
    settle(); /* a deadline that has passed wins over the wake-up whether or not a slow point noticed it before */
    expire();
    for (int i = 0; i < sim_nthr && n != max; i++) {
        sim_thread_t *t = &sim_thr[i];
        if (t->state == T_BLOCK && t->bkind == kind && t->baddr == addr) { t->state = T_RUN; t->timed_out = 0; n++; }
    }
    return n;
}
int sim_wake_one_pick(int kind, const void *addr) {
    int c[SIM_MAX_THREADS], n = 0;
    settle();
    expire();
    for (int i = 0; i < sim_nthr; i++)
        if (sim_thr[i].state == T_BLOCK && sim_thr[i].bkind == kind && sim_thr[i].baddr == addr) c[n++] = i;
    if (!n) return 0;
    int k = n > 1 ? (int) sim_decide(D_COND_ORDER, 0, 1000000, 0, n - 1) : 0;
    if (k >= n) k = 0;
    sim_thr[c[k]].state = T_RUN;
    sim_thr[c[k]].timed_out = 0;
    return 1;
}

/* ---------- threads ---------- */
#define ALT_SZ 16384
static char *altstacks;
static void *tramp(void *p) {
    sim_thread_t *t = p;
    stack_t ss = {.ss_sp = altstacks + (size_t) t->tid * ALT_SZ, .ss_size = ALT_SZ};
    sigaltstack(&ss, NULL);
    while (!__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE)) fx(&t->futex, FUTEX_WAIT, 0, NULL);
    t->futex = 0;
    draw_budget();
    t->ret = t->fn(t->arg);
    settle();
    sim_wake(BK_JOIN, t, -1);
    t->state = T_DEAD;
    int c[SIM_MAX_THREADS], n;
    for (;;) {
        expire();
        n = collect(c);
        if (n) break;
        int64_t m = NEVER;
        for (int i = 0; i < sim_nthr; i++) {
            if (sim_thr[i].state == T_BLOCK && sim_thr[i].deadline < m) m = sim_thr[i].deadline;
            if (sim_thr[i].state == T_RUN && sim_thr[i].stall_until < m) m = sim_thr[i].stall_until;
        }
        if (m == NEVER) sim_end("deadlock", 0, "all threads blocked after thread exit");
        if (m > now_base) now_base = m;
        caps();
    }
    uint64_t key = t->blocks++;
    int dflt = rr_next(c, n, sim_cur), next = dflt;
    int64_t v;
    if (replay_mode) {
        if (lookup(D_PICK, sim_cur, key, &v) && v >= 0 && v < sim_nthr && sim_thr[v].state == T_RUN && sim_thr[v].stall_until <= now_base) next = (int) v;
    } else {
        next = weighted(c, n);
        if (next != dflt) record(D_PICK, sim_cur, key, next);
    }
    switch_to(next);
    return NULL;
}

static sim_thread_t *add_thread(void *(*fn)(void *), void *arg) {
    if (sim_nthr >= SIM_MAX_THREADS) sim_end("simlimit", 0, "too many threads");
    sim_thread_t *t = &sim_thr[sim_nthr];
    memset(t, 0, sizeof *t);
    t->tid = sim_nthr;
    t->fn = fn;
    t->arg = arg;
    t->deadline = NEVER;
    t->weight = draw_weight();
    t->state = T_RUN;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    int r = pthread_create(&t->real, &a, tramp, t);
    pthread_attr_destroy(&a);
    if (r) sim_end("simlimit", r, "real pthread_create failed");
    sim_nthr++;
    return t;
}
/* a thread that stands for something outside the program */
void sim_actor(void *(*fn)(void *), void *arg) {
    sim_thread_t *t = add_thread(fn, arg);
    t->detached = t->actor = 1;
}
int sim_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    sim_init();
    SIM_POINT();
    if (sim_fault(D_THREAD_FAIL, 0, 1, 1)) return EAGAIN;
    sim_thread_t *t = add_thread(fn, arg);
    if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
    *out = t->real;
    SIM_POINT();
    return 0;
}
int sim_pthread_join(pthread_t th, void **ret) {
    SIM_POINT();
    for (int i = 0; i < sim_nthr; i++) {
        if (sim_thr[i].real == th && i) {
            while (sim_thr[i].state != T_DEAD) sim_block(BK_JOIN, &sim_thr[i], NEVER);
            if (ret) *ret = sim_thr[i].ret;
            sim_thr[i].detached = 1;
            return 0;
        }
    }
    return ESRCH;
}
int sim_pthread_detach(pthread_t th) {
    SIM_POINT();
    for (int i = 1; i < sim_nthr; i++) if (sim_thr[i].real == th) { sim_thr[i].detached = 1; return 0; }
    return ESRCH;
}
/* ended threads whose stack nobody has given back */
int64_t simn_zombies(void) {
    int64_t n = 0;
    for (int i = 1; i < sim_nthr; i++) n += sim_thr[i].state == T_DEAD && !sim_thr[i].detached;
    return n;
}

/* ---------- crash capture ---------- */
extern char __executable_start[] __attribute__((weak));
static void on_sig(int sig, siginfo_t *si, void *uc) {
    ucontext_t *u = uc;
    sim_end("signal", sig, "signal %d addr=%p rip=%p tid=%d", sig, si->si_addr, (void *) u->uc_mcontext.gregs[REG_RIP], sim_cur);
}

/* Code without schedule points that never ends: two CPU-time ticks without entering the scheduler. */
static void on_prof(int sig) {
    static uint64_t last = ~0ULL;
    if (n_slow == last && !ending) sim_end("spin", 0, "a thread computes without end, tid=%d", sim_cur);
    last = n_slow;
}

void sim_init(void) {
    static int done;
    if (done) return;
    done = 1;
    int fd = open("cfg", O_RDONLY);
    if (fd < 0) { static const char m[] = "sim: no ./cfg\n"; (void) !write(2, m, sizeof m - 1); _exit(98); }
    ssize_t n = read(fd, cfg_buf, sizeof cfg_buf - 1);
    close(fd);
    if (n < 0) n = 0;
    cfg_buf[n] = 0;
    for (char *p = cfg_buf; *p;) {
        char *nl = strchr(p, '\n');
        if (nl) *nl = 0;
        char *eq = strchr(p, '=');
        if (eq && ncfg < 512) { *eq = 0; cfg[ncfg].k = p; cfg[ncfg++].v = eq + 1; }
        if (!nl) break;
        p = nl + 1;
    }
    uint64_t seed = (uint64_t) sim_cfg("seed", 1);
    for (int i = 0; i < 4; i++) rng[i] = seed = sim_mix(seed + i);
    replay_mode = (int) sim_cfg("replay", 0);
    dump_dec = (int) sim_cfg("dump", 0);
    trace_on = (int) sim_cfg("trace", 0);
    mean_budget = sim_cfg("mean", 200);
    sim_w_atomic = sim_cfg("w_atomic", 8);
    sim_w_sync = sim_cfg("w_sync", 40);
    unit_ns = sim_cfg("unit_ns", 5);
    force_units = (uint64_t) sim_cfg("force", 20000);
    step_cap = (uint64_t) sim_cfg("step_cap", 400000000);
    time_cap = sim_cfg("time_cap_ms", 600000) * NS_MS + 1000000000LL;
    stall_ppm = sim_cfg("stall_ppm", 0);
    quiet_ns = sim_cfg("quiet_ms", 3000) * NS_MS;
    hang_ns = sim_cfg("hang_ms", 3000) * NS_MS;
    last_progress = 1000000000LL;
    stall_budget = sim_cfg("stall_n", 40);
    stall_max = sim_cfg("stall_max_us", 40000) * 1000;
    pick_mode = (int) sim_cfg("pick", 0);
    now_base = 1000000000LL;
    for (int i = 0; i < D_MAX; i++) drate[i] = sim_cfg(dname[i], 0);
    rec = sim_map(caprec * sizeof(dec_t));
    evs = sim_map(MAXEVS * sizeof(ev_t));
    if (replay_mode) load_replay("dec_in");
    if (trace_on) tracef = sim_map(TRACE_CAP);
    /* real crash signals become a recorded outcome */
    altstacks = sim_map(ALT_SZ * SIM_MAX_THREADS);
    stack_t ss = {.ss_sp = altstacks, .ss_size = ALT_SZ};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT};
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_prof;
    sa.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &sa, NULL);
    struct itimerval itv = {{4, 0}, {4, 0}};
    setitimer(ITIMER_PROF, &itv, NULL);
    char *stks = sim_map((size_t) SIM_STK * SIM_MAX_THREADS);
    for (int i = 0; i < SIM_MAX_THREADS; i++) sim_stk_top[i] = stks + (size_t) SIM_STK * (i + 1);
    sim_thr[0].state = T_RUN;
    sim_thr[0].deadline = NEVER;
    sim_thr[0].real = pthread_self();
    sim_thr[0].weight = draw_weight();
    sim_nthr = 1;
    sim_cur = 0;
    sim_active = 1;
    draw_budget();
}
