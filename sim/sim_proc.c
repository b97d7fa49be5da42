/* Child processes. fork() returns twice on the forking thread: first as the child, which runs the real code between
 * fork and exec atomically on its own view of the descriptors; at exec (or _exit) the stack is put back and the call
 * returns the pid in the parent. The executed program is an actor thread that follows the script in its arguments. */
#include "sim.h"
#include "sim_proc.h"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXCH 256
#define SNAP 2048
typedef struct { int pid, state, status, std[3]; char **argv, **envp; char *cwd; int killed; } child_t;
static child_t ch[MAXCH];
static int nch, fail;
int sim_in_child;
static child_t *cur;
static char **parent_env;
extern char **environ;
uint64_t sim_fork_sp;
static char snap[SNAP];
static char priv[65536] __attribute__((aligned(16)));
char *sim_fork_priv = priv + sizeof priv - 64;

/* rdi = rsp after the pushes */
int64_t sim_fork_enter(uint64_t sp);
void sim_fork_copy(void) { memcpy((void *) sim_fork_sp, snap, SNAP); }
int sim_fork(void);
__asm__(".text\n.globl sim_fork\n.type sim_fork,@function\nsim_fork:\n"
        " push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
        " mov %rsp, %rdi\n sub $8, %rsp\n call sim_fork_enter\n add $8, %rsp\n"
        "1: pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
        ".globl sim_fork_leave\n.type sim_fork_leave,@function\nsim_fork_leave:\n"
        " mov sim_fork_priv(%rip), %rsp\n push %rdi\n sub $8, %rsp\n call sim_fork_copy\n add $8, %rsp\n pop %rax\n"
        " mov sim_fork_sp(%rip), %rsp\n jmp 1b\n");
void sim_fork_leave(int64_t pid) __attribute__((noreturn));

static int alive(void) {
    int n = 0;
    for (int i = 0; i < nch; i++) n += ch[i].state != 0;
    return n;
}
int64_t simn_children(void) { return alive(); }

int64_t sim_fork_enter(uint64_t sp) {
    sim_init();
    SIM_POINT();
    fail = (int) sim_fault(D_SPAWN_FAIL, 0, 1, 2); /* 1: no process, 2: no program */
    if (fail == 1) { errno = EAGAIN; return -1; }
    if (nch == MAXCH) sim_end("simlimit", 0, "too many children");
    sim_fork_sp = sp;
    memcpy(snap, (void *) sp, SNAP);
    cur = &ch[nch];
    memset(cur, 0, sizeof *cur);
    cur->pid = 5000 + ++nch;
    cur->state = 1;
    cur->std[0] = cur->std[1] = cur->std[2] = -1;
    parent_env = environ;
    sim_in_child = 1;
    return 0;
}
/* called in the child */
void sim_child_dup2(int a, int b) { if (b >= 0 && b < 3) { if (cur->std[b] >= 0) sim_obj_drop(cur->std[b]); cur->std[b] = sim_obj_hold(a); } }
int sim_chdir(const char *p) {
    if (!sim_in_child) return chdir(p);
    if (access(p, X_OK)) return -1;
    cur->cwd = strdup(p);
    return 0;
}
static void back(void) {
    sim_in_child = 0;
    environ = parent_env;
    sim_fork_leave(cur->pid);
}
static void gone(child_t *c, int status) {
    for (int i = 0; i < 3; i++) if (c->std[i] >= 0) { sim_obj_drop(c->std[i]); c->std[i] = -1; }
    c->status = status;
    c->state = 2;
    sim_trace("child %d ends, status %x", c->pid, status);
}
void sim_child__exit(int code) {
    gone(cur, (code & 255) << 8);
    sim_net_kick();
    back();
}
static char **copyv(char **v) {
    int n = 0;
    while (v && v[n]) n++;
    char **r = calloc(n + 1, sizeof *r);
    for (int i = 0; i < n; i++) r[i] = strdup(v[i]);
    return r;
}
static void *actor(void *a);
int sim_execvp(const char *file, char *const argv[]) {
    if (!sim_in_child) sim_end("simlimit", 0, "exec outside a child");
    sim_probe("exec");
    if (strcmp(file, "child")) { errno = ENOENT; return -1; }
    if (fail) { errno = EACCES; return -1; }
    cur->argv = copyv((char **) argv);
    cur->envp = copyv(environ);
    sim_actor(actor, cur);
    back();
    return 0;
}
pid_t sim_waitpid(pid_t pid, int *st, int opt) {
    sim_init();
    SIM_POINT();
    for (int i = 0; i < nch; i++) {
        if (!ch[i].state || (pid > 0 && ch[i].pid != pid)) continue;
        while (ch[i].state == 1 && !(opt & WNOHANG)) sim_block(BK_POLL, &ch[i], sim_now() + NS_MS);
        if (ch[i].state == 1) return 0;
        if (st) *st = ch[i].status;
        ch[i].state = 0;
        sim_trace("reaped %d status %x", ch[i].pid, ch[i].status);
        return ch[i].pid;
    }
    errno = ECHILD;
    return -1;
}
static void die(child_t *c, int status) __attribute__((noreturn));
int sim_kill(pid_t pid, int sig) {
    sim_init();
    for (int i = 0; i < nch; i++)
        if (ch[i].pid == pid && ch[i].state) { if (ch[i].state == 1 && sig) ch[i].killed = sig; return 0; }
    errno = ESRCH;
    return -1;
}
int sim_setsid(void) { return 1; }

/* ---- the program ---- */
#include <setjmp.h>
static jmp_buf out[MAXCH];
static void die(child_t *c, int status) {
    gone(c, status);
    sim_net_kick();
    int64_t d = sim_fault(D_SIG_DELAY, 0, 1, 10 * NS_MS);
    if (d) sim_block(BK_SLEEP, NULL, sim_now() + d);
    sim_trace("SIGCHLD for %d", c->pid);
    sim_raise(SIGCHLD);
    longjmp(out[c - ch], 1);
}
static void step(child_t *c) {
    if (c->killed) die(c, c->killed);
    if (sim_fault(D_CHILD_KILL, 0, 1, 1)) { sim_ev("child_killed", c->pid, 0, 0, 0); die(c, SIGKILL); }
    int64_t d = sim_fault(D_CHILD_DELAY, 0, 1, 20 * NS_MS);
    if (d) sim_block(BK_SLEEP, NULL, sim_now() + d);
    else SIM_POINT();
}
static void put(child_t *c, int fd, const uint8_t *b, size_t n) {
    while (n) {
        step(c);
        size_t m = n;
        if (n > 1) { int64_t s = sim_fault(D_CHILD_SEG, 0, 1, (int64_t) n - 1); if (s > 0) m = (size_t) s; }
        if (c->std[fd] < 0) return;
        ssize_t r = sim_obj_write(c->std[fd], b, m);
        if (r < 0) die(c, SIGPIPE);
        b += r;
        n -= (size_t) r;
    }
}
static size_t get_in(child_t *c, uint8_t *b, size_t n) {
    step(c);
    if (c->std[0] < 0) return 0;
    size_t m = n;
    if (n > 1) { int64_t s = sim_fault(D_CHILD_SEG, 0, 1, (int64_t) n - 1); if (s > 0) m = (size_t) s; }
    ssize_t r = sim_obj_read(c->std[0], b, m);
    return r > 0 ? (size_t) r : 0;
}
static void pattern(child_t *c, int fd, long n, long tag) {
    uint8_t *b = malloc(n + 1);
    for (long i = 0; i < n; i++) b[i] = (uint8_t) (tag * 29 + i * 7 + i / 251 + 1);
    put(c, fd, b, n);
    free(b);
}
static void line(child_t *c, const char *s) { put(c, 1, (const uint8_t *) s, strlen(s)); put(c, 1, (const uint8_t *) "\n", 1); }
/* script words: oN.T / eN.T pattern T of N bytes to stdout / stderr; c copy stdin to stdout till its end; z read stdin till its end;
 * rN read N bytes; dMS sleep; CO CE CI close a stream; pA print words (args, environment, cwd) one per line; xN exit; kN die of a signal */
static void *actor(void *a) {
    child_t *c = a;
    uint8_t b[4096];
    if (setjmp(out[c - ch])) return NULL;
    for (int i = 1; c->argv[i]; i++) {
        const char *w = c->argv[i];
        long n = atol(w + 1), tag = strchr(w, '.') ? atol(strchr(w, '.') + 1) : 0;
        step(c);
        switch (*w) {
            case 'o': pattern(c, 1, n, tag); break;
            case 'e': pattern(c, 2, n, tag); break;
            case 'c': for (size_t k; (k = get_in(c, b, sizeof b));) put(c, 1, b, k); break;
            case 'z': while (get_in(c, b, sizeof b)); break;
            case 'r': while (n > 0) { size_t k = get_in(c, b, n < (long) sizeof b ? n : sizeof b); if (!k) break; n -= k; } break;
            case 'd': sim_block(BK_SLEEP, NULL, sim_now() + n * NS_MS); break;
            case 'C': { int f = w[1] == 'O' ? 1 : w[1] == 'E' ? 2 : 0; if (c->std[f] >= 0) sim_obj_drop(c->std[f]); c->std[f] = -1; sim_net_kick(); break; }
            case 'p':
                for (int k = 0; c->argv[k]; k++) line(c, c->argv[k]);
                line(c, "|");
                for (int k = 0; w[1] == 'e' && c->envp && c->envp[k]; k++) line(c, c->envp[k]);
                line(c, "|");
                line(c, c->cwd ? c->cwd : "");
                break;
            case 'x': die(c, (n & 255) << 8);
            case 'k': die(c, n & 127);
            default: break;
        }
    }
    die(c, 0);
}
