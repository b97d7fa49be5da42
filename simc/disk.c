// The compiler under a simulated disk. Linked with every object of the compiler; the linker's --wrap sends the
// compiler's file calls here (list in wrap.txt). Paths below /w are the run's scratch directory, paths below /n the
// Nature root; nothing else can be written. Every fault is a seeded decision, recorded so that it can be replayed.
//
// Phases of one run, each a forked child running the real main(): the build with faults, then (if it did not
// report success) a build on a healed disk. The parent compares what is on the disk with the reference output.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define R(ret, name, ...) extern ret __real_##name(__VA_ARGS__)
R(int, main, int, char **, char **);
R(int, open, const char *, int, ...);
R(int, close, int);
R(ssize_t, read, int, void *, size_t);
R(ssize_t, pread, int, void *, size_t, off_t);
R(ssize_t, write, int, const void *, size_t);
R(ssize_t, pwrite, int, const void *, size_t, off_t);
R(off_t, lseek, int, off_t, int);
R(int, fsync, int);
R(int, ftruncate, int, off_t);
R(int, fstat, int, struct stat *);
R(int, stat, const char *, struct stat *);
R(int, lstat, const char *, struct stat *);
R(int, access, const char *, int);
R(int, rename, const char *, const char *);
R(int, unlink, const char *);
R(int, remove, const char *);
R(int, rmdir, const char *);
R(int, mkdir, const char *, mode_t);
R(int, chmod, const char *, mode_t);
R(int, fchmod, int, mode_t);
R(int, fileno, FILE *);
R(FILE *, fopen, const char *, const char *);
R(FILE *, fdopen, int, const char *);
R(DIR *, opendir, const char *);
R(struct dirent *, readdir, DIR *);
R(int, closedir, DIR *);
R(char *, realpath, const char *, char *);
R(ssize_t, readlink, const char *, char *, size_t);
R(char *, getcwd, char *, size_t);
R(int, chdir, const char *);
R(int, system, const char *);
R(int, clock_gettime, clockid_t, struct timespec *);
R(time_t, time, time_t *);
R(int, fclose, FILE *);

enum { K_OPEN, K_READ, K_SHORTR, K_WRITE, K_NOSPC, K_SHORTW, K_CLOSE, K_SYNC, K_RENAME, K_DIRORD, K_DIROPEN, K_DIRREAD, K_UNLINK, K_MKDIR, K_CRASH, K_TOOL, K_POWER, K_N };
static const char *kname[K_N] = {"fs_open_err", "fs_read_err", "fs_short_read", "fs_write_err", "fs_enospc", "fs_short_write", "fs_close_err", "fs_fsync_err",
                                 "fs_rename_err", "dir_order", "fs_opendir_err", "fs_readdir_err", "fs_unlink_err", "fs_mkdir_err", "crash", "tool_fail", "power_loss"};

#define MAXDEC 65536
#define MAXEV 256
struct shared {
    uint64_t rng, hash, calls;
    uint64_t cons[K_N], hit[K_N];
    int ndec, nev;
    struct { int kind; long idx, val; } dec[MAXDEC];
    struct { int k; long a, b, c; uint64_t t; } ev[MAXEV];
    char bad[512];
    int aimed;
    char trace[1 << 20];
    size_t ntrace;
    long full_after; // bytes until the disk is full, -1: never
    long written;
};
static struct shared *S;
static int on, faults;
static long ppm[K_N];
static int replay, trace_on;
static struct { int kind; long idx, val; } *din;
static int ndin;
static char workdir[PATH_MAX], natroot[PATH_MAX];
static long callcap = 2000000;
static uint64_t clock0;
// aim: failures of reads, writes, closes and syncs only 1: while a stream is closed, 2: on written files that are not objects, 4: on objects
static long aim;
static int closing, staying;
static long once; // at most one such failure

static void cnote(uint64_t v) {
    S->hash = (S->hash ^ v) * 0x100000001b3ull;
    S->hash ^= S->hash >> 29;
}
static void snote(const char *s) {
    while (*s) cnote((unsigned char) *s++);
}
static void tr(const char *fmt, ...) {
    if (!trace_on || S->ntrace > sizeof(S->trace) - 4096) return;
    va_list ap;
    va_start(ap, fmt);
    S->ntrace += vsnprintf(S->trace + S->ntrace, 4000, fmt, ap);
    va_end(ap);
}
static uint64_t rnd(void) {
    uint64_t z = (S->rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
// 0: no fault here; else 1..range
static long decide(int k, long range) {
    if (!faults) return 0;
    long idx = S->cons[k]++, v = 0;
    int off = aim && (k == K_READ || k == K_WRITE || k == K_NOSPC || k == K_CLOSE || k == K_SYNC) &&
              ((once && S->aimed) || ((aim & 1) && !closing) || ((aim & 2) && staying != 1) || ((aim & 4) && staying != 0));
    if (off) {
    } else if (replay) {
        for (int i = 0; i < ndin; i++)
            if (din[i].kind == k && din[i].idx == idx) v = din[i].val > range ? range : din[i].val;
    } else if (ppm[k] && (long) (rnd() % 1000000) < ppm[k]) {
        v = 1 + (long) (rnd() % (uint64_t) range);
    }
    if (v) {
        S->hit[k]++;
        if (k == K_READ || k == K_WRITE || k == K_NOSPC || k == K_CLOSE || k == K_SYNC) S->aimed = 1;
        cnote(1000003ull * k + idx * 31 + v);
        if (S->ndec < MAXDEC) {
            S->dec[S->ndec].kind = k;
            S->dec[S->ndec].idx = idx;
            S->dec[S->ndec++].val = v;
        }
        tr("  fault %s #%ld %ld\n", kname[k], idx, v);
    }
    return v;
}
static void ev(int k, long a, long b, long c) {
    if (S->nev < MAXEV) {
        S->ev[S->nev].k = k;
        S->ev[S->nev].a = a;
        S->ev[S->nev].b = b;
        S->ev[S->nev].c = c;
        S->ev[S->nev++].t = S->calls;
    }
    cnote(k * 7919 + a * 31 + b * 17 + c);
}

// files with written data that is not on the disk yet: a failing close or fsync and a loss of power lose part of it
#define MAXDIRTY 1024
static struct dirty { char *path; ino_t ino; int dirty; } files[MAXDIRTY];
static int nfiles;
static struct dirty *file_of(int fd) {
    struct stat st;
    if (__real_fstat(fd, &st)) return NULL;
    for (int i = 0; i < nfiles; i++)
        if (files[i].path && files[i].ino == st.st_ino) return &files[i];
    return NULL;
}
static void file_opened(int fd, const char *path) {
    struct stat st;
    if (fd < 0 || __real_fstat(fd, &st) || !S_ISREG(st.st_mode)) return;
    struct dirty *f = file_of(fd);
    if (!f && nfiles < MAXDIRTY) {
        f = &files[nfiles++];
        f->ino = st.st_ino;
        f->dirty = 0;
        f->path = NULL;
    }
    if (f && !f->path) f->path = strdup(path);
}
static void at(int fd) {
    struct dirty *f = aim & 6 ? file_of(fd) : NULL;
    size_t n = f && f->path ? strlen(f->path) : 0;
    staying = n > 4 ? strcmp(f->path + n - 2, ".o") && strcmp(f->path + n - 4, ".obj") : -1;
}
static void file_gone(const char *path) {
    for (int i = 0; i < nfiles; i++)
        if (files[i].path && !strcmp(files[i].path, path)) {
            free(files[i].path);
            files[i].path = NULL;
        }
}
static void lose(struct dirty *f, long how) {
    struct stat st;
    if (!f || !f->path || !f->dirty || __real_stat(f->path, &st)) return;
    truncate(f->path, how == 1 ? 0 : how == 2 ? st.st_size / 2 : st.st_size ? st.st_size - 1 : 0);
    f->dirty = 0;
}

static void enter(const char *what, const char *path) {
    S->calls++;
    snote(what);
    if (path) snote(path);
    tr("%s %s\n", what, path ? path : "");
    if ((long) S->calls > callcap) {
        ev(9, 0, 0, 0);
        _exit(97);
    }
    if (decide(K_CRASH, 1)) kill(getpid(), SIGKILL);
    long v = decide(K_POWER, 3);
    if (v) {
        for (int i = 0; i < nfiles; i++) lose(&files[i], v);
        kill(getpid(), SIGKILL);
    }
}

static const char *map(const char *p, char *buf) {
    if (!on || !p) return p;
    if (!strncmp(p, "/w/", 3)) {
        snprintf(buf, PATH_MAX, "%s/%s", workdir, p + 3);
    } else if (!strcmp(p, "/w")) {
        snprintf(buf, PATH_MAX, "%s", workdir);
    } else if (!strncmp(p, "/n/", 3)) {
        snprintf(buf, PATH_MAX, "%s/%s", natroot, p + 3);
    } else if (!strcmp(p, "/n")) {
        snprintf(buf, PATH_MAX, "%s", natroot);
    } else {
        return p;
    }
    return buf;
}
static int own(const char *p) {
    if (!on) return 1;
    int ok = (!strncmp(p, "/w/", 3) || p[0] != '/') && !strstr(p, "..");
    if (!ok && !S->bad[0]) snprintf(S->bad, sizeof(S->bad), "writes outside its directories: %s", p);
    return ok;
}
static int fail(int e) {
    errno = e;
    return -1;
}

static int io_errno(long v) {
    static const int e[] = {EIO, EACCES, EMFILE, ENFILE};
    return e[v - 1];
}
int __wrap_open(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & O_CREAT) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    char b[PATH_MAX];
    if (!on) return __real_open(path, flags, mode);
    enter("open", path);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (wr && !own(path)) return fail(EACCES);
    const char *m = map(path, b);
    if (!wr && __real_access(m, F_OK)) return fail(ENOENT);
    long v = decide(K_OPEN, 4);
    if (v) return fail(io_errno(v));
    int fd = __real_open(m, flags | O_CLOEXEC, mode);
    if (wr) file_opened(fd, m);
    return fd;
}
int __wrap_close(int fd) {
    if (!on) return __real_close(fd);
    enter("close", NULL);
    at(fd);
    int wr = (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY;
    struct dirty *f = wr ? file_of(fd) : NULL;
    int r = __real_close(fd);
    // a close can report an earlier write's failure; the descriptor is gone all the same
    long v;
    if (r == 0 && wr && (v = decide(K_CLOSE, 3))) {
        lose(f, v);
        return fail(EIO);
    }
    return r;
}
static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int p) {
    enter("read", NULL);
    at(fd);
    cnote(n);
    if (decide(K_READ, 1)) return fail(EIO);
    if (n > 1) {
        long v = decide(K_SHORTR, 3);
        if (v) n = v == 1 ? 1 : v == 2 ? (n + 1) / 2 : n - 1;
    }
    return p ? __real_pread(fd, buf, n, off) : __real_read(fd, buf, n);
}
ssize_t __wrap_read(int fd, void *buf, size_t n) { return on ? do_read(fd, buf, n, 0, 0) : __real_read(fd, buf, n); }
ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t off) { return on ? do_read(fd, buf, n, off, 1) : __real_pread(fd, buf, n, off); }
static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int p) {
    if (fd == 1 || fd == 2) return __real_write(fd, buf, n);
    enter("write", NULL);
    at(fd);
    cnote(n);
    if (decide(K_WRITE, 1)) return fail(EIO);
    if (decide(K_NOSPC, 1)) {
        // what still fits is taken, the rest of the disk stays full until something is written elsewhere
        size_t part = n / 2;
        if (part == 0) return fail(ENOSPC);
        n = part;
        S->full_after = 0;
    } else if (S->full_after == 0) {
        S->full_after = -1;
        return fail(ENOSPC);
    }
    if (n > 1) {
        long v = decide(K_SHORTW, 3);
        if (v) n = v == 1 ? 1 : v == 2 ? (n + 1) / 2 : n - 1;
    }
    S->written += n;
    struct dirty *f = file_of(fd);
    if (f) f->dirty = 1;
    return p ? __real_pwrite(fd, buf, n, off) : __real_write(fd, buf, n);
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) { return on ? do_write(fd, buf, n, 0, 0) : __real_write(fd, buf, n); }
ssize_t __wrap_pwrite(int fd, const void *buf, size_t n, off_t off) { return on ? do_write(fd, buf, n, off, 1) : __real_pwrite(fd, buf, n, off); }
off_t __wrap_lseek(int fd, off_t o, int w) { return __real_lseek(fd, o, w); }
int __wrap_fsync(int fd) {
    if (!on) return __real_fsync(fd);
    enter("fsync", NULL);
    at(fd);
    struct dirty *f = file_of(fd);
    long v = decide(K_SYNC, 3);
    if (v) {
        lose(f, v);
        return fail(EIO);
    }
    if (f) f->dirty = 0;
    return 0;
}
int __wrap_ftruncate(int fd, off_t n) {
    if (!on) return __real_ftruncate(fd, n);
    enter("ftruncate", NULL);
    at(fd);
    if (decide(K_WRITE, 1)) return fail(EIO);
    return __real_ftruncate(fd, n);
}
int __wrap_fstat(int fd, struct stat *st) { return __real_fstat(fd, st); }
int __wrap_stat(const char *p, struct stat *st) {
    char b[PATH_MAX];
    return __real_stat(map(p, b), st);
}
int __wrap_lstat(const char *p, struct stat *st) {
    char b[PATH_MAX];
    return __real_lstat(map(p, b), st);
}
int __wrap_access(const char *p, int m) {
    char b[PATH_MAX];
    return __real_access(map(p, b), m);
}
int __wrap_rename(const char *f, const char *t) {
    char a[PATH_MAX], b[PATH_MAX];
    if (!on) return __real_rename(f, t);
    enter("rename", t);
    if (!own(f) || !own(t)) return fail(EACCES);
    if (decide(K_RENAME, 1)) return fail(EIO);
    const char *x = map(f, a), *y = map(t, b);
    int r = __real_rename(x, y);
    if (r == 0) {
        file_gone(y);
        for (int i = 0; i < nfiles; i++)
            if (files[i].path && !strcmp(files[i].path, x)) {
                free(files[i].path);
                files[i].path = strdup(y);
            }
    }
    return r;
}
static int do_rm(const char *p, int how) {
    char b[PATH_MAX];
    enter("remove", p);
    if (!own(p)) return fail(EACCES);
    const char *m = map(p, b);
    if (__real_access(m, F_OK)) return fail(ENOENT);
    if (decide(K_UNLINK, 1)) return fail(EIO);
    file_gone(m);
    return how == 0 ? __real_unlink(m) : how == 1 ? __real_rmdir(m) : __real_remove(m);
}
int __wrap_unlink(const char *p) { return on ? do_rm(p, 0) : __real_unlink(p); }
int __wrap_rmdir(const char *p) { return on ? do_rm(p, 1) : __real_rmdir(p); }
int __wrap_remove(const char *p) { return on ? do_rm(p, 2) : __real_remove(p); }
int __wrap_mkdir(const char *p, mode_t m) {
    char b[PATH_MAX];
    if (!on) return __real_mkdir(p, m);
    enter("mkdir", p);
    if (!own(p)) return fail(EACCES);
    if (decide(K_MKDIR, 1)) return fail(ENOSPC);
    return __real_mkdir(map(p, b), m);
}
int __wrap_chmod(const char *p, mode_t m) {
    char b[PATH_MAX];
    if (!own(p)) return fail(EACCES);
    return __real_chmod(map(p, b), m);
}

// temporary names are the same in every run: they end up in the output
static char *temp_name(char *t, int i) {
    size_t n = strlen(t);
    if (n < 6 || strcmp(t + n - 6, "XXXXXX")) {
        errno = EINVAL;
        return NULL;
    }
    char d[8];
    snprintf(d, sizeof(d), "%06d", i);
    memcpy(t + n - 6, d, 6);
    return t;
}
char *__wrap_mkdtemp(char *t) {
    char keep[PATH_MAX];
    snprintf(keep, sizeof(keep), "%s", t);
    for (int i = 1; i < 1000; i++) {
        strcpy(t, keep);
        if (!temp_name(t, i)) return NULL;
        if (__wrap_mkdir(t, 0700) == 0) return t;
        if (errno != EEXIST) break;
    }
    strcpy(t, keep);
    return NULL;
}
int __wrap_mkstemp(char *t) {
    char keep[PATH_MAX];
    snprintf(keep, sizeof(keep), "%s", t);
    for (int i = 1; i < 1000; i++) {
        strcpy(t, keep);
        if (!temp_name(t, i)) return -1;
        int fd = __wrap_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0) return fd;
        if (errno != EEXIST) break;
    }
    strcpy(t, keep);
    return -1;
}

// stdio over the calls above
struct ck { int fd; FILE *f; struct ck *next; };
static struct ck *cks;
static ssize_t ck_read(void *c, char *b, size_t n) { return __wrap_read(((struct ck *) c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    // as libc's own writer does: go on after a short write, report the error
    size_t done = 0;
    while (done < n) {
        ssize_t r = __wrap_write(((struct ck *) c)->fd, b + done, n - done);
        if (r < 0) return done ? (ssize_t) done : 0;
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w) {
    off_t r = __real_lseek(((struct ck *) c)->fd, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) {
    struct ck *k = c;
    for (struct ck **p = &cks; *p; p = &(*p)->next)
        if (*p == k) {
            *p = k->next;
            break;
        }
    int r = __wrap_close(k->fd);
    free(k);
    return r;
}
FILE *__wrap_fdopen(int fd, const char *mode) {
    if (!on) return __real_fdopen(fd, mode);
    struct ck *k = malloc(sizeof(*k));
    k->fd = fd;
    FILE *f = fopencookie(k, mode, (cookie_io_functions_t) {ck_read, ck_write, ck_seek, ck_close});
    if (!f) return NULL;
    k->f = f;
    k->next = cks;
    cks = k;
    return f;
}
FILE *__wrap_fopen(const char *path, const char *mode) {
    if (!on) return __real_fopen(path, mode);
    int plus = strchr(mode, '+') != NULL;
    int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    int fd = __wrap_open(path, fl, 0666);
    if (fd < 0) return NULL;
    return __wrap_fdopen(fd, mode);
}
int __wrap_fclose(FILE *f) {
    closing++;
    int r = __real_fclose(f);
    closing--;
    return r;
}
int __wrap_fileno(FILE *f) {
    for (struct ck *k = cks; k; k = k->next)
        if (k->f == f) return k->fd;
    return __real_fileno(f);
}
int __wrap_fchmod(int fd, mode_t m) { return __real_fchmod(fd, m); }

// directories: read at once, then handed out in an order of the simulator's choice
struct sdir { int n, i, err; struct dirent **e; };
static int by_name(const void *a, const void *b) { return strcmp((*(struct dirent **) a)->d_name, (*(struct dirent **) b)->d_name); }
DIR *__wrap_opendir(const char *p) {
    char b[PATH_MAX];
    if (!on) return __real_opendir(p);
    enter("opendir", p);
    struct stat st;
    const char *m = map(p, b);
    if (__real_stat(m, &st)) {
        errno = ENOENT;
        return NULL;
    }
    if (decide(K_DIROPEN, 1)) {
        errno = EMFILE;
        return NULL;
    }
    DIR *d = __real_opendir(m);
    if (!d) return NULL;
    struct sdir *s = calloc(1, sizeof(*s));
    struct dirent *e;
    while ((e = __real_readdir(d))) {
        s->e = realloc(s->e, sizeof(*s->e) * (s->n + 1));
        s->e[s->n] = malloc(sizeof(*e));
        memcpy(s->e[s->n++], e, sizeof(*e));
    }
    __real_closedir(d);
    qsort(s->e, s->n, sizeof(*s->e), by_name);
    for (int i = 0; i + 1 < s->n; i++) {
        long v = decide(K_DIRORD, s->n - i);
        if (v > 1) {
            struct dirent *x = s->e[i];
            s->e[i] = s->e[i + v - 1];
            s->e[i + v - 1] = x;
        }
    }
    s->err = decide(K_DIRREAD, s->n);
    return (DIR *) s;
}
struct dirent *__wrap_readdir(DIR *d) {
    if (!on) return __real_readdir(d);
    struct sdir *s = (struct sdir *) d;
    if (s->err && s->i == s->err - 1) {
        errno = EIO;
        return NULL;
    }
    return s->i < s->n ? s->e[s->i++] : NULL;
}
int __wrap_closedir(DIR *d) {
    if (!on) return __real_closedir(d);
    struct sdir *s = (struct sdir *) d;
    for (int i = 0; i < s->n; i++) free(s->e[i]);
    free(s->e);
    free(s);
    return 0;
}

static char *unmap(const char *real, char *out) {
    size_t a = strlen(workdir), b = strlen(natroot);
    char t[PATH_MAX];
    if (!strncmp(real, workdir, a) && (real[a] == '/' || !real[a])) snprintf(t, sizeof(t), "/w%s", real + a);
    else if (!strncmp(real, natroot, b) && (real[b] == '/' || !real[b])) snprintf(t, sizeof(t), "/n%s", real + b);
    else snprintf(t, sizeof(t), "%s", real);
    if (!out) return strdup(t);
    strcpy(out, t);
    return out;
}
char *__wrap_realpath(const char *p, char *out) {
    if (!on) return __real_realpath(p, out);
    char b[PATH_MAX], r[PATH_MAX];
    const char *m = map(p, b);
    // below the Nature root links are an artefact of how the root was put together
    if (!strncmp(p, "/n", 2)) {
        if (__real_access(m, F_OK)) {
            errno = ENOENT;
            return NULL;
        }
        if (!out) return strdup(p);
        strcpy(out, p);
        return out;
    }
    if (!__real_realpath(m, r)) return NULL;
    return unmap(r, out);
}
ssize_t __wrap_readlink(const char *p, char *b, size_t n) {
    char m[PATH_MAX];
    if (on && !strcmp(p, "/proc/self/exe")) {
        const char *e = "/n/bin/nature";
        size_t l = strlen(e) < n ? strlen(e) : n;
        memcpy(b, e, l);
        return l;
    }
    return __real_readlink(map(p, m), b, n);
}
char *__wrap_getcwd(char *b, size_t n) {
    if (!on) return __real_getcwd(b, n);
    if (!b) return strdup("/w");
    snprintf(b, n, "/w");
    return b;
}
int __wrap_chdir(const char *p) {
    char b[PATH_MAX];
    return __real_chdir(map(p, b));
}
int __wrap_system(const char *c) {
    if (!on) return __real_system(c);
    enter("system", NULL);
    if (decide(K_TOOL, 1)) return 256;
    char *t = malloc(strlen(c) + 64 * PATH_MAX), *o = t;
    for (const char *s = c; *s;) {
        if (!strncmp(s, "/w/", 3) && (s == c || s[-1] == ' ')) {
            *o++ = '.';
            s += 2;
        } else {
            *o++ = *s++;
        }
    }
    *o = 0;
    setenv("PATH", "/usr/bin:/bin", 1);
    int r = __real_system(t);
    free(t);
    return r;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    if (!on) return __real_clock_gettime(c, ts);
    uint64_t t = clock0 + S->calls * 20000;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
time_t __wrap_time(time_t *p) {
    struct timespec ts;
    __wrap_clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}

static char args[16][256];
static int nargs;
static long heap_shift, junk;

static int phase(int with_faults, char **envp) {
    fflush(NULL);
    S->full_after = -1;
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl = {100, 110};
        setrlimit(RLIMIT_CPU, &rl);
        char *av[20];
        for (int i = 0; i < nargs; i++) av[i] = args[i];
        av[nargs] = NULL;
        if (heap_shift) malloc(heap_shift);
        if (junk) mallopt(M_PERTURB, junk);
        setenv("NATURE_ROOT", "/n", 1);
        setenv("TMPDIR", "/w/tmp", 1);
        setenv("HOME", "/w", 1);
        faults = with_faults;
        on = 1;
        exit(__real_main(nargs, av, envp));
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    return 1000 + WTERMSIG(st);
}

// 0 absent, 1 old content, 2 the reference, 3 anything else
static int state(const char *out, const char *ref, long *detail) {
    *detail = 0;
    int a = __real_open(out, O_RDONLY);
    if (a < 0) return 0;
    int b = __real_open(ref, O_RDONLY);
    char x[65536], y[65536];
    long off = 0;
    int r = 2;
    struct stat s1, s2;
    __real_fstat(a, &s1);
    for (;;) {
        ssize_t n = __real_read(a, x, sizeof(x)), m = b < 0 ? -1 : __real_read(b, y, sizeof(y));
        if (off == 0 && n == 4 && !memcmp(x, "old\n", 4)) {
            r = 1;
            break;
        }
        if (n != m || (n > 0 && memcmp(x, y, n))) {
            r = 3;
            *detail = s1.st_size;
            break;
        }
        if (n <= 0) break;
        off += n;
    }
    if (b >= 0) __real_fstat(b, &s2);
    if (r == 2 && (s1.st_mode & 0111) != (s2.st_mode & 0111)) {
        r = 3;
        *detail = -1;
    }
    __real_close(a);
    if (b >= 0) __real_close(b);
    return r;
}
static long count_dir(const char *d) {
    DIR *x = __real_opendir(d);
    if (!x) return -1;
    long n = 0;
    struct dirent *e;
    while ((e = __real_readdir(x))) {
        n += strcmp(e->d_name, ".") && strcmp(e->d_name, "..");
    }
    __real_closedir(x);
    return n;
}

int __wrap_main(int argc, char **argv, char **envp) {
    (void) argc;
    (void) argv;
    S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->hash = 0xcbf29ce484222325ull;
    char line[4096], out[256] = "out", ref[PATH_MAX] = "";
    int old = 0, makeref = 0;
    FILE *f = __real_fopen("cfg", "r");
    if (!f) return 98;
    while (fgets(line, sizeof(line), f)) {
        char *v = strchr(line, '=');
        if (!v) continue;
        *v++ = 0;
        v[strcspn(v, "\n")] = 0;
        for (int i = 0; i < K_N; i++)
            if (!strcmp(line, kname[i])) ppm[i] = atol(v);
        if (!strcmp(line, "seed")) S->rng = strtoull(v, NULL, 10);
        if (!strcmp(line, "replay")) replay = 1;
        if (!strcmp(line, "trace")) trace_on = 1;
        if (!strcmp(line, "old")) old = atoi(v);
        if (!strcmp(line, "makeref")) makeref = atoi(v);
        if (!strcmp(line, "aim")) aim = atol(v);
        if (!strcmp(line, "once")) once = atol(v);
        if (!strcmp(line, "heap_shift")) heap_shift = atol(v);
        if (!strcmp(line, "mem_junk")) junk = atol(v);
        if (!strcmp(line, "clock0")) clock0 = strtoull(v, NULL, 10) * 1000000000ull;
    }
    fclose(f);
    // job: written by the harness beside cfg: root, reference, output name and arguments
    f = __real_fopen("job", "r");
    if (!f) return 98;
    while (fgets(line, sizeof(line), f)) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "root ", 5)) strcpy(natroot, line + 5);
        else if (!strncmp(line, "ref ", 4)) strcpy(ref, line + 4);
        else if (!strncmp(line, "out ", 4)) strcpy(out, line + 4);
        else if (!strncmp(line, "arg ", 4)) strcpy(args[nargs++], line + 4);
    }
    fclose(f);
    if (replay && (f = __real_fopen("dec_in", "r"))) {
        char k[64];
        long a, b, c;
        din = calloc(MAXDEC, sizeof(*din));
        while (ndin < MAXDEC && fscanf(f, "%63s %ld %ld %ld", k, &a, &b, &c) == 4)
            for (int i = 0; i < K_N; i++)
                if (!strcmp(k, kname[i])) {
                    din[ndin].kind = i;
                    din[ndin].idx = a;
                    din[ndin++].val = b;
                }
        fclose(f);
    }
    if (__real_chdir("w") || !__real_getcwd(workdir, sizeof(workdir))) return 98;
    __real_mkdir("tmp", 0755);
    if (old && (f = __real_fopen(out, "w"))) {
        fputs("old\n", f);
        fclose(f);
    }
    long det, had = count_dir(".") + !old;
    int st = phase(!makeref, envp);
    int s = state(out, ref, &det);
    ev(1, st, s, det);
    if (st == 0) {
        ev(3, count_dir("tmp"), count_dir(".") - had, 0);
    }
    if (st != 0 && !makeref && st != 97) {
        // the disk works again: the same command completes, whatever the failed one left behind
        // (the temporary directory is set aside: its name must be the first one's again)
        __real_rename("tmp", "tmp.failed");
        __real_mkdir("tmp", 0755);
        st = phase(0, envp);
        s = state(out, ref, &det);
        ev(2, st, s, det);
    }
    f = __real_fopen("../out", "w");
    for (int i = 0; i < S->nev; i++) fprintf(f, "E w %lu 1 %d %ld %ld %ld\n", (unsigned long) S->ev[i].t * 20000 + 1000000000ul, S->ev[i].k, S->ev[i].a, S->ev[i].b, S->ev[i].c);
    if (S->bad[0]) fprintf(f, "END oracle 1 %s\n", S->bad);
    else fprintf(f, "END exit 0 \n");
    uint64_t ih = S->hash;
    fprintf(f, "STAT hash=%016lx ihash=%016lx vtime_ns=%lu units=%lu switches=0 nev=%d\n", (unsigned long) S->hash, (unsigned long) ih, (unsigned long) S->calls * 20000 + 1000000000ul, (unsigned long) S->calls, S->nev);
    for (int i = 0; i < K_N; i++)
        if (S->hit[i]) fprintf(f, "FAULT %s %lu\n", kname[i], (unsigned long) S->hit[i]);
    if (heap_shift) fprintf(f, "FAULT heap_shift 1\n");
    if (junk) fprintf(f, "FAULT mem_junk 1\n");
    if (clock0) fprintf(f, "FAULT clock_jump 1\n");
    fclose(f);
    f = __real_fopen("../dec", "w");
    for (int i = 0; i < S->ndec; i++) fprintf(f, "%s %ld %ld 0\n", kname[S->dec[i].kind], S->dec[i].idx, S->dec[i].val);
    fclose(f);
    if (trace_on && (f = __real_fopen("../trace", "w"))) {
        fwrite(S->trace, 1, S->ntrace, f);
        fclose(f);
    }
    return 0;
}
