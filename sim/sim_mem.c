/* malloc for the runtime and libuv: freed blocks are filled with a pattern and reused after a drawn number of
 * further frees, so that a use after free has consequences that do not depend on the host allocator. */
#include "sim.h"
#include <sys/mman.h>

#define ARENA 0x610000000000ULL
#define ARENA_SZ (8ULL << 30)
#define MAGIC_LIVE 0x51d0a110c8edb10cULL
#define MAGIC_FREE 0x51d0f4eedb10c000ULL
typedef struct hdr { uint64_t magic; uint32_t cls; uint32_t pad; size_t n; struct hdr *next; } hdr_t; /* 32 bytes */

/* one byte per 16 bytes of the arena: 0 usable, 1 outside of any block, 2 freed. The runtime's accesses are checked
 * against it (sim_core.c, sim_tsan.c); libuv's are not. */
char *sim_shadow;
static char *top, *end_;
static hdr_t *bin[64];                 /* free lists by size class */
static hdr_t *qh, *qt;                 /* quarantine, oldest first */
static int64_t qn, qmax = -1;
static int64_t live_bytes;

static int cls_of(size_t n) {          /* classes: 16..512 step 16 (0-31), then powers of two */
    if (n <= 512) return n ? (int) ((n - 1) / 16) : 0;
    int c = 32;
    for (size_t s = 1024; s < n; s <<= 1) c++;
    return c;
}
static size_t cls_size(int c) { return c < 32 ? (size_t) (c + 1) * 16 : (size_t) 1024 << (c - 32); }
static int ours(const void *p) { return (uint64_t) p - ARENA < ARENA_SZ; }

static void shade(void *p, size_t n, int v) { memset(sim_shadow + ((uint64_t) p - ARENA) / 16, v, (n + 15) / 16); }
void sim_heap_bad(void *p, void *ra) {
    hdr_t *h = NULL;
    for (char *q = (char *) ARENA; q < top && q <= (char *) p; q += sizeof(hdr_t) + cls_size((int) ((hdr_t *) q)->cls)) h = (hdr_t *) q;
    int v = sim_shadow[((uint64_t) p - ARENA) / 16];
    sim_end("heap", 4, "%s a block of %zu bytes at offset %ld, rip=%p", v == 2 ? "use after free of" : "access outside of", h ? h->n : 0, h ? (long) ((char *) p - (char *) (h + 1)) : 0, ra);
}
void *sim_malloc(size_t n) {
    if (!top) {
        top = mmap((void *) ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (top == MAP_FAILED) sim_end("simlimit", 0, "arena");
        end_ = top + ARENA_SZ;
        sim_shadow = mmap((void *) (ARENA + ARENA_SZ), ARENA_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (sim_shadow == MAP_FAILED) sim_end("simlimit", 0, "shadow");
    }
    int c = cls_of(n);
    hdr_t *h = bin[c];
    if (h) {
        bin[c] = h->next;
        h->next = NULL;
    } else {
        size_t s = sizeof *h + cls_size(c);
        if (top + s > end_) { errno = ENOMEM; return NULL; }
        h = (hdr_t *) top;
        top += s;
        shade(h, sizeof *h, 1);
    }
    shade(h + 1, cls_size(c), 1);
    shade(h + 1, n, 0);
    h->magic = MAGIC_LIVE;
    h->cls = (uint32_t) c;
    h->n = n;
    live_bytes += (int64_t) cls_size(c);
    memset(h + 1, 0xA5, n < 4096 ? n : 4096); /* malloc promises nothing about the contents */
    return h + 1;
}
void *sim_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    void *p = sim_malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
void sim_free(void *p) {
    if (!p) return;
    if (!ours(p)) { free(p); return; }
    hdr_t *h = (hdr_t *) p - 1;
    if (h->magic == MAGIC_FREE) sim_end("heap", 1, "double free of %zu bytes", h->n);
    if (h->magic != MAGIC_LIVE) sim_end("heap", 2, "free of a damaged or invalid block");
    h->magic = MAGIC_FREE;
    live_bytes -= (int64_t) cls_size((int) h->cls);
    memset(p, 0xDD, cls_size((int) h->cls));
    shade(p, cls_size((int) h->cls), 2);
    if (qmax < 0) qmax = sim_cfg("mem_quarantine", 0);
    h->next = NULL;
    if (qt) qt->next = h; else qh = h;
    qt = h;
    qn++;
    while (qn > qmax) {
        hdr_t *o = qh;
        qh = o->next;
        if (!qh) qt = NULL;
        qn--;
        o->next = bin[o->cls];
        bin[o->cls] = o;
    }
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    if (!ours(p)) return realloc(p, n);
    if (!n) { sim_free(p); return NULL; }
    hdr_t *h = (hdr_t *) p - 1;
    if (h->magic != MAGIC_LIVE) sim_end("heap", 3, "realloc of a freed or damaged block");
    if (n <= cls_size((int) h->cls)) {
        shade(p, cls_size((int) h->cls), 1);
        shade(p, n, 0);
        h->n = n;
        return p;
    }
    void *q = sim_malloc(n);
    if (q) { memcpy(q, p, h->n); sim_free(p); }
    return q;
}
char *sim_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = sim_malloc(n);
    return p ? memcpy(p, s, n) : NULL;
}
int64_t simn_c_live(void) { return live_bytes; }

// address space: counted, so that a workload can see it grow
static int64_t mapped_bytes;
void *sim_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off) {
    void *p = mmap(addr, n, prot, flags, fd, off);
    if (p != MAP_FAILED && !(flags & MAP_FIXED)) __atomic_fetch_add(&mapped_bytes, n, __ATOMIC_RELAXED);
    return p;
}
int sim_munmap(void *addr, size_t n) {
    int r = munmap(addr, n);
    if (r == 0) __atomic_fetch_sub(&mapped_bytes, n, __ATOMIC_RELAXED);
    return r;
}
int64_t simn_mapped(void) { return mapped_bytes; }
