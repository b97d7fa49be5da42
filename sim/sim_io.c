/* Simulated kernel objects: epoll, eventfd, pipes, socketpairs, TCP, UDP, DNS; and fault-injecting
 * pass-through for files (which live in the run's scratch directory). */
#include "sim.h"
#include "sim_proc.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

#define FD0 200
#define NFD 2048
enum { K_EPOLL = 1, K_EVENT, K_STREAM, K_PIPE_R, K_PIPE_W, K_TCP, K_LISTEN, K_UDP };

typedef struct seg { struct seg *next; int64_t at; size_t off, len; struct sockaddr_in from; uint8_t data[]; } seg_t;
typedef struct obj {
    int kind, refs, nonblock, id;
    /* epoll */
    struct { struct obj *o; int fd; uint32_t ev; epoll_data_t data; } *watch;
    int nwatch, capwatch;
    /* eventfd */
    uint64_t cnt;
    /* stream receive side */
    struct obj *peer;
    seg_t *q, *qt;
    size_t queued, cap;
    int64_t last_at;
    int fin;            /* peer will send no more */
    int64_t fin_at;
    int rst;            /* reset */
    int64_t rst_at;
    int shut_wr, closed, wrote_after_close, rst_told;
    /* tcp */
    struct sockaddr_in la, ra;
    int bound, connecting, connected, conn_err;
    int64_t conn_at;
    /* listen */
    struct obj **acc;
    int64_t *acc_at;
    int nacc, backlog;
    struct obj *next;   /* registry of sockets */
    int link_id;
} obj_t;

static obj_t *fdt[NFD];
static obj_t *socks;
static int nid, next_port = 40000;
static const char epoll_token;
int64_t sim_fd_open_count;

void sim_net_kick(void) { sim_wake(BK_POLL, &epoll_token, -1); }

static obj_t *newobj(int kind) {
    obj_t *o = calloc(1, sizeof *o);
    o->kind = kind;
    o->refs = 1;
    o->id = ++nid;
    o->cap = 65536;
    o->next = socks;
    socks = o;
    return o;
}
static int newfd(obj_t *o) {
    for (int i = 0; i < NFD; i++)
        if (!fdt[i]) { fdt[i] = o; sim_fd_open_count++; return i + FD0; }
    errno = EMFILE;
    return -1;
}
static obj_t *get(int fd) { return fd >= FD0 && fd < FD0 + NFD ? fdt[fd - FD0] : NULL; }
int sim_fd_is(int fd) { return get(fd) != NULL; }
static char real_open[1024];
int64_t simn_open_fds(void) { return sim_fd_open_count; }

/* ---- streams ---- */
static int64_t net_delay(void) {
    int64_t base = 20000;
    return base + sim_fault(D_NET_DELAY, 0, 1, sim_cfg("net_delay_max_us", 20000) * 1000);
}
static int is_tcp(obj_t *o) { return o->kind == K_TCP; }
static void enqueue(obj_t *dst, const uint8_t *b, size_t n, int64_t at) {
    if (at < dst->last_at) at = dst->last_at;
    dst->last_at = at;
    seg_t *s = malloc(sizeof *s + n);
    s->next = NULL;
    s->at = at;
    s->off = 0;
    s->len = n;
    memcpy(s->data, b, n);
    if (dst->qt) dst->qt->next = s; else dst->q = s;
    dst->qt = s;
    dst->queued += n;
}
static size_t avail(obj_t *o) {
    int64_t now = sim_now();
    size_t n = 0;
    for (seg_t *s = o->q; s && s->at <= now; s = s->next) n += s->len - s->off;
    return n;
}
static int fin_arrived(obj_t *o) { return o->fin && o->fin_at <= sim_now(); }
static int rst_arrived(obj_t *o) { return o->rst && o->rst_at <= sim_now(); }
static void set_rst(obj_t *o, int64_t at) { if (!o->rst || at < o->rst_at) { o->rst = 1; o->rst_at = at; } }
static void set_fin(obj_t *o) {
    if (o->fin) return;
    o->fin = 1;
    int64_t at = sim_now() + (is_tcp(o) ? net_delay() : 0);
    if (at < o->last_at) at = o->last_at;
    o->last_at = at;
    o->fin_at = at;
}
static void conn_settle(obj_t *o) {
    if (o->connecting && o->conn_at <= sim_now()) {
        o->connecting = 0;
        if (!o->conn_err) o->connected = 1;
    }
}
static uint32_t readiness(obj_t *o) {
    uint32_t r = 0;
    switch (o->kind) {
        case K_EVENT: if (o->cnt) r |= EPOLLIN; r |= EPOLLOUT; break;
        case K_LISTEN:
            for (int i = 0; i < o->nacc; i++) if (o->acc_at[i] <= sim_now()) r |= EPOLLIN;
            break;
        case K_UDP: r |= EPOLLOUT; if (o->q && o->q->at <= sim_now()) r |= EPOLLIN; break;
        case K_PIPE_W:
            if (!o->peer || o->peer->closed) r |= EPOLLERR | EPOLLOUT;
            else if (o->peer->queued < o->peer->cap) r |= EPOLLOUT;
            break;
        case K_TCP:
            conn_settle(o);
            if (o->connecting) return 0;
            if (o->conn_err) return EPOLLERR | EPOLLHUP | EPOLLOUT | EPOLLIN;
            if (!o->connected) return EPOLLHUP | EPOLLOUT;
            /* fallthrough */
        case K_STREAM: case K_PIPE_R:
            if (avail(o)) r |= EPOLLIN;
            if (fin_arrived(o) && !(o->q && o->q->at > sim_now())) r |= EPOLLIN | EPOLLRDHUP;
            if (rst_arrived(o)) r |= EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLOUT | EPOLLRDHUP;
            if (o->kind != K_PIPE_R) {
                if (!o->peer || o->peer->closed || o->peer->queued < o->peer->cap) r |= EPOLLOUT;
                if (fin_arrived(o) && o->shut_wr) r |= EPOLLHUP;
            } else if (fin_arrived(o)) r |= EPOLLHUP;
            break;
    }
    return r;
}
static int64_t next_event(obj_t *o) {
    int64_t now = sim_now(), m = NEVER;
#define C(x) do { int64_t _x = (x); if (_x > now && _x < m) m = _x; } while (0)
    for (seg_t *s = o->q; s; s = s->next) if (s->at > now) { C(s->at); break; }
    if (o->fin) C(o->fin_at);
    if (o->rst) C(o->rst_at);
    if (o->connecting) C(o->conn_at);
    for (int i = 0; i < o->nacc; i++) C(o->acc_at[i]);
    return m;
}
static void wait_obj(obj_t *o) { sim_block(BK_POLL, &epoll_token, next_event(o)); }
static int nonblocking(obj_t *o, int flags) { return o->nonblock || (flags & MSG_DONTWAIT); }

static int sigpipe_ignored(void);
static int64_t tcp_taken; /* bytes the network took over from writers */
static ssize_t stream_write(obj_t *o, const struct iovec *iov, int n, int flags) {
    size_t tot = 0;
    for (int i = 0; i < n; i++) tot += iov[i].iov_len;
again:
    if (o->kind == K_TCP) {
        conn_settle(o);
        if (o->connecting) { if (nonblocking(o, flags)) { errno = EAGAIN; return -1; } wait_obj(o); goto again; }
        if (!o->connected) { errno = o->conn_err ? EPIPE : ENOTCONN; return -1; }
    }
    if (o->kind == K_TCP && !o->shut_wr && rst_arrived(o) && !o->rst_told) {
        o->rst_told = 1; /* the first call after a reset is told so, later ones only that the stream is broken */
        errno = ECONNRESET;
        return -1;
    }
    if (o->shut_wr || rst_arrived(o)) {
        sim_probe("write_epipe");
        if (!(flags & MSG_NOSIGNAL) && !sigpipe_ignored()) sim_end("signal", SIGPIPE, "killed by SIGPIPE");
        errno = EPIPE;
        return -1;
    }
    obj_t *p = o->peer;
    if (!p || p->closed) {
        if (o->kind == K_TCP) {
            if (!o->wrote_after_close) { o->wrote_after_close = 1; set_rst(o, sim_now() + net_delay()); sim_net_kick(); tcp_taken += (int64_t) tot; return (ssize_t) tot; }
            set_rst(o, sim_now());
        }
        if (!(flags & MSG_NOSIGNAL) && !sigpipe_ignored()) sim_end("signal", SIGPIPE, "killed by SIGPIPE");
        errno = EPIPE;
        return -1;
    }
    if (is_tcp(o) && sim_fault(D_NET_RST, 0, 1, 1)) {
        set_rst(o, sim_now());
        set_rst(p, sim_now() + net_delay());
        sim_net_kick();
        o->rst_told = 1;
        errno = ECONNRESET;
        return -1;
    }
    if (tot == 0) return 0;
    size_t space = p->queued < p->cap ? p->cap - p->queued : 0;
    if (space && o->kind != K_PIPE_W && nonblocking(o, flags) && sim_fault(D_NET_EAGAIN, 0, 1, 1)) {
        /* report full now; readiness still says writable, so the caller is told again */
        errno = EAGAIN;
        return -1;
    }
    if (!space) {
        if (nonblocking(o, flags)) { sim_probe("sndbuf_full"); errno = EAGAIN; return -1; }
        wait_obj(o);
        goto again;
    }
    size_t want = tot < space ? tot : space;
    int whole = o->kind == K_PIPE_W && tot <= 4096; /* such writes to a pipe are never cut */
    if (whole && space < tot) {
        if (nonblocking(o, flags)) { sim_probe("sndbuf_full"); errno = EAGAIN; return -1; }
        wait_obj(o);
        goto again;
    }
    if (want > 1 && !whole) {
        int64_t s = sim_fault(D_NET_SHORTWRITE, 0, 1, (int64_t) want - 1);
        if (s > 0 && (size_t) s < want) want = (size_t) s;
    }
    uint8_t *buf = malloc(want);
    size_t k = 0;
    for (int i = 0; i < n && k < want; i++) {
        size_t m = iov[i].iov_len < want - k ? iov[i].iov_len : want - k;
        memcpy(buf + k, iov[i].iov_base, m);
        k += m;
    }
    size_t off = 0;
    while (off < want) {
        size_t m = want - off;
        if (m > 1 && o->kind != K_PIPE_W) {
            int64_t s = sim_fault(D_NET_SEG, 0, 1, (int64_t) m - 1);
            if (s > 0 && (size_t) s < m) m = (size_t) s;
        }
        enqueue(p, buf + off, m, sim_now() + (is_tcp(o) ? net_delay() : 0));
        off += m;
    }
    free(buf);
    sim_net_kick();
    if (is_tcp(o)) tcp_taken += (int64_t) want;
    return (ssize_t) want;
}
int64_t simn_tcp_taken(void) { return tcp_taken; }
static ssize_t stream_read(obj_t *o, const struct iovec *iov, int n, int flags) {
    size_t tot = 0;
    for (int i = 0; i < n; i++) tot += iov[i].iov_len;
again:
    if (o->kind == K_TCP) {
        conn_settle(o);
        if (o->connecting) { if (nonblocking(o, flags)) { errno = EAGAIN; return -1; } wait_obj(o); goto again; }
        if (!o->connected) { errno = o->conn_err ? o->conn_err : ENOTCONN; return -1; }
    }
    size_t a = avail(o);
    if (!a) {
        if (rst_arrived(o)) { o->rst_told = 1; errno = ECONNRESET; return -1; }
        if (fin_arrived(o) && !o->q) return 0;
        if (nonblocking(o, flags)) { errno = EAGAIN; return -1; }
        wait_obj(o);
        goto again;
    }
    size_t want = a < tot ? a : tot;
    if (want > 1 && o->kind != K_PIPE_R) {
        int64_t s = sim_fault(D_NET_SHORTREAD, 0, 1, (int64_t) want - 1);
        if (s > 0 && (size_t) s < want) want = (size_t) s;
    }
    size_t done = 0;
    int vi = 0;
    size_t vo = 0;
    int64_t now = sim_now();
    while (done < want) {
        seg_t *s = o->q;
        if (!s || s->at > now) break;
        while (vi < n && vo == iov[vi].iov_len) { vi++; vo = 0; }
        if (vi >= n) break;
        size_t m = s->len - s->off;
        if (m > want - done) m = want - done;
        if (m > iov[vi].iov_len - vo) m = iov[vi].iov_len - vo;
        memcpy((uint8_t *) iov[vi].iov_base + vo, s->data + s->off, m);
        if (!(flags & MSG_PEEK)) s->off += m;
        vo += m;
        done += m;
        if (s->off == s->len) {
            o->q = s->next;
            if (!o->q) o->qt = NULL;
            free(s);
        }
        if (flags & MSG_PEEK) break;
    }
    if (!(flags & MSG_PEEK)) o->queued -= done;
    sim_net_kick();
    return (ssize_t) done;
}

/* ---- UDP ---- */
static obj_t *udp_find(const struct sockaddr_in *a) {
    for (obj_t *o = socks; o; o = o->next)
        if (o->kind == K_UDP && !o->closed && o->bound && o->la.sin_port == a->sin_port &&
            (o->la.sin_addr.s_addr == a->sin_addr.s_addr || o->la.sin_addr.s_addr == htonl(INADDR_ANY))) return o;
    return NULL;
}
static void autobind(obj_t *o) {
    if (o->bound) return;
    o->la.sin_family = AF_INET;
    if (!o->la.sin_addr.s_addr) o->la.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    o->la.sin_port = htons(next_port++);
    o->bound = 1;
}
static ssize_t udp_send(obj_t *o, const struct msghdr *m) {
    struct sockaddr_in to;
    if (m->msg_name) memcpy(&to, m->msg_name, sizeof to);
    else if (o->connected) to = o->ra;
    else { errno = EDESTADDRREQ; return -1; }
    autobind(o);
    size_t tot = 0;
    for (size_t i = 0; i < (size_t) m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
    if (tot > 65507) { errno = EMSGSIZE; return -1; }
    int64_t e = sim_fault(D_UDP_SENDFAIL, 0, 1, 3);
    if (e) { errno = e == 1 ? EAGAIN : e == 2 ? ENOBUFS : EPERM; if (e == 1 && !o->nonblock) errno = ENOBUFS; sim_ev("udp_sendfail", o->id, 0, 0, 0); return -1; }
    obj_t *d = udp_find(&to);
    int copies = 1;
    if (sim_fault(D_UDP_LOSS, 0, 1, 1)) copies = 0;
    else if (sim_fault(D_UDP_DUP, 0, 1, 1)) copies = 2;
    for (int c = 0; d && c < copies; c++) {
        seg_t *s = malloc(sizeof *s + tot);
        size_t k = 0;
        for (size_t i = 0; i < (size_t) m->msg_iovlen; i++) { memcpy(s->data + k, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); k += m->msg_iov[i].iov_len; }
        s->at = sim_now() + 20000 + sim_fault(D_UDP_DELAY, 0, 1, 30 * NS_MS);
        s->off = 0;
        s->len = tot;
        s->from = o->la;
        s->from.sin_family = AF_INET;
        if (s->from.sin_addr.s_addr == htonl(INADDR_ANY)) s->from.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        seg_t **pp = &d->q; /* delivery order = arrival time: delays reorder */
        while (*pp && (*pp)->at <= s->at) pp = &(*pp)->next;
        s->next = *pp;
        *pp = s;
    }
    sim_net_kick();
    return (ssize_t) tot;
}
static ssize_t udp_recv(obj_t *o, struct msghdr *m, int flags) {
    for (;;) {
        seg_t *s = o->q;
        if (s && s->at <= sim_now()) {
            size_t k = 0;
            for (size_t i = 0; i < (size_t) m->msg_iovlen && k < s->len; i++) {
                size_t x = m->msg_iov[i].iov_len < s->len - k ? m->msg_iov[i].iov_len : s->len - k;
                memcpy(m->msg_iov[i].iov_base, s->data + k, x);
                k += x;
            }
            m->msg_flags = k < s->len ? MSG_TRUNC : 0;
            if (m->msg_name) { memcpy(m->msg_name, &s->from, sizeof s->from); m->msg_namelen = sizeof s->from; }
            o->q = s->next;
            free(s);
            return (ssize_t) k;
        }
        if (nonblocking(o, flags)) { errno = EAGAIN; return -1; }
        wait_obj(o);
    }
}

/* ---- generic fd calls ---- */
static int drop(obj_t *o);
static int do_close(int fd) {
    obj_t *o = get(fd);
    fdt[fd - FD0] = NULL;
    sim_fd_open_count--;
    for (int i = 0; i < NFD; i++) { /* epoll drops closed descriptors */
        obj_t *e = fdt[i];
        if (e && e->kind == K_EPOLL)
            for (int k = 0; k < e->nwatch; k++) if (e->watch[k].fd == fd) { e->watch[k] = e->watch[--e->nwatch]; k--; }
    }
    return drop(o);
}
static int drop(obj_t *o) {
    if (--o->refs > 0) return 0;
    o->closed = 1;
    if (o->kind == K_TCP || o->kind == K_STREAM || o->kind == K_PIPE_W || o->kind == K_PIPE_R) {
        if (o->peer && !o->peer->closed) {
            if (o->kind == K_TCP && (o->queued > 0)) set_rst(o->peer, sim_now() + net_delay());
            else if (o->kind != K_PIPE_R) set_fin(o->peer);
        }
    }
    if (o->kind == K_LISTEN)
        for (int i = 0; i < o->nacc; i++) {
            o->acc[i]->closed = 1;
            if (o->acc[i]->peer) set_rst(o->acc[i]->peer, sim_now() + net_delay());
        }
    sim_net_kick();
    return 0;
}
/* descriptors of simulated children */
static obj_t *held[1024];
int sim_obj_hold(int fd) {
    obj_t *o = get(fd);
    if (!o) return -1;
    o->refs++;
    o->nonblock = 0;
    for (int i = 0; i < 1024; i++) if (!held[i]) { held[i] = o; return i; }
    sim_end("simlimit", 0, "too many child descriptors");
}
void sim_obj_drop(int h) { obj_t *o = held[h]; held[h] = NULL; drop(o); }
ssize_t sim_obj_read(int h, void *b, size_t n) { struct iovec v = {b, n}; return stream_read(held[h], &v, 1, 0); }
ssize_t sim_obj_write(int h, const void *b, size_t n) { struct iovec v = {(void *) b, n}; return stream_write(held[h], &v, 1, MSG_NOSIGNAL); }
int sim_close(int fd) {
    sim_init();
    if (sim_in_child) return 0;
    SIM_POINT();
    if (get(fd)) return do_close(fd);
    if (fd >= 0 && fd < 1024 && real_open[fd]) {
        real_open[fd] = 0;
        sim_fd_open_count--;
        int r = close(fd);
        if (sim_fault(D_FS_CLOSE, 0, 1, 1)) { errno = EIO; return -1; }
        return r;
    }
    return close(fd);
}
static int opened(int fd) {
    if (fd >= 0 && fd < 1024) { real_open[fd] = 1; sim_fd_open_count++; }
    return fd;
}
static int io_fs_pre(int kind_err, int *eint) {
    int64_t d = sim_fault(D_FS_DELAY, 0, 1, 5 * NS_MS);
    if (d) sim_block(BK_SLEEP, NULL, sim_now() + d);
    else SIM_POINT();
    if (eint && sim_fault(D_FS_EINTR, 0, 1, 1)) { errno = EINTR; *eint = 1; return -1; }
    if (kind_err >= 0 && sim_fault(kind_err, 0, 1, 1)) { errno = EIO; sim_ev("fs_err", kind_err, 0, 0, 0); return -1; }
    return 0;
}
static int is_std(int fd) { return fd >= 0 && fd <= 2; }
static size_t fs_short(int kind, size_t n) {
    if (n > 1) {
        int64_t s = sim_fault(kind, 0, 1, (int64_t) n - 1);
        if (s > 0 && (size_t) s < n) { return (size_t) s; }
    }
    return n;
}
static ssize_t fs_read(int fd, const struct iovec *iov, int n, off_t off) {
    if (!is_std(fd) && io_fs_pre(D_FS_READ_ERR, NULL)) return -1; /* libuv hands EINTR of a read to the caller; regular files never give it */
    size_t tot = 0;
    for (int i = 0; i < n; i++) tot += iov[i].iov_len;
    if (!is_std(fd) && sim_fault(D_FS_NOTSUP, 0, 1, 1)) { errno = EOPNOTSUPP; return -1; }
    size_t lim = is_std(fd) ? tot : fs_short(D_FS_READ_SHORT, tot);
    ssize_t got = 0;
    for (int i = 0; i < n && lim; i++) {
        size_t m = iov[i].iov_len < lim ? iov[i].iov_len : lim;
        ssize_t r = off >= 0 ? pread(fd, iov[i].iov_base, m, off + got) : read(fd, iov[i].iov_base, m);
        if (r < 0) return got ? got : -1;
        got += r;
        lim -= r;
        if ((size_t) r < m) break;
    }
    return got;
}
static ssize_t fs_write(int fd, const struct iovec *iov, int n, off_t off) {
    int ei = 0;
    if (is_std(fd)) { ssize_t r = writev(fd, iov, n); return r; }
    if (io_fs_pre(D_FS_WRITE_ERR, &ei)) return -1;
    size_t tot = 0;
    for (int i = 0; i < n; i++) tot += iov[i].iov_len;
    if (sim_fault(D_FS_ENOSPC, 0, 1, 1)) { errno = ENOSPC; sim_ev("fs_err", D_FS_ENOSPC, 0, 0, 0); return -1; }
    if (sim_fault(D_FS_NOTSUP, 0, 1, 1)) { errno = EOPNOTSUPP; return -1; }
    size_t lim = fs_short(D_FS_WRITE_SHORT, tot);
    ssize_t got = 0;
    for (int i = 0; i < n && lim; i++) {
        size_t m = iov[i].iov_len < lim ? iov[i].iov_len : lim;
        ssize_t r = off >= 0 ? pwrite(fd, iov[i].iov_base, m, off + got) : write(fd, iov[i].iov_base, m);
        if (r < 0) return got ? got : -1;
        got += r;
        lim -= r;
        if ((size_t) r < m) break;
    }
    return got;
}
ssize_t sim_readv(int fd, const struct iovec *iov, int n) {
    sim_init();
    obj_t *o = get(fd);
    if (!o) return fs_read(fd, iov, n, -1);
    SIM_POINT();
    if (o->kind == K_EVENT) {
        for (;;) {
            if (o->cnt) { uint64_t v = o->cnt; o->cnt = 0; memcpy(iov[0].iov_base, &v, 8); return 8; }
            if (o->nonblock) { errno = EAGAIN; return -1; }
            wait_obj(o);
        }
    }
    if (o->kind == K_UDP) { struct msghdr m = {.msg_iov = (struct iovec *) iov, .msg_iovlen = n}; return udp_recv(o, &m, 0); }
    ssize_t r = stream_read(o, iov, n, 0);
    sim_trace("read fd %d kind %d -> %zd", fd, o->kind, r);
    return r;
}
ssize_t sim_read(int fd, void *b, size_t n) { struct iovec v = {b, n}; return sim_readv(fd, &v, 1); }
ssize_t sim_writev(int fd, const struct iovec *iov, int n) {
    sim_init();
    obj_t *o = get(fd);
    if (sim_in_child) { enqueue(o->peer, iov[0].iov_base, iov[0].iov_len, sim_now()); return (ssize_t) iov[0].iov_len; }
    if (!o) return fs_write(fd, iov, n, -1);
    SIM_POINT();
    if (o->kind == K_EVENT) { uint64_t v; memcpy(&v, iov[0].iov_base, 8); o->cnt += v; sim_net_kick(); return 8; }
    if (o->kind == K_UDP) { struct msghdr m = {.msg_iov = (struct iovec *) iov, .msg_iovlen = n}; return udp_send(o, &m); }
    ssize_t r = stream_write(o, iov, n, 0);
    sim_trace("write fd %d kind %d -> %zd", fd, o->kind, r);
    return r;
}
ssize_t sim_write(int fd, const void *b, size_t n) { struct iovec v = {(void *) b, n}; return sim_writev(fd, &v, 1); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { sim_init(); struct iovec v = {b, n}; return fs_read(fd, &v, 1, off); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) { sim_init(); struct iovec v = {(void *) b, n}; return fs_write(fd, &v, 1, off); }
ssize_t sim_preadv(int fd, const struct iovec *v, int n, off_t off) { sim_init(); return fs_read(fd, v, n, off); }
ssize_t sim_pwritev(int fd, const struct iovec *v, int n, off_t off) { sim_init(); return fs_write(fd, v, n, off); }

/* ---- files ---- */
int sim_open(const char *p, int fl, ...) {
    sim_init();
    mode_t mode = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
    if ((!strcmp(p, "/dev/null") && (fl & O_ACCMODE) == O_RDONLY) || !strcmp(p, "/")) return open(p, fl, mode); /* the event loop keeps one spare descriptor */
    if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5)) return opened(open(p, fl, mode));
    if (io_fs_pre(-1, NULL)) return -1;
    int64_t e = sim_fault(D_FS_OPEN, 0, 1, 3);
    if (e) { errno = e == 1 ? EMFILE : e == 2 ? EACCES : EIO; sim_ev("fs_err", D_FS_OPEN, 0, 0, 0); return -1; }
    return opened(open(p, fl, mode));
}
int sim_fsync(int fd) { if (io_fs_pre(D_FS_FSYNC, NULL)) return -1; return fsync(fd); }
int sim_fdatasync(int fd) { if (io_fs_pre(D_FS_FSYNC, NULL)) return -1; return fdatasync(fd); }
int sim_stat(const char *p, struct stat *s) { sim_init(); if (io_fs_pre(D_FS_STAT, NULL)) return -1; return stat(p, s); }
int sim_lstat(const char *p, struct stat *s) { sim_init(); if (io_fs_pre(D_FS_STAT, NULL)) return -1; return lstat(p, s); }
int sim_fstat(int fd, struct stat *s) {
    sim_init();
    obj_t *o = get(fd);
    if (o) { memset(s, 0, sizeof *s); s->st_mode = o->kind == K_PIPE_R || o->kind == K_PIPE_W ? S_IFIFO : S_IFSOCK; return 0; }
    if (io_fs_pre(D_FS_STAT, NULL)) return -1;
    return fstat(fd, s);
}
int sim_unlink(const char *p) { if (io_fs_pre(-1, NULL)) return -1; return unlink(p); }
int sim_rename(const char *a, const char *b) { if (io_fs_pre(-1, NULL)) return -1; return rename(a, b); }
int sim_mkdir(const char *p, mode_t m) { if (io_fs_pre(-1, NULL)) return -1; return mkdir(p, m); }
int sim_ftruncate(int fd, off_t n) { if (io_fs_pre(-1, NULL)) return -1; return ftruncate(fd, n); }

/* ---- epoll ---- */
int sim_epoll_create1(int fl) { sim_init(); return newfd(newobj(K_EPOLL)); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    obj_t *e = get(ep), *o = get(fd);
    if (!e) { errno = EBADF; return -1; }
    if (!o) { errno = fd >= FD0 ? EBADF : EPERM; return -1; }
    int k = -1;
    for (int i = 0; i < e->nwatch; i++) if (e->watch[i].fd == fd) k = i;
    if (op == EPOLL_CTL_ADD) {
        if (k >= 0) { errno = EEXIST; return -1; }
        if (e->nwatch == e->capwatch) { e->capwatch = e->capwatch * 2 + 16; e->watch = realloc(e->watch, e->capwatch * sizeof *e->watch); }
        k = e->nwatch++;
        e->watch[k].fd = fd;
    } else if (k < 0) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) { e->watch[k] = e->watch[--e->nwatch]; return 0; }
    e->watch[k].o = o;
    e->watch[k].ev = ev->events;
    e->watch[k].data = ev->data;
    sim_net_kick();
    return 0;
}
int sim_epoll_pwait(int ep, struct epoll_event *out, int max, int timeout, const sigset_t *ss) {
    sim_init();
    SIM_POINT();
    obj_t *e = get(ep);
    if (!e) { errno = EBADF; return -1; }
    int64_t dl = timeout < 0 ? NEVER : sim_now() + (int64_t) timeout * NS_MS;
    if (timeout != 0 && sim_fault(D_EPOLL_EINTR, 0, 1, 1)) { errno = EINTR; return -1; }
    for (;;) {
        int n = 0, ready[NFD];
        for (int i = 0; i < e->nwatch; i++) {
            uint32_t r = readiness(e->watch[i].o) & (e->watch[i].ev | EPOLLERR | EPOLLHUP);
            if (r) ready[n++] = i;
        }
        if (n) {
            int lim = n < max ? n : max;
            if (n > 1) { /* order and batch size are the kernel's choice */
                int rot = (int) sim_decide(D_EPOLL_ORDER, 0, 500000, 0, n - 1);
                if (rot > 0 && rot < n) {
                    int t[NFD];
                    for (int i = 0; i < n; i++) t[i] = ready[(i + rot) % n];
                    memcpy(ready, t, n * sizeof *t);
                }
                int cut = (int) sim_decide(D_EPOLL_ORDER, 0, 250000, 1, n);
                if (cut > 0 && cut < lim) lim = cut;
            }
            for (int i = 0; i < lim; i++) {
                int w = ready[i];
                out[i].events = readiness(e->watch[w].o) & (e->watch[w].ev | EPOLLERR | EPOLLHUP);
                out[i].data = e->watch[w].data;
            }
            return lim;
        }
        int64_t now = sim_now();
        if (now >= dl) return 0;
        int64_t m = dl;
        for (int i = 0; i < e->nwatch; i++) { int64_t x = next_event(e->watch[i].o); if (x < m) m = x; }
        sim_block(BK_POLL, &epoll_token, m);
    }
}
int sim_epoll_wait(int ep, struct epoll_event *out, int max, int timeout) { return sim_epoll_pwait(ep, out, max, timeout, NULL); }
int sim_poll(struct pollfd *p, nfds_t n, int timeout) {
    sim_init();
    int64_t dl = timeout < 0 ? NEVER : sim_now() + (int64_t) timeout * NS_MS;
    for (;;) {
        int c = 0;
        int64_t m = dl;
        for (nfds_t i = 0; i < n; i++) {
            obj_t *o = get(p[i].fd);
            p[i].revents = 0;
            if (!o) { p[i].revents = p[i].fd >= FD0 ? POLLNVAL : p[i].events & (POLLIN | POLLOUT); c += p[i].revents != 0; continue; }
            uint32_t r = readiness(o);
            p[i].revents = (short) (r & ((uint32_t) p[i].events | POLLERR | POLLHUP));
            c += p[i].revents != 0;
            int64_t x = next_event(o);
            if (x < m) m = x;
        }
        if (c || sim_now() >= dl) return c;
        sim_block(BK_POLL, &epoll_token, m);
    }
}
int sim_eventfd(unsigned v, int fl) { sim_init(); obj_t *o = newobj(K_EVENT); o->cnt = v; o->nonblock = !!(fl & EFD_NONBLOCK); return newfd(o); }
int sim_pipe2(int fd[2], int fl) {
    sim_init();
    obj_t *r = newobj(K_PIPE_R), *w = newobj(K_PIPE_W);
    r->peer = w;
    w->peer = r;
    r->nonblock = w->nonblock = !!(fl & O_NONBLOCK);
    fd[0] = newfd(r);
    fd[1] = newfd(w);
    return 0;
}
int sim_pipe(int fd[2]) { return sim_pipe2(fd, 0); }
int sim_socketpair(int d, int type, int proto, int fd[2]) {
    sim_init();
    obj_t *a = newobj(K_STREAM), *b = newobj(K_STREAM);
    a->peer = b;
    b->peer = a;
    a->nonblock = b->nonblock = !!(type & SOCK_NONBLOCK);
    fd[0] = newfd(a);
    fd[1] = newfd(b);
    return 0;
}
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    sim_init();
    if (sim_in_child) return fd;
    obj_t *o = get(fd);
    if (!o) return fcntl(fd, cmd, arg);
    if (cmd == F_GETFL) return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { o->nonblock = !!(arg & O_NONBLOCK); return 0; }
    if (cmd == F_GETFD) return FD_CLOEXEC;
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { o->refs++; return newfd(o); }
    return 0;
}
int sim_ioctl(int fd, int req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    sim_init();
    if (sim_in_child) return 0;
    obj_t *o = get(fd);
    if (!o) return ioctl(fd, req, arg);
    if ((unsigned) req == FIONBIO) o->nonblock = !!*(int *) arg;
    else if ((unsigned) req == FIONREAD) *(int *) arg = (int) avail(o);
    return 0;
}
int sim_dup2(int a, int b) {
    obj_t *o = get(a);
    if (sim_in_child) { sim_child_dup2(a, b); return b; }
    if (!o && b < FD0) return dup2(a, b);
    if (!o || b < FD0) { errno = EBADF; return -1; }
    if (get(b)) do_close(b);
    o->refs++;
    fdt[b - FD0] = o;
    sim_fd_open_count++;
    return b;
}

/* ---- sockets ---- */
int sim_socket(int d, int type, int proto) {
    sim_init();
    SIM_POINT();
    if (sim_fault(D_SOCK_FAIL, 0, 1, 1)) { errno = EMFILE; return -1; }
    if (d != AF_INET && d != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
    obj_t *o = newobj((type & 0xf) == SOCK_DGRAM ? K_UDP : K_TCP);
    o->nonblock = !!(type & SOCK_NONBLOCK);
    o->la.sin_family = AF_INET;
    return newfd(o);
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t l) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (a->sa_family != AF_INET) { errno = EADDRNOTAVAIL; return -1; }
    struct sockaddr_in in;
    memcpy(&in, a, sizeof in);
    if (in.sin_port == 0) in.sin_port = htons(next_port++);
    else
        for (obj_t *x = socks; x; x = x->next)
            if (x != o && !x->closed && x->bound && x->la.sin_port == in.sin_port &&
                (x->kind == K_UDP) == (o->kind == K_UDP) && (x->kind == K_LISTEN || x->kind == K_UDP)) { errno = EADDRINUSE; return -1; }
    o->la = in;
    o->bound = 1;
    return 0;
}
int sim_listen(int fd, int backlog) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    autobind(o);
    for (obj_t *x = socks; x; x = x->next)
        if (x != o && !x->closed && x->kind == K_LISTEN && x->la.sin_port == o->la.sin_port) { errno = EADDRINUSE; return -1; }
    o->kind = K_LISTEN;
    o->backlog = backlog > 0 ? backlog : 1;
    return 0;
}
static void add_accept(obj_t *l, obj_t *s, int64_t at) {
    l->acc = realloc(l->acc, (l->nacc + 1) * sizeof *l->acc);
    l->acc_at = realloc(l->acc_at, (l->nacc + 1) * sizeof *l->acc_at);
    l->acc[l->nacc] = s;
    l->acc_at[l->nacc++] = at;
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *al, int fl) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    SIM_POINT();
    for (;;) {
        int k = -1;
        for (int i = 0; i < o->nacc; i++) if (o->acc_at[i] <= sim_now() && (k < 0 || o->acc_at[i] < o->acc_at[k])) k = i;
        if (k >= 0) {
            int64_t e = sim_fault(D_ACCEPT_FAIL, 0, 1, 2);
            obj_t *s = o->acc[k];
            if (e == 1) { /* connection aborted before accept */
                for (int i = k; i + 1 < o->nacc; i++) { o->acc[i] = o->acc[i + 1]; o->acc_at[i] = o->acc_at[i + 1]; }
                o->nacc--;
                s->closed = 1;
                if (s->peer) set_rst(s->peer, sim_now() + net_delay());
                sim_net_kick();
                errno = ECONNABORTED;
                return -1;
            }
            for (int i = k; i + 1 < o->nacc; i++) { o->acc[i] = o->acc[i + 1]; o->acc_at[i] = o->acc_at[i + 1]; }
            o->nacc--;
            s->nonblock = !!(fl & SOCK_NONBLOCK);
            if (a && al) { memcpy(a, &s->ra, sizeof s->ra); *al = sizeof s->ra; }
            return newfd(s);
        }
        if (o->nonblock) { errno = EAGAIN; return -1; }
        wait_obj(o);
    }
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *al) { return sim_accept4(fd, a, al, 0); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t l) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    SIM_POINT();
    if (a->sa_family == AF_UNSPEC) { o->connected = 0; return 0; }
    if (a->sa_family != AF_INET) { errno = ENETUNREACH; return -1; }
    struct sockaddr_in to;
    memcpy(&to, a, sizeof to);
    if (o->kind == K_UDP) { o->ra = to; o->connected = 1; autobind(o); return 0; }
    if (o->connected) { errno = EISCONN; return -1; }
    if (o->connecting) { conn_settle(o); errno = o->connecting ? EALREADY : EISCONN; return -1; }
    autobind(o);
    o->ra = to;
    obj_t *ls = NULL;
    for (obj_t *x = socks; x; x = x->next)
        if (x->kind == K_LISTEN && !x->closed && x->la.sin_port == to.sin_port &&
            (x->la.sin_addr.s_addr == htonl(INADDR_ANY) || x->la.sin_addr.s_addr == to.sin_addr.s_addr)) ls = x;
    o->connecting = 1;
    o->conn_at = sim_now() + net_delay();
    o->conn_err = 0;
    // 10.255/16 answers nothing
    if ((ntohl(to.sin_addr.s_addr) >> 16) == 0x0aff || sim_fault(D_NET_CONNDROP, 0, 1, 1)) { o->conn_err = ETIMEDOUT; o->conn_at = sim_now() + 127000 * NS_MS; }
    else if (!ls || sim_fault(D_NET_REFUSE, 0, 1, 1)) { o->conn_err = ECONNREFUSED; if (ls) sim_ev("refused", 0, 0, 0, 0); }
    else if (ls->nacc >= ls->backlog) { o->conn_err = ETIMEDOUT; o->conn_at = sim_now() + 127000 * NS_MS; sim_probe("backlog_full"); }
    else {
        obj_t *s = newobj(K_TCP);
        s->la = to;
        s->ra = o->la;
        s->bound = 0;
        s->connected = 1;
        s->peer = o;
        o->peer = s;
        s->cap = o->cap = 65536;
        int64_t sm = sim_fault(D_NET_SNDBUF, 0, 1, 64);
        if (sm) { s->cap = (size_t) sm * 16; o->cap = (size_t) sm * 16; }
        add_accept(ls, s, o->conn_at);
    }
    sim_net_kick();
    if (o->nonblock) { errno = EINPROGRESS; return -1; }
    while (o->connecting) { wait_obj(o); conn_settle(o); }
    if (o->conn_err) { errno = o->conn_err; return -1; }
    return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    memcpy(a, &o->la, *l < sizeof o->la ? *l : sizeof o->la);
    *l = sizeof o->la;
    return 0;
}
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    conn_settle(o);
    if (o->kind != K_STREAM && !o->connected) { errno = ENOTCONN; return -1; }
    memcpy(a, &o->ra, *l < sizeof o->ra ? *l : sizeof o->ra);
    *l = sizeof o->ra;
    return 0;
}
int sim_getsockopt(int fd, int lv, int op, void *v, socklen_t *l) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (lv == SOL_SOCKET && op == SO_ERROR) {
        conn_settle(o);
        int e = o->connecting ? EINPROGRESS : o->conn_err;
        if (o->connecting) e = 0;
        if (!e && rst_arrived(o) && !o->q) e = ECONNRESET;
        *(int *) v = e;
        return 0;
    }
    if (lv == SOL_SOCKET && op == SO_TYPE) { *(int *) v = o->kind == K_UDP ? SOCK_DGRAM : SOCK_STREAM; return 0; }
    if (lv == SOL_SOCKET && op == SO_ACCEPTCONN) { *(int *) v = o->kind == K_LISTEN; return 0; }
    memset(v, 0, *l);
    return 0;
}
int sim_setsockopt(int fd, int lv, int op, const void *v, socklen_t l) { if (!get(fd)) { errno = EBADF; return -1; } return 0; }
int sim_shutdown(int fd, int how) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    SIM_POINT();
    if (how == SHUT_WR || how == SHUT_RDWR) {
        o->shut_wr = 1;
        if (o->peer && !o->peer->closed) set_fin(o->peer);
    }
    sim_net_kick();
    return 0;
}
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    SIM_POINT();
    if (o->kind == K_UDP) return udp_send(o, m);
    return stream_write(o, m->msg_iov, (int) m->msg_iovlen, fl);
}
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) {
    obj_t *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    SIM_POINT();
    m->msg_controllen = 0;
    if (o->kind == K_UDP) return udp_recv(o, m, fl);
    m->msg_flags = 0;
    return stream_read(o, m->msg_iov, (int) m->msg_iovlen, fl);
}
int sim_sendmmsg(int fd, struct mmsghdr *m, unsigned n, unsigned fl) {
    int c = 0;
    for (unsigned i = 0; i < n; i++) {
        ssize_t r = sim_sendmsg(fd, &m[i].msg_hdr, (int) fl);
        if (r < 0) return c ? c : -1;
        m[i].msg_len = (unsigned) r;
        c++;
    }
    return c;
}
int sim_recvmmsg(int fd, struct mmsghdr *m, unsigned n, unsigned fl, struct timespec *ts) {
    int c = 0;
    for (unsigned i = 0; i < n; i++) {
        ssize_t r = sim_recvmsg(fd, &m[i].msg_hdr, (int) fl | (c ? MSG_DONTWAIT : 0));
        if (r < 0) return c ? c : -1;
        m[i].msg_len = (unsigned) r;
        c++;
    }
    return c;
}
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    struct iovec v = {(void *) b, n};
    struct msghdr m = {.msg_name = (void *) a, .msg_namelen = l, .msg_iov = &v, .msg_iovlen = 1};
    return sim_sendmsg(fd, &m, fl);
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    struct iovec v = {b, n};
    struct msghdr m = {.msg_name = a, .msg_namelen = l ? *l : 0, .msg_iov = &v, .msg_iovlen = 1};
    ssize_t r = sim_recvmsg(fd, &m, fl);
    if (r >= 0 && l) *l = m.msg_namelen;
    return r;
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, NULL, 0); }
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, NULL, NULL); }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    int64_t dl = tv ? sim_now() + tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : NEVER;
    for (;;) {
        fd_set or, ow;
        FD_ZERO(&or);
        FD_ZERO(&ow);
        int c = 0;
        int64_t m = dl;
        for (int i = 0; i < n; i++) {
            obj_t *o = get(i);
            if (!o) continue;
            uint32_t x = readiness(o);
            if (r && FD_ISSET(i, r) && (x & EPOLLIN)) { FD_SET(i, &or); c++; }
            if (w && FD_ISSET(i, w) && (x & EPOLLOUT)) { FD_SET(i, &ow); c++; }
            int64_t q = next_event(o);
            if (q < m) m = q;
        }
        if (c || sim_now() >= dl) { if (r) *r = or; if (w) *w = ow; if (e) FD_ZERO(e); return c; }
        sim_block(BK_POLL, &epoll_token, m);
    }
}

/* ---- DNS: hN.sim -> 10.0.0.N, localhost -> 127.0.0.1, anything else unknown ---- */
int sim_getaddrinfo(const char *h, const char *svc, const struct addrinfo *hints, struct addrinfo **res) {
    sim_init();
    int64_t d = sim_fault(D_DNS_DELAY, 0, 1, 50 * NS_MS);
    sim_block(BK_SLEEP, NULL, sim_now() + 100000 + d);
    int64_t f = sim_fault(D_DNS_FAIL, 0, 1, 2);
    if (f) { sim_ev("dns_fail", f, 0, 0, 0); return f == 1 ? EAI_AGAIN : EAI_FAIL; }
    uint32_t ip = 0;
    int k, n = 1;
    struct in_addr ia;
    if (h && sscanf(h, "m%dx%d.sim", &k, &n) == 2 && n > 0 && n < 10) ip = (10u << 24) | (uint32_t) k << 16 | 1; /* several addresses */
    else if (!h || !strcmp(h, "localhost")) ip = INADDR_LOOPBACK;
    else if (sscanf(h, "h%d.sim", &k) == 1) ip = (10u << 24) | (uint32_t) k;
    else if (inet_pton(AF_INET, h, &ia) == 1) ip = ntohl(ia.s_addr);
    else return EAI_NONAME;
    for (int i = 0; i < n; i++) {
        struct addrinfo *ai = calloc(1, sizeof *ai + sizeof(struct sockaddr_in));
        struct sockaddr_in *sa = (void *) (ai + 1);
        sa->sin_family = AF_INET;
        sa->sin_addr.s_addr = htonl(ip + (uint32_t) i);
        sa->sin_port = svc ? htons((uint16_t) atoi(svc)) : 0;
        ai->ai_family = AF_INET;
        ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
        ai->ai_protocol = hints ? hints->ai_protocol : 0;
        ai->ai_addrlen = sizeof *sa;
        ai->ai_addr = (void *) sa;
        *res = ai;
        res = &ai->ai_next;
    }
    return 0;
}
void sim_freeaddrinfo(struct addrinfo *ai) {
    while (ai) {
        struct addrinfo *n = ai->ai_next;
        free(ai);
        ai = n;
    }
}

int sim_clock_gettime(clockid_t c, struct timespec *ts);
/* ---- raw syscalls made by libuv and the std syscall layer ---- */
long sim_syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    sim_init();
    switch (n) {
        case 425: case 426: case 427: errno = ENOSYS; return -1; /* io_uring */
        case SYS_close: return sim_close((int) a);
        case SYS_read: return sim_read((int) a, (void *) b, (size_t) c);
        case SYS_write: return sim_write((int) a, (void *) b, (size_t) c);
        case SYS_clock_gettime: return sim_clock_gettime((clockid_t) a, (struct timespec *) b);
        case SYS_futex: {
            int op = (int) b & 127;
            SIM_POINT();
            if (op == 0 || op == 9) { /* wait */
                if (*(volatile int *) a != (int) c) { errno = EAGAIN; return -1; }
                struct timespec *ts = (void *) d;
                int64_t dl = NEVER;
                if (ts) dl = (op == 0 ? sim_now() : 0) + ts->tv_sec * 1000000000LL + ts->tv_nsec;
                if (sim_block(BK_SEM, (void *) a, dl)) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == 1 || op == 10) { sim_wake(BK_SEM, (void *) a, (int) c > 1000 ? -1 : (int) c); SIM_POINT(); return 1; }
            break;
        }
        case SYS_gettid: return 1000 + sim_cur;
        case SYS_getpid: return 4242;
        case SYS_getrandom: {
            uint8_t *p = (uint8_t *) a;
            for (long i = 0; i < b; i++) p[i] = (uint8_t) sim_decide(D_RAND, 7, 1000000, 0, 255);
            return b;
        }
        case SYS_statx: if (io_fs_pre(D_FS_STAT, NULL)) return -1; break;
        case SYS_preadv: return sim_preadv((int) a, (void *) b, (int) c, (off_t) d);
        case SYS_pwritev: return sim_pwritev((int) a, (void *) b, (int) c, (off_t) d);
        default: break;
    }
    return syscall(n, a, b, c, d, e, f);
}

/* ---- signals ---- */
static struct sigaction acts[65];
static int sigpipe_ignored(void) { return acts[SIGPIPE].sa_handler == SIG_IGN || acts[SIGPIPE].sa_handler != SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (sim_in_child) return 0;
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) *o = acts[s];
    if (a) acts[s] = *a;
    return 0;
}
void (*sim_signal(int s, void (*h)(int)))(int) {
    if (sim_in_child) return SIG_DFL;
    void (*old)(int) = acts[s].sa_handler;
    acts[s].sa_handler = h;
    acts[s].sa_flags = 0;
    return old;
}
int sim_sigprocmask(int h, const sigset_t *a, sigset_t *o) { if (o) memset(o, 0, sizeof *o); return 0; }
int sim_pthread_sigmask(int h, const sigset_t *a, sigset_t *o) { if (o) memset(o, 0, sizeof *o); return 0; }
/* deliver a process-directed signal: runs the installed handler on the current thread */
void sim_raise(int s) {
    struct sigaction *a = &acts[s];
    if (a->sa_handler == SIG_IGN) return;
    if (a->sa_handler == SIG_DFL) {
        if (s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT) return;
        sim_end("signal", s, "killed by simulated signal %d", s);
    }
    int e = errno;
    if (a->sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; a->sa_sigaction(s, &si, NULL); }
    else a->sa_handler(s);
    errno = e;
}
void simn_raise(int64_t s) { SIM_POINT(); sim_raise((int) s); SIM_POINT(); }
