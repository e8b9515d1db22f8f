#define _GNU_SOURCE
#include "env.h"
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <time.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <netdb.h>
#include <netinet/in.h>
env_t E; mem_t M;
#define FDBASE (E.fd_base)
static struct addrinfo gai_nodes[16]; static struct sockaddr_in6 gai_sa[8];

void env_reset(int tcp)
{
    memset(E.rx, 0, 0);
    int (*c)(int, int) = NULL; (void)c;
    E.fault_errno = 0; E.tcp = tcp; E.rx_h = E.rx_t = 0; E.chunk = NULL; E.write_outcome = NULL; E.on_write = NULL; E.tx_n = E.tx_cnt = 0;
    E.reads = 0; E.read_budget = 200000; E.silences = 0; E.max_over = 0; E.drained_at = -1;
    memset(E.fd_open, 0, sizeof E.fd_open); memset(E.fd_kind, 0, sizeof E.fd_kind); memset(E.fd_fl, 0, sizeof E.fd_fl); memset(E.fd_dom, 0, sizeof E.fd_dom); memset(E.fd_type, 0, sizeof E.fd_type);
    E.n_fd = E.n_open_now = E.bad_fd = 0; E.bad_fd_what[0] = 0; E.fault = NULL;
    memset(E.fd_tcn, 0, sizeof E.fd_tcn); E.tcset_n = 0; E.tcset_fd = -1; E.sockopt_n = 0; E.rcvtimeo_us = E.sndtimeo_us = 0; E.saw_rcv = E.saw_snd = 0; E.open_path[0] = E.gai_host[0] = E.gai_port[0] = 0;
    E.gai_n = E.gai_live = 0; E.naddr = 1; E.conn_addr = -1; E.fd_base = 600; E.neg_fd = 0; E.rx_fd = -1; E.w_fd = -1; E.cross = 0; E.now = 1000000000; E.open_flags = 0; E.rxlog_n = E.rxlog_over = E.brk_n = 0;
}
void env_clear_rx(void) { E.rx_h = E.rx_t = 0; }
static void push(int k, int b) { if (E.rx_t >= RXMAX) { memmove(E.rx, E.rx + E.rx_h, (E.rx_t - E.rx_h) * sizeof E.rx[0]); E.rx_t -= E.rx_h; E.rx_h = 0; } if (E.rx_t >= RXMAX) mc_fail("harness: rx overflow"); E.rx[E.rx_t].kind = k; E.rx[E.rx_t++].byte = b; }
void rx_bytes(const void *p, int n) { const uint8_t *b = p; while (n-- > 0) push(RX_BYTE, *b++); }
void rx_event(int k) { push(k, 0); }
int rx_left(void) { int i, n = 0; for (i = E.rx_h; i < E.rx_t; i++) n += E.rx[i].kind == RX_BYTE; return n; }
int rx_items(void) { return E.rx_t - E.rx_h; }
const uint8_t *tx_frame(int k, int *n) { if (k < 0 || k >= E.tx_cnt) { *n = -1; return NULL; } *n = (k + 1 < E.tx_cnt ? E.tx_ofs[k + 1] : E.tx_n) - E.tx_ofs[k]; return E.tx + E.tx_ofs[k]; }

static int fd_ok(int fd, const char *what)
{
    if (fd >= FDBASE && fd < FDBASE + E.n_fd && E.fd_open[fd - FDBASE]) return 1;
    E.bad_fd++; if (fd == -1) E.neg_fd++; snprintf(E.bad_fd_what, sizeof E.bad_fd_what, "%s(fd %d)", what, fd);
    errno = EBADF; return 0;
}
static int new_fd(int kind) { if (E.n_fd >= 64) mc_fail("more than 64 descriptors opened in one case"); E.fd_open[E.n_fd] = 1; E.fd_kind[E.n_fd] = kind; E.n_open_now++; return FDBASE + E.n_fd++; }
static int faulty(const char *w) { return E.fault && E.fault(w); }

int env_open(const char *path, int flags, ...)
{
    snprintf(E.open_path, sizeof E.open_path, "%s", path); E.open_flags = flags;
    if (faulty("open")) { errno = E.fault_errno ? E.fault_errno : ENOENT; return -1; }
    { int fd = new_fd(1); E.fd_fl[fd - FDBASE] = flags & ~(O_CREAT | O_EXCL | O_NOCTTY | O_TRUNC); return fd; }
}
int env_open64(const char *path, int flags, ...) { return env_open(path, flags); }
int env_close(int fd)
{
    if (!fd_ok(fd, "close")) return -1;
    E.fd_open[fd - FDBASE] = 0; E.n_open_now--;
    if (faulty("close")) { errno = EIO; return -1; }
    return 0;
}
int env_isatty(int fd) { if (fd >= FDBASE && fd < FDBASE + E.n_fd && E.fd_open[fd - FDBASE] && E.fd_kind[fd - FDBASE] == 1) return 1; errno = (fd >= FDBASE && fd < FDBASE + E.n_fd && E.fd_open[fd - FDBASE]) ? ENOTTY : EBADF; return 0; }
int env_tcdrain(int fd) { if (!fd_ok(fd, "tcdrain")) return -1; E.drained_at = E.tx_n; if (faulty("tcdrain")) { errno = EIO; return -1; } return 0; }
int env_tcflush(int fd, int q) { if (!fd_ok(fd, "tcflush")) return -1; if (q == TCIFLUSH || q == TCIOFLUSH) env_clear_rx(); return 0; }
int env_tcgetattr(int fd, struct termios *t) { if (!fd_ok(fd, "tcgetattr")) return -1; if (faulty("tcgetattr")) { errno = EIO; return -1; } if (E.fd_tcn[fd - FDBASE]) *t = E.fd_tc[fd - FDBASE]; else if (E.tcset_n) *t = E.tcset; else memset(t, 0, sizeof *t); return 0; }
int env_tcsetattr(int fd, int act, const struct termios *t)
{
    if (!fd_ok(fd, "tcsetattr")) return -1;
    if (faulty("tcsetattr")) { errno = E.fault_errno ? E.fault_errno : EIO; return -1; }
    E.fd_tc[fd - FDBASE] = *t; E.fd_tcn[fd - FDBASE] = 1; E.tcset = *t; E.tcset_n++; E.tcset_fd = fd; E.tcset_act = act; return 0;
}
int env_cfsetispeed(struct termios *t, speed_t s) { if (faulty("cfsetispeed")) { errno = EINVAL; return -1; } return cfsetispeed(t, s); }
int env_cfsetospeed(struct termios *t, speed_t s) { if (faulty("cfsetospeed")) { errno = EINVAL; return -1; } return cfsetospeed(t, s); }
int env_cfsetspeed(struct termios *t, speed_t s) { if (faulty("cfsetispeed")) { errno = EINVAL; return -1; } return cfsetspeed(t, s); }

int env_socket(int d, int ty, int p)
{
    int fd; (void)p; if (faulty("socket")) { errno = E.fault_errno ? E.fault_errno : EMFILE; return -1; }
    fd = new_fd(2); E.fd_fl[fd - FDBASE] = O_RDWR | (ty & SOCK_NONBLOCK ? O_NONBLOCK : 0); E.fd_dom[fd - FDBASE] = d; E.fd_type[fd - FDBASE] = ty & 0xFF; return fd;
}
int env_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    int i; (void)l;
    if (!fd_ok(fd, "connect")) return -1;
    if (E.fd_kind[fd - FDBASE] != 2) { errno = ENOTSOCK; return -1; }
    if (a->sa_family != E.fd_dom[fd - FDBASE]) { errno = EAFNOSUPPORT; return -1; }
    if (faulty("connect")) { errno = E.fault_errno ? E.fault_errno : ECONNREFUSED; return -1; }
    if (E.fd_type[fd - FDBASE] != SOCK_STREAM) mc_fail("connected to a socket that is no stream");
    for (i = 0; i < 8; i++) if (a == (void *)&gai_sa[i]) E.conn_addr = i;
    return 0;
}
int env_getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res)
{
    /* every address as a stream and as a datagram service, the first of the IPv6 family, then alternating: what the hints leave of them */
    int i, k, n = 0;
    snprintf(E.gai_host, sizeof E.gai_host, "%s", h ? h : ""); snprintf(E.gai_port, sizeof E.gai_port, "%s", s ? s : "");
    E.gai_n++;
    if (faulty("getaddrinfo")) return EAI_NONAME;
    for (i = 0; i < E.naddr && i < 8; i++) for (k = 0; k < 2; k++) {
        int fam = i & 1 ? AF_INET : AF_INET6, ty = k ? SOCK_STREAM : SOCK_DGRAM; struct addrinfo *g = &gai_nodes[n];
        if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != fam) continue;
        if (hints && hints->ai_socktype && hints->ai_socktype != ty) continue;
        memset(g, 0, sizeof *g); g->ai_family = fam; g->ai_socktype = ty; g->ai_protocol = k ? IPPROTO_TCP : IPPROTO_UDP;
        memset(&gai_sa[i], 0, sizeof gai_sa[i]); gai_sa[i].sin6_family = fam; g->ai_addr = (void *)&gai_sa[i]; g->ai_addrlen = fam == AF_INET ? sizeof(struct sockaddr_in) : sizeof gai_sa[i];
        if (n) gai_nodes[n - 1].ai_next = g;
        n++;
    }
    if (!n) return EAI_NONAME;
    E.gai_live++; *res = gai_nodes; return 0;
}
void env_freeaddrinfo(struct addrinfo *r) { if (r != gai_nodes) mc_fail("freeaddrinfo of something else than the address list"); if (--E.gai_live < 0) mc_fail("address list freed twice"); memset(gai_nodes, 0xDB, sizeof gai_nodes); memset(gai_sa, 0xDB, sizeof gai_sa); }
int env_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t l)
{
    const struct timeval *tv = v; (void)l;
    if (!fd_ok(fd, "setsockopt")) return -1;
    if (faulty("setsockopt")) { errno = E.fault_errno ? E.fault_errno : ENOPROTOOPT; return -1; }
    E.sockopt_n++;
    if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && (tv->tv_usec < 0 || tv->tv_usec >= 1000000)) { errno = EDOM; return -1; }
    if (lvl == SOL_SOCKET && opt == SO_RCVTIMEO) { E.saw_rcv = 1; E.rcvtimeo_us = tv->tv_sec * 1000000L + tv->tv_usec; }
    if (lvl == SOL_SOCKET && opt == SO_SNDTIMEO) { E.saw_snd = 1; E.sndtimeo_us = tv->tv_sec * 1000000L + tv->tv_usec; }
    return 0;
}
int env_fcntl(int fd, int cmd, ...)
{
    va_list ap; int v; va_start(ap, cmd); v = va_arg(ap, int); va_end(ap);
    if (!fd_ok(fd, "fcntl")) return -1;
    if (cmd == F_GETFL) return E.fd_fl[fd - FDBASE];
    if (cmd == F_SETFL) E.fd_fl[fd - FDBASE] = v;
    return 0;
}
int env_ioctl(int fd, unsigned long r, ...) { (void)r; if (!fd_ok(fd, "ioctl")) return -1; return 0; }

static void rx_brk(void) { if (E.brk_n && E.brk[E.brk_n - 1] == E.rxlog_n) return; if (E.brk_n < 4096) E.brk[E.brk_n++] = E.rxlog_n; else E.rxlog_over = 1; }
ssize_t env_read(int fd, void *buf, size_t n)
{
    int avail = 0, i, k;
    mc_cur->beat++;
    if (!fd_ok(fd, "read")) return -1;
    if (++E.reads > E.read_budget) mc_fail("endless reception: more than %d reads in one case", E.read_budget);
    if (n == 0) return 0;
    if (E.rx_fd >= 0 && E.rx_fd != fd) { E.cross++; if (E.fd_kind[fd - FDBASE] == 1) return 0; errno = EAGAIN; rx_brk(); return -1; }
    if (E.rx_h == E.rx_t) {
        E.silences++;
        if (E.fd_kind[fd - FDBASE] == 1) return 0;
        errno = EAGAIN; rx_brk(); return -1;
    }
    switch (E.rx[E.rx_h].kind) {
    case RX_SILENCE: E.rx_h++; E.silences++; if (E.fd_kind[fd - FDBASE] == 1) return 0; errno = EAGAIN; rx_brk(); return -1;
    case RX_EINTR: E.rx_h++; errno = EINTR; if (E.fd_kind[fd - FDBASE] == 1) rx_brk(); return -1;
    case RX_EAGAIN: E.rx_h++; errno = EAGAIN; rx_brk(); return -1;
    case RX_EOF: if (E.fd_kind[fd - FDBASE] != 1) rx_brk(); return 0;      /* sticky */
    case RX_ERR: E.rx_h++; errno = EIO; rx_brk(); return -1;
    }
    for (i = E.rx_h; i < E.rx_t && E.rx[i].kind == RX_BYTE && avail < (int)n; i++) avail++;
    if (avail < (int)n && (int)n - avail > E.max_over) E.max_over = n - avail;
    k = avail;
    if (E.chunk) { k = E.chunk(avail, (int)n); if (k < 1) k = 1; if (k > avail) k = avail; }
    for (i = 0; i < k; i++) { if (E.rxlog_n < RXMAX) E.rxlog[E.rxlog_n++] = E.rx[E.rx_h].byte; else E.rxlog_over = 1; ((uint8_t *)buf)[i] = E.rx[E.rx_h++].byte; }
    return k;
}
ssize_t env_recv(int fd, void *b, size_t n, int fl) { (void)fl; return env_read(fd, b, n); }
ssize_t env_write(int fd, const void *b, size_t n)
{
    int o = W_FULL, k;
    mc_cur->beat++;
    if (!fd_ok(fd, "write")) return -1;
    if (E.write_outcome) o = E.write_outcome((int)n);
    if (o == W_ERR) { errno = EIO; return -1; }
    if (o == W_EINTR) { errno = EINTR; return -1; }
    if (o == W_EAGAIN) { errno = EAGAIN; return -1; }
    k = o == W_FULL || o > (int)n ? (int)n : o;
    if (E.tx_cnt >= 4096 || E.tx_n + k > RXMAX) mc_fail("endless transmission: more than %d telegrams written in one case", E.tx_cnt);
    E.w_fd = fd; E.tx_cut[E.tx_cnt] = k < (int)n; E.tx_ofs[E.tx_cnt++] = E.tx_n; memcpy(E.tx + E.tx_n, b, k); E.tx_n += k;
    if (E.on_write) E.on_write(b, k);
    return k;
}
ssize_t env_send(int fd, const void *b, size_t n, int fl) { (void)fl; return env_write(fd, b, n); }
int env_poll(struct pollfd *p, nfds_t n, int to)
{
    nfds_t i; int r = 0; (void)to; mc_cur->beat++;
    if (++E.reads > E.read_budget) mc_fail("endless waiting");
    for (i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; if (!fd_ok(p[i].fd, "poll")) { p[i].revents = POLLNVAL; r++; continue; }
        if ((p[i].events & POLLIN) && E.rx_h < E.rx_t && E.rx[E.rx_h].kind != RX_SILENCE && E.rx[E.rx_h].kind != RX_EAGAIN) p[i].revents |= POLLIN;
        if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
        if (p[i].revents) r++; }
    if (!r && E.rx_h < E.rx_t) E.rx_h++;
    return r;
}
int env_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    int c = 0, fd; (void)tv; (void)x; mc_cur->beat++;
    if (++E.reads > E.read_budget) mc_fail("endless waiting");
    for (fd = 0; fd < n; fd++) {
        if (r && FD_ISSET(fd, r)) { if (E.rx_h < E.rx_t && E.rx[E.rx_h].kind != RX_SILENCE && E.rx[E.rx_h].kind != RX_EAGAIN) c++; else FD_CLR(fd, r); }
        if (w && FD_ISSET(fd, w)) c++;
    }
    if (!c && E.rx_h < E.rx_t) E.rx_h++;
    return c;
}
time_t env_time(time_t *t) { time_t v = E.now ? E.now : 1000000000; if (t) *t = v; return v; }
int env_usleep(unsigned u) { (void)u; return 0; }
unsigned env_sleep(unsigned u) { (void)u; return 0; }
int env_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return 0; }

/* ---- allocation ---- */
#define LT (1 << 17)
static struct { void *p; size_t n; int used; } lt[LT]; static int lt_touched[LT], lt_nt;
static void lt_add(void *p, size_t n) { uint64_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL; int i = h >> 47; while (lt[i].used && lt[i].p != p) i = (i + 1) & (LT - 1); if (!lt[i].used) { if (lt_nt > LT / 2) mc_fail("more than %d allocations outstanding in one case", lt_nt); lt_touched[lt_nt++] = i; lt[i].used = 1; } lt[i].p = p; lt[i].n = n ? n : 1; }
static int lt_find(void *p) { uint64_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL; int i = h >> 47; while (lt[i].used) { if (lt[i].p == p) return lt[i].n ? i : -1; i = (i + 1) & (LT - 1); } return -1; }
void mem_begin(int fill) { while (lt_nt) { int i = lt_touched[--lt_nt]; lt[i].used = 0; lt[i].p = 0; lt[i].n = 0; } memset(&M, 0, sizeof M); M.fill = fill; M.on = 1; M.fail_at = -1; M.fail_from = -1; }
long mem_live(void) { return M.live; }
const char *mem_describe(void) { static char b[256]; int i, n = 0, k = 0; b[0] = 0; for (i = 0; i < lt_nt && k < 6; i++) if (lt[lt_touched[i]].n) { n += snprintf(b + n, sizeof b - n, "%s%zu bytes", k ? ", " : "", lt[lt_touched[i]].n); k++; } return b; }
int mem_is_live(const void *p) { return lt_find((void *)p) >= 0; }
static int deny(void) { if (!M.on) return 0; M.count++; if (M.count == M.fail_at || M.count == M.fail_at2 || (M.fail_from > 0 && M.count >= M.fail_from)) { M.failed++; errno = ENOMEM; return 1; } return 0; }
static void got(void *p, size_t n) { if (M.on && p) { lt_add(p, n); M.live++; } }
static void drop(void *p) { int i; if (!p || !M.on) return; i = lt_find(p); if (i >= 0) { lt[i].n = 0; M.live--; } else M.bad_free++; }
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define FRESH(p, n) __msan_allocated_memory(p, n)
#else
#define FRESH(p, n) memset(p, M.on ? M.fill : 0xA5, n)
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define NOBYTES(p) ASAN_POISON_MEMORY_REGION(p, 1)       /* the sanitizer hands out one usable byte for a size of 0 */
#else
#define NOBYTES(p) ((void)0)
#endif
void *env_malloc(size_t n) { void *p; if (deny()) return NULL; p = malloc(n); if (p) FRESH(p, n); if (p && !n) NOBYTES(p); got(p, n); return p; }
void *env_calloc(size_t a, size_t b) { void *p; if (deny()) return NULL; p = calloc(a, b); got(p, a * b); return p; }
void env_free(void *p) { drop(p); free(p); }
void *env_realloc(void *o, size_t n)
{
    void *p; size_t old = 0; int i;
    if (deny()) return NULL;
    if (o && M.on) { i = lt_find(o); if (i >= 0) old = lt[i].n; }
    p = malloc(n ? n : 1); if (!p) return NULL; FRESH(p, n ? n : 1);      /* always moves */
    if (o) { if (!(M.on) || !old) { p = (free(p), realloc(o, n)); got(p, n); return p; } memcpy(p, o, old < n ? old : n); }
    drop(o); free(o); got(p, n); return p;
}
void *env_reallocarray(void *o, size_t a, size_t b) { return env_realloc(o, a * b); }
char *env_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = env_malloc(n); if (p) memcpy(p, s, n); return p; }
char *env_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = env_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int env_vasprintf(char **o, const char *f, va_list ap) { va_list a2; int n; va_copy(a2, ap); n = vsnprintf(NULL, 0, f, a2); va_end(a2); if (n < 0) return -1; *o = env_malloc(n + 1); if (!*o) return -1; return vsnprintf(*o, n + 1, f, ap); }
int env_asprintf(char **o, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = env_vasprintf(o, f, ap); va_end(ap); return r; }
