#define _GNU_SOURCE
#include "util.h"
#include <sys/mman.h>
#define PG 4096
static uint8_t *gp[8];
static uint8_t *page(int s)
{
    if (!gp[s]) {
        uint8_t *m = mmap(0, 18 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(m + 17 * PG, PG, PROT_NONE); gp[s] = m + 17 * PG;
    }
    return gp[s];
}
uint8_t *guard_copy(int s, const void *b, size_t n) { uint8_t *e = page(s) - n; memcpy(e, b, n); return e; }
uint8_t *guard_buf(int s, size_t n) { uint8_t *e = page(s) - n; memset(e, 0xA7, n); memset(e - 64, 0xC3, 64); return e; }
int guard_canary_ok(int s, size_t n) { uint8_t *e = page(s) - n; int i; for (i = 1; i <= 64; i++) if (e[-i] != 0xC3) return 0; return 1; }
void frame_fill(mbus_frame *f, int fill) { memset(f, fill, sizeof *f); }
int mk_long(uint8_t *o, int c, int a, int ci, const uint8_t *d, int n) { rframe f; f.type = n ? RT_LONG : RT_CONTROL; f.c = c; f.a = a; f.ci = ci; f.n = n; memcpy(f.d, d, n); return ref_pack(&f, o); }
int mk_short(uint8_t *o, int c, int a) { rframe f; f.type = RT_SHORT; f.c = c; f.a = a; return ref_pack(&f, o); }
void pat(uint8_t *d, int n, int kind)
{
    int i; static const uint8_t sp[8] = { 0x16, 0x68, 0xE5, 0x10, 0x00, 0xFF, 0x68, 0x16 };
    for (i = 0; i < n; i++) switch (kind) {
        case 0: d[i] = i * 37 + 11; break;
        case 1: d[i] = sp[i & 7]; break;
        case 2: d[i] = 0; break;
        case 3: d[i] = 0xFF; break;
        default: d[i] = (i * i + kind * 29 + (i >> 3)) & 0xFF; }
}
int parse_fresh(mbus_frame *f, const uint8_t *b, int n, int fill)
{
    frame_fill(f, fill);
    return mbus_parse(f, guard_copy(0, b, n), n);
}
uint8_t ev_rx[65536], ev_tx[65536]; int ev_rx_n, ev_tx_n, ev_rx_calls, ev_tx_calls, ev_type_bad;
static int cur_tcp;
static void on_rx(unsigned char t, const char *b, size_t n) { if (t != (cur_tcp ? MBUS_HANDLE_TYPE_TCP : MBUS_HANDLE_TYPE_SERIAL)) ev_type_bad++; ev_rx_calls++; if (ev_rx_n + n > sizeof ev_rx) mc_fail("receive event with %zu bytes", n); memcpy(ev_rx + ev_rx_n, b, n); ev_rx_n += n; }
static void on_tx(unsigned char t, const char *b, size_t n) { if (t != (cur_tcp ? MBUS_HANDLE_TYPE_TCP : MBUS_HANDLE_TYPE_SERIAL)) ev_type_bad++; ev_tx_calls++; if (ev_tx_n + n > sizeof ev_tx) mc_fail("send event with %zu bytes", n); memcpy(ev_tx + ev_tx_n, b, n); ev_tx_n += n; }
static void replaced(unsigned char t, const char *b, size_t n) { (void)t; (void)b; (void)n; mc_fail("event for a listener that was replaced"); }
void ev_reset(void) { ev_rx_n = ev_tx_n = ev_rx_calls = ev_tx_calls = ev_type_bad = 0; }
/* With LEAKS, what an exploration allocates while a line is open must be gone when it is closed, and nothing else is judged. */
#ifdef LEAKS
static int mem_ours;
__attribute__((constructor)) static void leaks_only(void) { mc_judged = "memory "; }
#endif
mbus_handle *line_open(int tcp, int purge)
{
    mbus_handle *h;
#ifdef LEAKS
    if (!M.on || mem_ours) { mem_begin(0xA5); mem_ours = 1; }        /* what is allocated from here on must be gone when the line is closed */
#endif
    env_reset(tcp); cur_tcp = tcp; ev_reset();
    h = tcp ? mbus_context_tcp("gateway", 8000) : mbus_context_serial("/dev/sim");
    if (!h) mc_fail("no context");
    if (mc_cur && mc_cur->idx % 4 == 1) { mbus_register_recv_event(h, replaced); mbus_register_send_event(h, replaced); }      /* a listener registered later takes its place */
    mbus_register_recv_event(h, on_rx); mbus_register_send_event(h, on_tx);
    if (purge >= 0 && mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, purge)) mc_fail("purge option refused");
    if (mbus_connect(h)) mc_fail("connecting failed");
    /* in a third of the cases on a connection that was opened before */
    if (mc_cur && mc_cur->idx % 3 == 2) { if (mbus_disconnect(h) || mbus_connect(h)) mc_fail("reconnecting failed"); }
    return h;
}
/* close and open again in a third of the cases: registered callbacks survive that */
void line_again(mbus_handle *h) { if (mc_cur->idx % 3 == 1 && (mbus_disconnect(h) || mbus_connect(h))) mc_fail("reconnecting failed"); }
void line_close(mbus_handle *h)
{
    mbus_disconnect(h); mbus_context_free(h);
#ifdef LEAKS
    if (mem_ours) { mem_ours = M.on = 0; MC_CHECK(mem_live() == 0, "memory not released: %s", mem_describe()); MC_CHECK(!M.bad_free, "memory released twice"); }
#endif
}
int frame_is(const mbus_frame *f, const rframe *r)
{
    if (f->type != r->type) return 0;
    if (r->type == RT_ACK) return 1;
    if (f->control != r->c || f->address != r->a) return 0;
    if (r->type == RT_SHORT) return 1;
    return f->control_information == r->ci && f->data_size == (size_t)r->n && !memcmp(f->data, r->d, r->n);
}
void ref_receive(int tcp, int it, rxref *o)
{
    mbus_frame f; int want = 1, got, zeros = 0, start = it, need, loose, k;
    memset(o, 0, sizeof *o);
    for (;;) {
        int kind = it < E.rx_t ? E.rx[it].kind : RX_SILENCE;
        if (kind != RX_BYTE) {
            if (kind != RX_EOF && it < E.rx_t) it++;
            if (tcp) {
                if (kind == RX_EINTR) continue;
                o->verdict = kind == RX_EOF ? MBUS_RECV_RESULT_RESET : kind == RX_ERR ? MBUS_RECV_RESULT_ERROR : MBUS_RECV_RESULT_TIMEOUT; break;
            }
            if (kind == RX_SILENCE || kind == RX_EOF) { if (o->n && ++zeros < 3) continue; o->verdict = o->n ? MBUS_RECV_RESULT_INVALID : MBUS_RECV_RESULT_TIMEOUT; break; }
            o->verdict = MBUS_RECV_RESULT_ERROR; break;
        }
        for (got = 0; got < want && it < E.rx_t && E.rx[it].kind == RX_BYTE; got++) o->bytes[o->n++] = E.rx[it++].byte;
        memset(&f, 0, sizeof f); k = mbus_parse(&f, o->bytes, o->n);
        if (k > 0) { want = k; continue; }
        if (k < 0) { o->verdict = MBUS_RECV_RESULT_INVALID; break; }
        if (ref_parse(o->bytes, o->n, &o->f, &need, &loose) != RV_OK) mc_fail("parser accepts what is not a telegram: %s", mc_hex(o->bytes, o->n));
        o->verdict = MBUS_RECV_RESULT_OK; break;
    }
    o->consumed_items = it - start;
}
