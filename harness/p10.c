/* P10: multi-telegram readout - every answer history of a simulated meter against a reference master. */
#include "util.h"
enum { A_MORE, A_LAST, A_SILENT, A_BADSUM, A_TRUNC, A_ACK, A_FIXED, A_ERRTEL, A_CTRL, A_CUT, A_MORE_X, A_M2S, A_GARBAGE, A_EIO, A_EOF, A_EMBED, A_ECHO, A_MORE_XX, A_BAD_X, NA };
static const char *an[NA] = { "more", "last", "silence", "bad checksum", "truncated", "ack", "fixed", "error telegram", "control", "cut record", "more+extra", "last(m2s)", "garbage", "EIO", "EOF", "last(1F in data)", "echo+more", "more+4 extra", "bad checksum+2 extra" };
static struct { int addr, maxf, retr, depth, force, pieces, recs; } C;
static void pieces(void) { uint8_t t[8]; int i, n = mk_short(t, 0x08, 3); for (i = 0; i < C.pieces; i++) { rx_bytes("\xE5", 1); if (i % 3 == 1) rx_bytes("\x33", 1); if (i % 3 == 2) rx_bytes(t, n); } }
static struct { int fcb, acc, retry, done, ret, meter_idx, meter_fcb, sends; rframe chain[400]; time_t when[400]; } M_;
static char hist[600]; static int ho;
/* the reference master */
static void finish(int ret) { M_.done = 1; M_.ret = ret; }
static void fail_retry(void) { if (++M_.retry > C.retr) finish(1); }
static int tel(uint8_t *o, int kind, int idx)
{
    uint8_t d[300]; int n = 0;
    if (kind == A_FIXED) { uint8_t x[16] = { 1, 2, 3, 4, idx, 0, 0x29, 0x29, idx, 0, 0, 0, 5, 0, 0, 0 }; return mk_long(o, 0x08, 5, 0x73, x, 16); }
    if (kind == A_ERRTEL) { d[0] = 3; return mk_long(o, 0x08, 5, 0x70, d, 1); }
    if (kind == A_CTRL) return mk_long(o, 0x08, 5, 0x72, d, 0);
    { static const uint8_t h[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0, 0, 0, 0 }; memcpy(d, h, 12); n = 12; d[8] = idx; }
    d[n++] = 0x01; d[n++] = 0x13; d[n++] = idx; if (C.recs) { int i; for (i = 0; i < C.recs; i++) { d[n++] = 0x00; d[n++] = 0x13; } }
    if (kind == A_EMBED) { d[n++] = 0x02; d[n++] = 0x13; d[n++] = 0x1F; d[n++] = 0x1F; }
    if (kind == A_CUT) { d[n++] = 0x04; d[n++] = 0x13; d[n++] = 0x1F; }
    if (kind == A_MORE || kind == A_MORE_X || kind == A_MORE_XX || kind == A_BAD_X || kind == A_BADSUM || kind == A_TRUNC) { d[n++] = 0x1F; if (idx & 1) { d[n++] = 0xAA; d[n++] = idx; } }
    return mk_long(o, kind == A_M2S ? 0x53 : 0x08, 5, 0x72, d, n);
}
static int wout(int len) { (void)len; int k; if (M_.done) return W_FULL; if (C.force == 2 || !mc_choose_dev(2)) return W_FULL; MC_CHECK(!M_.done, "transmission after the readout was over (%s)", hist); ho += sprintf(hist + ho, " send-failure"); mc_trans(1); k = 1; M_.done = 1; M_.ret = -1; return k ? W_ERR : 0; }
static void request(const uint8_t *b, int n)
{
    uint8_t e[8], t[300]; int k, m, en = mk_short(e, 0x5B | (M_.fcb ? 0x20 : 0), C.addr), idx;
    MC_CHECK(!M_.done, "transmission after the readout was over (%s)", hist);
    MC_CHECK(n == en && !memcmp(b, e, n), "request %d is %s, expected %s (%s)", M_.sends, mc_hex(b, n), mc_hex(e, en), hist);
    M_.sends++; E.now += 61;
    /* the meter: a toggled frame count bit asks for the next telegram, an equal one for a repetition */
    if (M_.meter_fcb != !!(b[1] & 0x20)) { if (M_.meter_fcb >= 0) M_.meter_idx++; M_.meter_fcb = !!(b[1] & 0x20); }
    idx = M_.meter_idx;
    if (M_.sends >= C.depth) k = A_LAST; else k = C.force == 2 && (M_.sends % 128 > 3 && M_.sends % 128 < 125) ? A_MORE : C.force ? mc_choose_dev(NA) : mc_choose(NA);
    if (!E.tcp && k == A_EOF) k = A_SILENT;
    if (ho < 500) ho += sprintf(hist + ho, " %s", an[k]);
    { int st[5] = { M_.fcb, M_.retry, M_.acc, k, C.retr }; mc_state(st, sizeof st); } mc_trans(1);
    switch (k) {
    case A_SILENT: fail_retry(); return;
    case A_EIO: rx_event(RX_ERR); finish(1); return;
    case A_EOF: rx_event(RX_EOF); finish(1); return;
    case A_GARBAGE: rx_bytes("\x55\x55", 2); fail_retry(); return;
    case A_ACK: rx_bytes("\xE5", 1); finish(1); return;
    case A_BADSUM: m = tel(t, k, idx); t[m - 2] ^= 0x10; rx_bytes(t, m); fail_retry(); return;
    case A_BAD_X: m = tel(t, k, idx); t[m - 2] ^= 0x10; rx_bytes(t, m); rx_bytes("\xE5", 1); pieces(); m = tel(t, A_LAST, 78); rx_bytes(t, m); fail_retry(); return;
    case A_TRUNC: m = tel(t, k, idx); rx_bytes(t, m - 3); rx_event(RX_SILENCE); if (E.tcp) { M_.retry++; if (M_.retry > C.retr) finish(1); } else fail_retry(); return;
    case A_ECHO: rx_bytes(b, n); k = A_MORE; break;
    case A_M2S: m = tel(t, k, idx); rx_bytes(t, m); fail_retry(); return;      /* taken for an echo: nothing else arrives */
    default: break;
    }
    m = tel(t, k, idx); rx_bytes(t, m);
    { int need, loose; rframe f; if (ref_parse(t, m, &f, &need, &loose)) mc_fail("harness telegram"); if (M_.acc < 400) { M_.chain[M_.acc] = f; M_.when[M_.acc] = E.now; } }
    if (k == A_MORE_X) { m = tel(t, A_LAST, 77); rx_bytes(t, m); k = A_MORE; }
    if (k == A_MORE_XX) { m = tel(t, A_LAST, 77); rx_bytes(t, m); rx_bytes("\xE5\x33", 2); pieces(); rx_bytes(t, m); rx_bytes("\x68", 1); if (!E.tcp) rx_event(RX_SILENCE); k = A_MORE; }
    M_.acc++; M_.retry = 0;
    if (k == A_CTRL || k == A_CUT) { finish(1); return; }
    if (k == A_FIXED || k == A_ERRTEL || k == A_LAST || k == A_EMBED) { finish(0); return; }
    if (C.maxf && M_.acc >= C.maxf) { finish(0); return; }
    M_.fcb = !M_.fcb;
}
static int again;                              /* a second readout on the same connection follows */
static void readout(mbus_handle *h, int fill)
{
    mbus_frame reply, *f; int r, i;
    memset(&M_, 0, sizeof M_); M_.fcb = 1; M_.meter_fcb = -1; env_clear_rx(); E.reads = 0;
    if (mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, C.retr)) mc_fail("retry option refused");
    E.on_write = request; E.write_outcome = wout; E.read_budget = 100000; frame_fill(&reply, fill); reply.next = NULL;
    r = mbus_sendrecv_request(h, C.addr, &reply, C.maxf);
    MC_CHECK(M_.done, "gave up too early, result %d (%s)", r, hist);
    MC_CHECK((r == 0) == (M_.ret == 0), "result %d, expected %s (%s)", r, M_.ret ? "failure" : "success", hist);
    if (M_.ret == 1 && !strstr(hist, "EIO") && !strstr(hist, "EOF")) { int q, stray = 0; for (q = E.rx_h; q < E.rx_t; q++) stray += E.rx[q].kind == RX_BYTE; MC_CHECK(!stray, "%d bytes of a refused answer are left on the line for the next exchange (%s)", stray, hist); }
    if (M_.ret == 0) {
        MC_CHECK(E.rx_h == E.rx_t, "%d stray line items left after the readout (%s)", E.rx_t - E.rx_h, hist);
        for (i = 0, f = &reply; f; f = f->next, i++) { MC_CHECK(i < M_.acc, "more telegrams collected than received (%s)", hist); if (i < 400) { MC_CHECK(frame_is(f, &M_.chain[i]), "telegram %d of the chain is not the one received (%s)", i, hist); MC_CHECK(f->timestamp == M_.when[i], "telegram %d bears the time %ld, it was received at %ld (%s)", i, (long)f->timestamp, (long)M_.when[i], hist); } }
        MC_CHECK(i == M_.acc, "%d telegrams collected, %d received (%s)", i, M_.acc, hist);
    }
    if (reply.next) mbus_frame_free(reply.next);
    mc_outcome("%s %d telegrams", M_.ret == 0 ? "success" : M_.ret < 0 ? "send failure" : "failure", M_.acc > 20 ? 99 : M_.acc); mc_trace(1);
}
static void once(int tcp, int fill)
{
    mbus_handle *h = line_open(tcp, -1); int keep_addr = C.addr, keep_max = C.maxf, keep_retr = C.retr, keep_force = C.force, keep_depth = C.depth;
    ho = 0; hist[0] = 0; readout(h, fill);
    if (again) { ho += sprintf(hist + ho, " |"); C.force = 1; C.depth = 3; if (again & 1) C.addr ^= 1; if (again & 2) C.maxf = C.maxf ? 0 : 2; if (again & 4) C.retr = (C.retr + 2) % 4; if (again & 8 && (mbus_disconnect(h) || mbus_connect(h))) mc_fail("reconnecting failed"); readout(h, fill ^ 0xFF); }
    C.addr = keep_addr; C.maxf = keep_max; C.retr = keep_retr; C.force = keep_force; C.depth = keep_depth; line_close(h);
}
static void space(int tcp, int addr, int maxf, int retr, int depth, int force, int devs, int fill)
{
    int d[10] = { tcp, addr, maxf, retr, depth, force, devs, fill, C.pieces, C.recs | again << 16 };
    mc_input(d, sizeof d); C.addr = addr; C.maxf = maxf; C.retr = retr; C.depth = depth; C.force = force;
    mc_explore_begin(devs);
    while (mc_explore_next()) { mc_note("%s address %d max %d retries %d fill %02x:%s", tcp ? "tcp" : "serial", addr, maxf, retr, fill, hist); once(tcp, fill); mc_eval(1); }
}
void mc_main(void)
{
    static const int mf[] = { 0, 1, 2, 3, 16 }, rt[] = { 0, 1, 2, 3, 9 }, ad[] = { 0, 1, 250, 253, 254, 255 }; int tcp, i, j, a;
    mc_section("every answer history to a fixed depth");
    for (tcp = 0; tcp < 2; tcp++) for (i = 0; i < 4; i++) for (j = 0; j < 5; j++) if (mc_case()) space(tcp, 5, mf[i], rt[j], mc_thorough ? 5 : 4, 0, 1, i + j & 1 ? 0 : 0x08);
    mc_section("two readouts on one connection");
    for (tcp = 0; tcp < 2; tcp++) for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) for (a = 16; a < 32; a++) if (mc_case()) { again = a; space(tcp, j == 1 ? 253 : 5, mf[i], rt[j], 3, mc_thorough ? 0 : 1, mc_thorough ? 1 : 2, a & 1 ? 0x08 : 0); again = 0; }
    mc_section("long readouts with few departures");
    for (tcp = 0; tcp < 2; tcp++) for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) if (mc_case()) { space(tcp, 7, mf[i], rt[j], mc_thorough ? 40 : 20, 1, 2, 0x5A); if (mc_thorough) space(tcp, 7, mf[i], rt[j], 14, 1, 3, 0x5A); }
    mc_section("telegrams with many records");
    for (tcp = 0; tcp < 2; tcp++) for (i = 1; i < 114; i++) if (mc_case()) { C.recs = i; space(tcp, 5, 0, 2, 4, 1, 1, 0); C.recs = 0; }
    mc_section("very long readouts");
    for (tcp = 0; tcp < 2; tcp++) for (i = 0; i < 10; i++) for (j = 0; j < 2; j++) if (mc_case()) { static const int m[] = { 0, 127, 128, 129, 255, 256, 257, 300, 320, 65536 }; space(tcp, 5, m[i], 1, 320, 2, j, 0); }
    mc_section("an answer torn into many pieces");
    for (tcp = 0; tcp < 2; tcp++) for (i = 1; i < 400; i += i < 40 ? 1 : i / 8) if (mc_case()) { C.pieces = i; space(tcp, 5, 0, 2, 4, 1, 1, 0); C.pieces = 0; }
    mc_section("addresses");
    for (tcp = 0; tcp < 2; tcp++) for (a = 0; a < 256; a++) if (mc_case()) space(tcp, a, 2, 1, 3, 1, 1, 0);
    (void)ad;
    for (tcp = 0; tcp < 2; tcp++) for (a = -300; a < 600; a++) if ((a < 0 || a > 255) && mc_case()) { mbus_handle *h = line_open(tcp, -1); mbus_frame f; int r; mc_input(&a, 4); memset(&f, 0, sizeof f); r = mbus_sendrecv_request(h, a, &f, 0); MC_CHECK(r != 0 && E.tx_cnt == 0, "address %d: result %d, %d transmissions", a, r, E.tx_cnt); line_close(h); }
    if (mc_case()) { mbus_frame f; mc_input("n", 1); memset(&f, 0, sizeof f); MC_CHECK(mbus_sendrecv_request(NULL, 1, &f, 0) != 0, "readout without a connection succeeded"); }
}
