/* P26: options accept exactly their documented values and take effect on what they name only. */
#include "util.h"
static int cnt(const uint8_t *m, int n) { return 0; }
typedef struct { int data, search, purge; } model;
static int model_set(model *m, int o, long v)
{
    if (o == MBUS_OPTION_MAX_DATA_RETRY && v >= 0 && v <= 9) { m->data = v; return 0; }
    if (o == MBUS_OPTION_MAX_SEARCH_RETRY && v >= 0 && v <= 9) { m->search = v; return 0; }
    if (o == MBUS_OPTION_PURGE_FIRST_FRAME && v >= 0 && v <= 2) { m->purge = v; return 0; }
    return -1;
}
static void observe(mbus_handle *h, const model *m)
{
    mbus_frame f; int n, r; char addr[32]; uint8_t a[16], e[64]; int x, y;
    memset(&f, 0, sizeof f);
    n = E.tx_cnt; r = mbus_sendrecv_request(h, 1, &f, 1);
    MC_CHECK(r != 0 && E.tx_cnt - n == m->data + 1, "silent meter requested %d times (retry limit %d), result %d", E.tx_cnt - n, m->data, r);
    n = E.tx_cnt; r = mbus_probe_secondary_address(h, "12345678FFFFFFFF", addr);
    MC_CHECK(r == MBUS_PROBE_NOTHING && E.tx_cnt - n == m->search + 1, "silent address probed %d times (retry limit %d), result %d", E.tx_cnt - n, m->search, r);
    x = mk_short(a, 0x5B, 1); y = 1;
    env_clear_rx(); rx_bytes(a, x); rx_bytes("\xE5", 1);                 /* own request first, then the answer */
    r = mbus_recv_frame(h, &f); MC_CHECK(r == 0 && f.type == (m->purge == 1 ? RT_ACK : RT_SHORT), "purge option %d: master telegram %s", m->purge, f.type == RT_SHORT ? "delivered" : "removed");
    env_clear_rx(); rx_bytes("\xE5", 1); rx_bytes(a, x);
    r = mbus_recv_frame(h, &f); MC_CHECK(r == 0 && f.type == (m->purge == 2 ? RT_SHORT : RT_ACK), "purge option %d: slave telegram %s", m->purge, f.type == RT_ACK ? "delivered" : "removed");
    env_clear_rx();
    /* nothing else depends on any option: every other command, and the removal of what is left on the line */
    { uint8_t d[300]; int k; mbus_address ad;
#define SENT(call, n, what) E.tx_n = E.tx_cnt = 0; x = (n); r = call; MC_CHECK(r == 0 && E.tx_cnt == 1 && E.tx_n == x && !memcmp(E.tx, e, x), "%s under options %d %d %d: result %d, transmitted %s", what, m->data, m->search, m->purge, r, mc_hex(E.tx, E.tx_n))
      for (k = 0; k < 4; k++) rx_bytes(k == 1 ? "\x55" : "\xE5", 1); rx_bytes(a, 5);
      SENT(mbus_send_ping_frame(h, 9, 1), mk_short(e, 0x40, 9), "ping"); MC_CHECK(rx_left() == 0, "ping under options %d %d %d leaves %d bytes", m->data, m->search, m->purge, rx_left());
      d[0] = 0x70; SENT(mbus_send_application_reset_frame(h, 2, 0x70), mk_long(e, 0x53, 2, 0x50, d, 1), "application reset");
      SENT(mbus_send_switch_baudrate_frame(h, 3, 4800), mk_long(e, 0x53, 3, 0xBC, d, 0), "switch baud rate");
      memcpy(d, "\x01\x7A\x09", 3); SENT(mbus_set_primary_address(h, 4, 9), mk_long(e, 0x53, 4, 0x51, d, 3), "set primary address"); SENT(mbus_send_user_data_frame(h, 4, d, 3), mk_long(e, 0x53, 4, 0x51, d, 3), "user data");
      memset(d, 0xFF, 8); SENT(mbus_send_select_frame(h, "FFFFFFFFFFFFFFFF"), mk_long(e, 0x73, 0xFD, 0x52, d, 8), "select"); env_clear_rx();
      /* a silent meter is asked once by the functions that have no retries */
      E.tx_n = E.tx_cnt = 0; r = mbus_select_secondary_address(h, "12345678FFFFFFFF"); MC_CHECK(r == MBUS_PROBE_NOTHING && E.tx_cnt == 1, "selecting transmits %d times, result %d", E.tx_cnt, r); env_clear_rx();
      E.tx_n = E.tx_cnt = 0; memset(&ad, 0, sizeof ad); ad.is_primary = 1; ad.primary = 6; r = mbus_read_slave(h, &ad, &f); MC_CHECK(r != 0 && E.tx_cnt == 1, "reading transmits %d times, result %d", E.tx_cnt, r); env_clear_rx();
    }
    mc_trans(13);
}
static const long val[] = { 0, 1, 2, 3, 9, 10, -1, 4, 5, 6, 7, 8, 11, 12, -2, 255, 256, 257, 512, 65536, 65537, -256, -255, 1L << 32, (1L << 32) + 1, -(1L << 32) + 2, 9223372036854775807L, -9223372036854775807L - 1, 2147483647L, -2147483648L };
#define NV ((int)(sizeof val / sizeof *val))
static const char *modes[] = { "while connected", "before connecting", "then reconnected", "reconnected in between" };
/* connecting leaves the options alone */
static void again(mbus_handle *h) { MC_CHECK(mbus_connect(h) == 0, "reconnecting failed"); }
static void run(int tcp, int n, const int *o, const int *v, int mode)
{
    model m = { 3, 1, 1 }; mbus_handle *h; int i, d[8] = { tcp + 2 * mode, n };
    for (i = 0; i < n; i++) { d[2 + 2 * i] = o[i]; d[3 + 2 * i] = v[i]; }
    mc_input(d, sizeof d); mc_note("%s: %d settings %s, first option %d value %ld, last option %d value %ld", tcp ? "tcp" : "serial", n, modes[mode], n ? o[0] : 0, n ? val[v[0]] : 0, n ? o[n - 1] : 0, n ? val[v[n - 1]] : 0);
    h = line_open(tcp, -1); if (mode == 1) mbus_disconnect(h);
    for (i = 0; i < n; i++) { if (mode == 3 && i == n - 1) { mbus_disconnect(h); again(h); } int e = model_set(&m, o[i], val[v[i]]), r = mbus_context_set_option(h, o[i], val[v[i]]); MC_CHECK((r == 0) == (e == 0), "option %d value %ld %s", o[i], val[v[i]], r ? "refused" : "accepted"); }
    if (mode == 2) mbus_disconnect(h); if (mode == 1 || mode == 2) again(h);
    observe(h, &m); mc_state(&m, sizeof m); mc_trace(1); line_close(h);
}
/* two connections with options of their own: settings made on either, then both are observed */
static void pair(int t0, int t1, int n, const int *w, const int *o, const int *v, int mode)
{
    model m[2] = { { 3, 1, 1 }, { 3, 1, 1 } }; mbus_handle *h[2]; int i, d[13] = { t0, t1, n, mode }; for (i = 0; i < n; i++) { d[4 + 3 * i] = w[i]; d[5 + 3 * i] = o[i]; d[6 + 3 * i] = v[i]; }
    mc_input(d, sizeof d); mc_note("%s and %s: %d settings", t0 ? "tcp" : "serial", t1 ? "tcp" : "serial", n);
    h[0] = line_open(t0, -1); h[1] = NULL;
    for (i = 0; i <= n; i++) {
        int e, r;
        if (!h[1] && (i == n || w[i] || mode == 0)) { h[1] = t1 ? mbus_context_tcp("other", 8001) : mbus_context_serial("/dev/other"); if (!h[1] || mbus_connect(h[1])) mc_fail("no second connection"); }   /* created when first needed */
        if (i == n) break;
        e = model_set(&m[w[i]], o[i], val[v[i]]); r = mbus_context_set_option(h[w[i]], o[i], val[v[i]]); MC_CHECK((r == 0) == (e == 0), "option %d value %ld %s", o[i], val[v[i]], r ? "refused" : "accepted");
    }
    observe(h[mode & 1], &m[mode & 1]); env_clear_rx(); observe(h[!(mode & 1)], &m[!(mode & 1)]); env_clear_rx(); observe(h[mode & 1], &m[mode & 1]); mc_state(m, sizeof m); mc_trace(1);
    mbus_disconnect(h[1]); mbus_context_free(h[1]); line_close(h[0]);
}
void mc_main(void)
{
    int tcp, o[3], v[3], k;
    for (tcp = 0; tcp < 2; tcp++) {
        mc_section("defaults"); for (k = 0; k < 3; k++) if (mc_case()) run(tcp, 0, o, v, k);
        mc_section("one setting"); for (o[0] = -2; o[0] < 8; o[0]++) for (v[0] = 0; v[0] < NV; v[0]++) for (k = 0; k < 3; k++) if (mc_case()) run(tcp, 1, o, v, k);
        mc_section("two settings"); for (o[0] = -1; o[0] < 4; o[0]++) for (v[0] = 0; v[0] < NV; v[0]++) for (o[1] = -1; o[1] < 4; o[1]++) for (v[1] = 0; v[1] < NV; v[1]++) for (k = 0; k < 4; k++) if (mc_case()) run(tcp, 2, o, v, k);
        mc_section("three settings"); for (o[0] = 0; o[0] < 3; o[0]++) for (v[0] = 0; v[0] < (mc_thorough ? NV : 8); v[0]++) for (o[1] = 0; o[1] < 3; o[1]++) for (v[1] = 0; v[1] < (mc_thorough ? NV : 8); v[1]++) for (o[2] = 0; o[2] < 3; o[2]++) for (v[2] = 0; v[2] < (mc_thorough ? NV : 8); v[2]++) if (mc_case()) run(tcp, 3, o, v, (v[0] + v[1] + v[2]) & 3);
    }
    mc_section("two connections");
    { static const int pv[] = { 0, 1, 2, 5, 4 }; int w[3], vv[3], t1, x, total;     /* val[pv] = 0, 1, 2, 10 (refused or not), 9 */
      for (k = 1; k <= (mc_thorough ? 3 : 2); k++) { for (total = 1, x = 0; x < k; x++) total *= 30;
        for (tcp = 0; tcp < 2; tcp++) for (t1 = 0; t1 < 2; t1++) { int q, md; for (q = 0; q < total; q++) for (md = 0; md < 4; md++) if (mc_case()) { int y = q; for (x = 0; x < k; x++) { w[x] = y % 2; y /= 2; o[x] = y % 3; y /= 3; vv[x] = pv[y % 5]; y /= 5; } pair(tcp, t1, k, w, o, vv, md); } } } }
    mc_section("no connection"); if (mc_case()) { mc_input("n", 1); MC_CHECK(mbus_context_set_option(NULL, 0, 1) != 0, "option set on nothing"); }
}
