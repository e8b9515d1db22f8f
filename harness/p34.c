/* P34: reading a slave - every history of line answers. */
#include "sel.h"
static int second; static int tcp, prim, step, done, okexp; static const char *mask; static rframe want; static char hist[200]; static int ho, sel_ok, may_fail, may_ok;
static int wout(int len) { (void)len; MC_CHECK(!done, "transmission after the reading was over (%s)", hist); if (!mc_choose_dev(2)) return W_FULL; ho += sprintf(hist + ho, " send-failure"); done = 1; may_ok = 0; may_fail = 1; return W_ERR; }
static void want_rx(void) { rxref x; ref_receive(tcp, E.rx_h, &x); if (!x.verdict && x.f.type != RT_ACK && (x.f.c & 0x40)) { int u = x.consumed_items; ref_receive(tcp, E.rx_h + u, &x); } may_ok = x.verdict == 0; may_fail = !may_ok; want = x.f; done = 1; }
static void bus(const uint8_t *b, int n)
{
    uint8_t e[40]; int en, k, v;
    if (!prim && step == 0) { en = ref_select(e, mask); MC_CHECK(n == en && !memcmp(b, e, n), "first telegram is %s, expected the selection %s", mc_hex(b, n), mc_hex(e, en)); }
    else { en = mk_short(e, 0x5B, prim ? step == 0 ? (uint8_t)okexp : 0 : 0xFD); MC_CHECK(n == en && !memcmp(b, e, n), "request is %s, expected %s (%s)", mc_hex(b, n), mc_hex(e, en), hist); }
    E.now += 61; k = !second ? mc_choose(NS) : (mc_choose_dev(NS) + (!prim && step == 0 ? S_ACK : S_LONG)) % NS; ho += sprintf(hist + ho, " %s", sn[k]); mc_trans(1); { int st[5] = { tcp, prim, step, k, 0 }; mc_state(st, sizeof st); }
    put_answer(k, b, n);
    if (!prim && step == 0) {
        v = sel_verdict(tcp, k); step = 1; may_ok = 0; may_fail = 1;
        if (!(v & VS)) done = 1; else if (v != VS) may_fail = 1; else may_fail = 0;
        return; }
    MC_CHECK(prim ? step == 0 : step == 1, "more than one request (%s)", hist); step = 2;
    want_rx();
}
/* one reading on the connection */
static void one(mbus_handle *h, int t, int p, int addr, const char *m, int fill)
{
    mbus_address a; mbus_frame f; int r; char mb[40];
    tcp = t; prim = p; mask = m; step = done = 0; okexp = addr; may_ok = 0; may_fail = 1; sel_ok = 0; env_clear_rx(); E.tx_n = E.tx_cnt = 0;
    memset(&a, 0, sizeof a); a.is_primary = p; if (p) a.primary = addr; else { strcpy(mb, m); a.secondary = mb; }
    E.on_write = bus; E.write_outcome = wout; E.reads = 0; E.read_budget = 20000; frame_fill(&f, fill);
    r = mbus_read_slave(h, &a, &f);
    MC_CHECK(E.tx_cnt || done, "nothing transmitted, result %d (%s)", r, hist);
    MC_CHECK(r == 0 ? may_ok : may_fail, "result %d (%s)", r, hist);
    if (r == 0) { MC_CHECK(frame_is(&f, &want), "another telegram delivered (%s)", hist); MC_CHECK(f.timestamp == E.now, "the answer bears the time %ld, it was received at %ld (%s)", (long)f.timestamp, (long)E.now, hist); }
    mc_outcome("%s%s %s", second ? "second " : "", p ? "primary" : "secondary", r ? "failure" : "success");
}
static void space(int t, int p, int addr, const char *m)
{
    int d[3] = { t, p, addr }; char in[32]; memcpy(in, d, 12); memcpy(in + 12, p ? "################" : m, 16); mc_input(in, 28);
    mc_explore_begin(1);
    while (mc_explore_next()) {
        mbus_handle *h = line_open(t, -1);
        mc_note("%s %s: %s", t ? "tcp" : "serial", p ? "primary" : m, hist); ho = 0; hist[0] = 0; second = 0;
        one(h, t, p, addr, m, 0x08); mc_trace(1); mc_eval(1); line_close(h);
    }
}
/* two readings, one after the other on the same connection: the second depends on nothing of the first */
static void twice(int t, int p1, int a1, const char *m1, int p2, int a2, const char *m2, int between)
{
    int d[6] = { t, p1, a1, p2, a2, between }; char in[64]; memcpy(in, d, 24); memcpy(in + 24, m1, 16); memcpy(in + 40, m2, 16); mc_input(in, 56);
    mc_explore_begin(1);
    while (mc_explore_next()) {
        mbus_handle *h = line_open(t, -1);
        mc_note("%s %s then %s: %s", t ? "tcp" : "serial", p1 ? "primary" : m1, p2 ? "primary" : m2, hist); ho = 0; hist[0] = 0; second = 0;
        one(h, t, p1, a1, m1, 0x08);
        if (between && (mbus_disconnect(h) || mbus_connect(h))) mc_fail("reconnecting failed");
        ho += sprintf(hist + ho, " |"); second = 1; one(h, t, p2, a2, m2, 0xA5); second = 0;
        mc_trace(1); mc_eval(1); line_close(h);
    }
}
static void refuse(int t, int p, int addr, const char *m)
{
    mbus_handle *h = line_open(t, -1); mbus_address a; mbus_frame f; int r, d[3] = { t, p, addr }; char mb[64]; char in[80]; memset(&f, 0, sizeof f); memcpy(in, d, 12); sprintf(in + 12, "%s", m ? m : "-"); mc_input(in, 12 + strlen(in + 12));
    memset(&a, 0, sizeof a); a.is_primary = p; if (p) a.primary = addr; else if (m) { strcpy(mb, m); a.secondary = mb; }
    r = mbus_read_slave(h, &a, &f); MC_CHECK(r != 0, "reading address %d/%s succeeded", addr, m ? m : "(none)"); MC_CHECK(E.tx_cnt == 0, "transmitted for address %d/%s", addr, m ? m : "(none)"); line_close(h);
}
void mc_main(void)
{
    static const char *ms[] = { "12345678FFFFFFFF", "1234567840240107", "FFFFFFFFFFFFFFFF", "abcdef09ABCDEF12" }; int t, a, i, j, b; char m[24];
    mc_section("primary addresses"); for (t = 0; t < 2; t++) for (a = 0; a < 256; a++) if (mc_case()) space(t, 1, a, "");
    mc_section("secondary addresses"); for (t = 0; t < 2; t++) for (i = 0; i < 4; i++) if (mc_case()) space(t, 0, 0, ms[i]);
    mc_section("secondary address digits"); for (t = 0; t < 2; t++) for (j = 0; j < 16; j++) for (b = 0; b < 22; b++) { strcpy(m, ms[1]); m[j] = "0123456789abcdefABCDEF"[b]; if (mc_case()) space(t, 0, 0, m); }
    mc_section("two readings on one connection");
    { static const struct { int p, a; const char *m; } w[] = { { 1, 5, "################" }, { 1, 253, "################" }, { 1, 0, "################" }, { 1, 254, "################" }, { 0, 0, "12345678FFFFFFFF" }, { 0, 0, "1234567840240107" }, { 0, 0, "12345679FFFFFFFF" }, { 0, 0, "abcdef09ABCDEF12" } };
      for (t = 0; t < 2; t++) for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) for (b = 0; b < 2; b++) if (mc_case()) twice(t, w[i].p, w[i].a, w[i].m, w[j].p, w[j].a, w[j].m, b); }
    mc_section("refused"); for (t = 0; t < 2; t++) { for (a = -600; a < 1200; a++) if ((a < 0 || a > 255) && mc_case()) refuse(t, 1, a, NULL);
        if (mc_case()) refuse(t, 0, 0, NULL); if (mc_case()) refuse(t, 0, 0, ""); if (mc_case()) refuse(t, 0, 0, "FFFFFFFFFFFFFFF"); if (mc_case()) refuse(t, 0, 0, "FFFFFFFFFFFFFFFFF");
        for (j = 0; j < 16; j++) for (b = 1; b < 256; b++) if (!strchr("0123456789abcdefABCDEF", b)) { strcpy(m, ms[0]); m[j] = b; if (mc_case()) refuse(t, 0, 0, m); } }
    if (mc_case()) { mbus_handle *h = line_open(0, -1); mbus_frame f; mbus_address a; mc_input("x", 1); memset(&a, 0, sizeof a); a.is_primary = 1; memset(&f, 0, sizeof f); MC_CHECK(mbus_read_slave(h, NULL, &f) != 0 && mbus_read_slave(NULL, &a, &f) != 0, "absent arguments"); line_close(h); }
}
