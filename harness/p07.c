/* P07: every command with every argument puts the standard's telegram on the line, or nothing if refused. */
#include "util.h"
static int tcp; static mbus_handle *h; static long cases;
static void begin(void) { h = line_open(tcp, -1); }
static void expect(int r, const uint8_t *e, int n, const char *what)
{
    MC_CHECK(r == 0, "%s refused (%d) although its arguments are valid", what, r);
    MC_CHECK(E.tx_cnt == 1 && E.tx_n == n && !memcmp(E.tx, e, n), "%s transmitted %s (%d writes), the standard's telegram is %s", what, mc_hex(E.tx, E.tx_n), E.tx_cnt, mc_hex(e, n));
    mc_outcome("%s sent", what);
}
static void refused(int r, const char *what)
{
    MC_CHECK(r != 0, "%s with invalid arguments succeeded", what);
    MC_CHECK(E.tx_cnt == 0, "%s with invalid arguments transmitted %s", what, mc_hex(E.tx, E.tx_n)); mc_outcome("%s refused", what);
}
static void end(void) { MC_CHECK(E.bad_fd == 0, "uses a descriptor it does not own: %s", E.bad_fd_what); line_close(h); mc_trans(1); mc_trace(1); }
#define IN(...) do { int d_[] = { tcp, __LINE__, __VA_ARGS__ }; mc_input(d_, sizeof d_); } while (0)
static int badargs[] = { -2147483647 - 1, -1000, -256, -1, 256, 257, 300, 511, 512, 65536 + 5, 2147483647 };
/* histories: what was sent, refused or received before on the same connection does not show in the next telegram */
enum { OPS = 20 };
static void op(int o)
{
    uint8_t e[300], d[300]; int n = 0, r = -99; const char *w = NULL; mbus_frame *f;
    E.tx_n = E.tx_cnt = 0; memset(d, 0, sizeof d);
    switch (o) {
    case 0: n = mk_short(e, 0x5B, 1); r = mbus_send_request_frame(h, 1); w = "request data"; break;
    case 1: n = mk_short(e, 0x5B, 254); r = mbus_send_request_frame(h, 254); w = "request data"; break;
    case 2: n = mk_short(e, 0x40, 3); r = mbus_send_ping_frame(h, 3, 0); w = "ping"; break;
    case 3: n = mk_long(e, 0x53, 4, 0x50, d, 0); r = mbus_send_application_reset_frame(h, 4, -1); w = "application reset"; break;
    case 4: d[0] = 0x10; n = mk_long(e, 0x53, 4, 0x50, d, 1); r = mbus_send_application_reset_frame(h, 4, 0x10); w = "application reset"; break;
    case 5: n = mk_long(e, 0x53, 5, 0xB8, d, 0); r = mbus_send_switch_baudrate_frame(h, 5, 300); w = "switch baud rate"; break;
    case 6: n = mk_long(e, 0x53, 200, 0xBF, d, 0); r = mbus_send_switch_baudrate_frame(h, 200, 38400); w = "switch baud rate"; break;
    case 7: memcpy(d, "\x01\x7A\x07", 3); n = mk_long(e, 0x53, 1, 0x51, d, 3); r = mbus_set_primary_address(h, 1, 7); w = "set primary address"; break;
    case 8: memcpy(d, "\x01\x7A\x00", 3); n = mk_long(e, 0x53, 250, 0x51, d, 3); r = mbus_set_primary_address(h, 250, 0); w = "set primary address"; break;
    case 9: d[0] = 0x2F; n = mk_long(e, 0x53, 9, 0x51, d, 1); r = mbus_send_user_data_frame(h, 9, d, 1); w = "user data"; break;
    case 10: pat(d, 252, 1); n = mk_long(e, 0x53, 10, 0x51, d, 252); r = mbus_send_user_data_frame(h, 10, d, 252); w = "user data"; break;
    case 11: memcpy(d, "\x78\x56\xF4\xFF\xFF\xFF\x01\xFF", 8); n = mk_long(e, 0x73, 0xFD, 0x52, d, 8); r = mbus_send_select_frame(h, "FFF45678FFFF01FF"); w = "select"; break;
    case 12: memcpy(d, "\x21\x43\x65\x87\x24\x40\x09\x04", 8); n = mk_long(e, 0x73, 0xFD, 0x52, d, 8); r = mbus_send_select_frame(h, "8765432124400904"); w = "select"; break;
    case 13: refused(mbus_send_request_frame(h, 256), "request data"); return;
    case 14: refused(mbus_send_switch_baudrate_frame(h, 5, 301), "switch baud rate"); return;
    case 15: refused(mbus_send_user_data_frame(h, 5, d, 253), "user data"); return;
    case 16: refused(mbus_send_select_frame(h, "876543212440090"), "select"); return;
    case 17: case 18: case 19: f = calloc(1, sizeof *f);
        if (o == 18) rx_bytes("\xE5", 1); else if (o == 19) { pat(d, 20, 2); n = mk_long(e, 0x08, 77, 0x72, d, 20); rx_bytes(e, n); }
        r = mbus_recv_frame(h, f); MC_CHECK(E.tx_cnt == 0, "receiving transmits"); MC_CHECK((r == MBUS_RECV_RESULT_OK) == (o > 17), "reception gives %d", r); free(f); return;
    }
    expect(r, e, n, w);
}
static void histories(int depth)
{
    int i, o, pv = 0; long k, all = 1;
    for (i = 0; i < depth; i++) all *= OPS;
    for (k = 0; k < all; k++) if (mc_case()) {
        char s[64] = ""; long q = k; int l = 0;
        IN((int)k, depth, 7); for (i = 0; i < depth; i++, q /= OPS) l += snprintf(s + l, sizeof s - l, " %ld", q % OPS);
        mc_note("operations%s on one connection", s); begin(); q = k;
        for (i = 0; i < depth; i++, q /= OPS) { o = q % OPS; { int st[3] = { tcp, i ? o + 100 * pv : -1, o }; op(o); mc_state(st, sizeof st); mc_trans(1); pv = o; } }
        end(); }
}
void mc_main(void)
{
    uint8_t e[300], d[400]; int a, n, s, i, r, k; static const long rates[8] = { 300, 600, 1200, 2400, 4800, 9600, 19200, 38400 };
    for (tcp = 0; tcp < 2; tcp++) {
        mc_section("request data");
        for (a = 0; a < 256; a++) if (mc_case()) { IN(a); mc_note("request data from %d", a); begin(); n = mk_short(e, 0x5B, a); expect(mbus_send_request_frame(h, a), e, n, "request data"); end(); }
        for (i = 0; i < 11; i++) if (mc_case()) { IN(badargs[i]); begin(); refused(mbus_send_request_frame(h, badargs[i]), "request data"); end(); }
        mc_section("ping");
        for (a = 0; a < 256; a++) for (k = 0; k < 2; k++) for (s = 0; s < 4; s++) if (mc_case()) {
            int left; IN(a, k, s); mc_note("ping %d purge %d with %d answers waiting", a, k, s); begin(); for (i = 0; i < s; i++) rx_bytes(i == 1 ? "\x55" : "\xE5", 1);
            n = mk_short(e, 0x40, a); r = mbus_send_ping_frame(h, a, k); left = rx_left(); expect(r, e, n, "ping");
            MC_CHECK(left == (k ? 0 : s), "ping with purge %d left %d of %d answer bytes", k, left, s); end(); }
        for (i = 0; i < 11; i++) if (mc_case()) { IN(badargs[i]); begin(); refused(mbus_send_ping_frame(h, badargs[i], 0), "ping"); end(); }
        mc_section("application reset");
        for (a = 0; a < 256; a++) for (s = -1; s < 256; s += (a % 17 && !mc_thorough && s >= 0) ? 13 : 1) if (mc_case()) { IN(a, s); mc_note("reset %d subcode %d", a, s); begin(); d[0] = s; n = mk_long(e, 0x53, a, 0x50, d, s >= 0); expect(mbus_send_application_reset_frame(h, a, s), e, n, "application reset"); end(); }
        for (s = 256; s < 70000; s += s < 600 ? 1 : 997) if (mc_case()) { IN(s); begin(); refused(mbus_send_application_reset_frame(h, 1, s), "application reset"); end(); }
        for (i = 0; i < 11; i++) if (mc_case()) { IN(badargs[i]); begin(); refused(mbus_send_application_reset_frame(h, badargs[i], 0), "application reset"); end(); }
        mc_section("switch baud rate");
        for (a = 0; a < 256; a++) for (i = 0; i < 8; i++) if (mc_case()) { IN(a, i); mc_note("baud rate %ld at %d", rates[i], a); begin(); n = mk_long(e, 0x53, a, 0xB8 + i, d, 0); expect(mbus_send_switch_baudrate_frame(h, a, rates[i]), e, n, "switch baud rate"); end(); }
        for (s = -3; s < 40000; s++) { for (k = 0, i = 0; i < 8; i++) k |= rates[i] == s; if (!k && mc_case()) { IN(s); begin(); refused(mbus_send_switch_baudrate_frame(h, 1, s), "switch baud rate"); end(); } }
        { static const long big[] = { 57600, 115200, 300L + (1L << 32), 2400L + (1L << 32), -2400, -300 }; for (i = 0; i < 6; i++) if (mc_case()) { IN(i, 7); mc_note("baud rate %ld", big[i]); begin(); refused(mbus_send_switch_baudrate_frame(h, 1, big[i]), "switch baud rate"); end(); } }
        for (i = 0; i < 11; i++) if (mc_case()) { IN(badargs[i]); begin(); refused(mbus_send_switch_baudrate_frame(h, badargs[i], 2400), "switch baud rate"); end(); }
        mc_section("set primary address");
        for (a = 0; a < 256; a++) for (s = 0; s <= 250; s += (mc_thorough || a % 25 == 0 || s > 240 || s < 8) ? 1 : 11) if (mc_case()) { IN(a, s); mc_note("new address %d at %d", s, a); begin(); d[0] = 1; d[1] = 0x7A; d[2] = s; n = mk_long(e, 0x53, a, 0x51, d, 3); expect(mbus_set_primary_address(h, a, s), e, n, "set primary address"); end(); }
        for (s = 251; s < 600; s++) if (mc_case()) { IN(s); mc_note("new address %d", s); begin(); refused(mbus_set_primary_address(h, 1, s), "set primary address"); end(); }
        for (i = 0; i < 11; i++) { if (mc_case()) { IN(badargs[i]); begin(); refused(mbus_set_primary_address(h, badargs[i], 7), "set primary address"); end(); } if (mc_case()) { IN(badargs[i], 1); begin(); refused(mbus_set_primary_address(h, 7, badargs[i]), "set primary address"); end(); } }
        mc_section("user data");
        for (n = 1; n <= 252; n++) for (a = 0; a < 256; a += mc_thorough ? 1 : 5) if (mc_case()) { IN(n, a); mc_note("%d bytes of user data to %d", n, a); begin(); pat(d, n, a & 3); k = mk_long(e, 0x53, a, 0x51, d, n); expect(mbus_send_user_data_frame(h, a, guard_copy(3, d, n), n), e, k, "user data"); end(); }
        for (n = 253; n < 400; n++) if (mc_case()) { IN(n); begin(); refused(mbus_send_user_data_frame(h, 1, d, n), "user data"); end(); }
        if (mc_case()) { IN(0); begin(); refused(mbus_send_user_data_frame(h, 1, d, 0), "user data"); end(); }
        if (mc_case()) { IN(1); begin(); refused(mbus_send_user_data_frame(h, 1, NULL, 5), "user data"); end(); }
        if (mc_case()) { IN(2); begin(); refused(mbus_send_user_data_frame(h, 1, d, 257), "user data"); end(); }
        if (mc_case()) { IN(3); begin(); refused(mbus_send_user_data_frame(h, 1, d, (size_t)-1), "user data"); end(); }
        for (i = 0; i < 11; i++) if (mc_case()) { IN(badargs[i]); begin(); refused(mbus_send_user_data_frame(h, badargs[i], d, 5), "user data"); end(); }
        mc_section("histories of commands and receptions on one connection"); histories(3); if (mc_thorough) histories(4); if (mc_thorough > 1) histories(5);
        mc_section("failing transmissions are reported");
        for (i = 0; i < 7; i++) for (k = -2; k < 3; k++) if (mc_case()) {
            extern int failing_write(int); extern int fw; IN(i, k); mc_note("command %d, write outcome %d", i, k); begin(); fw = k; E.write_outcome = failing_write; if (k == -1) { end(); continue; }
            r = i == 0 ? mbus_send_request_frame(h, 1) : i == 1 ? mbus_send_ping_frame(h, 1, 0) : i == 2 ? mbus_send_application_reset_frame(h, 1, 0) : i == 3 ? mbus_send_switch_baudrate_frame(h, 1, 2400) : i == 4 ? mbus_set_primary_address(h, 1, 2) : i == 5 ? mbus_send_user_data_frame(h, 1, d, 9) : mbus_send_select_frame(h, "0123456789ABCDEF");
            MC_CHECK(r != 0, "command %d reports success although transmitting failed", i); end(); }
    }
}
int fw; int failing_write(int n) { return fw; }
