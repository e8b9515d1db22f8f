/* P05: every placement of line faults in every kind of traffic gets the right verdict. */
#include "util.h"
static void run(int tcp, const uint8_t *b, int n, const int *pos, const int *kind, int ne, int second)
{
    mbus_handle *h; mbus_frame f; rxref x; int i, e = 0, r, round, desc[12] = { tcp, ne, pos[0], kind[0], pos[1], kind[1], pos[2], kind[2] };
    char nt[128]; int o = 0;
    uint8_t in[400]; memcpy(in, desc, sizeof desc); memcpy(in + sizeof desc, b, n); mc_input(in, sizeof desc + n);
    for (i = 0; i < ne; i++) o += sprintf(nt + o, " %s@%d", (const char *[]){"", "silence", "EINTR", "EAGAIN", "EOF", "EIO"}[kind[i]], pos[i]); nt[o] = 0;
    mc_note("%s: %s with%s", tcp ? "tcp" : "serial", mc_hex(b, n > 40 ? 40 : n), nt);
    h = line_open(tcp, MBUS_FRAME_PURGE_NONE); E.read_budget = 3000;
    for (i = 0; i <= n; i++) { while (e < ne && pos[e] == i) rx_event(kind[e++]); if (i < n) rx_bytes(b + i, 1); }
    for (round = 0; round < (second ? 3 : 1); round++) {
        int before = E.rx_h, left;
        ref_receive(tcp, E.rx_h, &x);
        frame_fill(&f, 0x40 + round); ev_reset();
        r = mbus_recv_frame(h, &f); mc_trans(E.reads);
        if (!tcp && (x.verdict == MBUS_RECV_RESULT_ERROR)) { int ok = r == MBUS_RECV_RESULT_ERROR; if (!ok) mc_fail("receive %d: verdict %d after a read error", round, r); }
        MC_CHECK(r == x.verdict, "receive %d: verdict %d, expected %d (%d bytes had arrived)", round, r, x.verdict, x.n);
        if (r == 0) MC_CHECK(frame_is(&f, &x.f), "receive %d: success with another telegram", round);
        if (r == 0 || (r == MBUS_RECV_RESULT_INVALID)) {
            MC_CHECK(ev_rx_n == x.n && !memcmp(ev_rx, x.bytes, x.n), "receive %d: event saw %d bytes, %d were received", round, ev_rx_n, x.n);
        } else MC_CHECK(ev_rx_n == 0 || (ev_rx_n == x.n && !memcmp(ev_rx, x.bytes, x.n)), "receive %d: event with bytes that were not received", round);
        MC_CHECK(E.rx_h - before == x.consumed_items, "receive %d: consumed %d line items, expected %d", round, E.rx_h - before, x.consumed_items);
        mc_outcome("%s verdict %d", tcp ? "tcp" : "serial", r);
        { int st[4] = { tcp, r, x.n, round }; mc_state(st, sizeof st); }
    }
    MC_CHECK(E.bad_fd == 0, "uses a descriptor it does not own: %s", E.bad_fd_what);
    mc_trace(1); line_close(h);
}
void mc_main(void)
{
    uint8_t s[64][300]; int n[64], ns = 0, tcp, i, k, a, b, c, ka, kb, kc, full; uint8_t d[256];
    static const int P0[3] = {0}, K0[3] = {0};
    #define ADD(len) n[ns++] = len
    n[ns] = 0; ns++;                                                                    /* silence */
    s[ns][0] = 0xE5; ADD(1);
    full = mk_short(s[ns], 0x5B, 7); ADD(full);
    full = mk_short(s[ns], 0x5B, 7); s[ns][3] ^= 1; ADD(full);
    full = mk_short(s[ns], 0x5B, 7); ADD(3);
    pat(d, 256, 1);
    full = mk_long(s[ns], 8, 1, 0x72, d, 0); ADD(full);
    full = mk_long(s[ns], 8, 1, 0x72, d, 2); ADD(full);
    full = mk_long(s[ns], 8, 1, 0x72, d, 2); ADD(full - 1);
    full = mk_long(s[ns], 8, 1, 0x72, d, 2); s[ns][full - 2]++; ADD(full);
    full = mk_long(s[ns], 8, 1, 0x72, d, 2); s[ns][2]++; ADD(full);
    full = mk_long(s[ns], 8, 1, 0x72, d, 2); s[ns][3] = 0x16; ADD(full);
    full = mk_long(s[ns], 8, 1, 0x72, d, 2); s[ns][full - 1] = 0x17; ADD(full);
    full = mk_long(s[ns], 9, 1, 0x72, d, 2); ADD(full);
    s[ns][0] = 0x68; s[ns][1] = 2; s[ns][2] = 2; s[ns][3] = 0x68; s[ns][4] = 8; s[ns][5] = 8; ADD(6);
    s[ns][0] = 0x00; ADD(1);
    memcpy(s[ns], "\xFF\xE5", 2); ADD(2);
    memcpy(s[ns], "\xE5\xE5\xE5", 3); ADD(3);
    s[ns][0] = 0xE5; full = mk_short(s[ns] + 1, 0x5B, 1); ADD(full + 1);
    full = mk_long(s[ns], 8, 1, 0x72, d, 252); k = ns; ADD(full);
    full = mk_long(s[ns], 8, 1, 0x72, d, 252); ADD(full - 3);
    full = mk_long(s[ns], 0x53, 1, 0x51, d, 4); full += mk_long(s[ns] + full, 8, 1, 0x72, d, 3); ADD(full);
    for (tcp = 0; tcp < 2; tcp++) for (i = 0; i < ns; i++) {
        int step = n[i] > 40 ? (mc_thorough ? 3 : 17) : 1;
        mc_section("no or one fault");
        if (mc_case()) run(tcp, s[i], n[i], P0, K0, 0, 1);
        for (a = 0; a <= n[i]; a += n[i] > 40 ? 1 : 1) for (ka = 1; ka <= 5; ka++) if (mc_case()) run(tcp, s[i], n[i], (int[]){a, 0, 0}, (int[]){ka, 0, 0}, 1, 1);
        mc_section("two faults");
        for (a = 0; a <= n[i]; a += step) for (b = a; b <= n[i]; b += step) for (ka = 1; ka <= 5; ka++) for (kb = 1; kb <= 5; kb++) if (mc_case()) run(tcp, s[i], n[i], (int[]){a, b, 0}, (int[]){ka, kb, 0}, 2, 1);
        mc_section("three faults");
        if (n[i] <= 40 || mc_thorough) for (a = 0; a <= n[i]; a += step) for (b = a; b <= n[i]; b += step) for (c = b; c <= n[i]; c += step) for (ka = 1; ka <= 5; ka++) for (kb = 1; kb <= 5; kb++) for (kc = 1; kc <= 5; kc++)
            if (mc_case()) run(tcp, s[i], n[i], (int[]){a, b, c}, (int[]){ka, kb, kc}, 3, 1);
        mc_section("truncations, then silence / end / error");
        for (a = 0; a < n[i]; a++) for (ka = 0; ka <= 5; ka++) if (mc_case()) run(tcp, s[i], a, (int[]){a, 0, 0}, (int[]){ka ? ka : 1, 0, 0}, ka != 0, 0);
    }
    mc_section("unusable handles");
    for (tcp = 0; tcp < 2; tcp++) if (mc_case()) { mbus_handle *h; mbus_frame f; mc_input((int[]){tcp}, 4); h = line_open(tcp, 0); MC_CHECK(mbus_recv_frame(NULL, &f) != 0, "receive on nothing succeeded"); MC_CHECK(mbus_recv_frame(h, NULL) != 0, "receive into nothing succeeded"); mbus_disconnect(h); rx_bytes("\xE5", 1); MC_CHECK(mbus_recv_frame(h, &f) != 0, "receive on a closed line succeeded"); mbus_context_free(h); }
    mc_section("long noise");
    for (tcp = 0; tcp < 2; tcp++) for (i = 0; i < 256; i++) if (mc_case()) {    /* any constant byte, many times: must end, with an invalid verdict or ack */
        mbus_handle *h; mbus_frame f; uint8_t z[1000]; int r; mc_input((int[]){tcp, i}, 8); memset(z, i, sizeof z); h = line_open(tcp, 0); E.read_budget = 3000; rx_bytes(z, sizeof z); r = mbus_recv_frame(h, &f);
        MC_CHECK(i == 0xE5 ? r == 0 : r == MBUS_RECV_RESULT_INVALID, "constant %02X: verdict %d", i, r); line_close(h);
    }
}
