/* P09: echo removal - all line histories x purge settings x transports against a two-line reference rule. */
#include "util.h"
#define NI 15
#define XI 15
static uint8_t ib[NI + 1][300]; static int in[NI + 1], iev[NI + 1]; static const char *nm[NI + 1] = { "ack", "nke(m2s)", "req(m2s)", "answer(s2m)", "long answer(s2m)", "user data(m2s)", "control(m2s)", "bad checksum(m2s)", "bad checksum(s2m)", "truncated(m2s)", "garbage", "silence", "EIO", "EOF", "control(s2m)", "any control code" };
static void put(int k) { if (in[k]) rx_bytes(ib[k], in[k]); if (iev[k]) rx_event(iev[k]); }
static void run(int tcp, int purge, const int *sq, int n, int fill)
{
    mbus_handle *h; mbus_frame f; int i, r, round, desc[10] = { tcp, purge, n, fill }; char nt[200]; int o = 0;
    for (i = 0; i < n; i++) { desc[4 + i] = sq[i]; o += sprintf(nt + o, " %s", nm[sq[i]]); } nt[o] = 0;
    mc_input(desc, sizeof desc); mc_note("%s purge=%d:%s", tcp ? "tcp" : "serial", purge, nt);
    h = line_open(tcp, purge); E.read_budget = 4000; if (purge < 0) purge = MBUS_FRAME_PURGE_M2S;
    for (i = 0; i < n; i++) put(sq[i]);
    for (round = 0; round <= n; round++) {
        rxref x; int dir, before = E.rx_h, used, dropped = 0;
        ref_receive(tcp, E.rx_h, &x); used = x.consumed_items;
        if (x.verdict == MBUS_RECV_RESULT_OK) {
            dir = x.f.type == RT_ACK ? 0 : x.f.c & 0x40;
            if ((purge == MBUS_FRAME_PURGE_M2S && dir) || (purge == MBUS_FRAME_PURGE_S2M && !dir)) { ref_receive(tcp, E.rx_h + used, &x); used += x.consumed_items; dropped = 1; }
        }
        frame_fill(&f, fill); f.type = fill == 0x77 ? RT_LONG : f.type;
        r = mbus_recv_frame(h, &f); mc_trans(1);
        MC_CHECK(r == x.verdict, "receive %d: verdict %d, expected %d%s", round, r, x.verdict, dropped ? " (after removing an echo)" : "");
        if (r == 0) MC_CHECK(frame_is(&f, &x.f), "receive %d: another telegram delivered", round);
        if (r == 0) MC_CHECK(f.timestamp == E.now, "receive %d: time stamp of reception missing", round);
        MC_CHECK(E.rx_h - before == used, "receive %d: consumed %d line items, expected %d", round, E.rx_h - before, used);
        { int st[5] = { tcp, purge, r, dropped, x.f.type }; mc_state(st, sizeof st); }
        mc_outcome("verdict %d%s", r, dropped ? " after echo" : "");
        E.now += 7;
    }
    mc_trace(1); line_close(h);
}
void mc_main(void)
{
    uint8_t d[256]; int tcp, p, n, i, sq[8], fl; static const int fills[] = { 0x00, 0x40, 0x77, 0xFF };
    pat(d, 256, 1);
    ib[0][0] = 0xE5; in[0] = 1; in[1] = mk_short(ib[1], 0x40, 1); in[2] = mk_short(ib[2], 0x7B, 0xFD);
    in[3] = mk_long(ib[3], 0x08, 1, 0x72, d, 3); in[4] = mk_long(ib[4], 0x38, 1, 0x72, d, 200);
    in[5] = mk_long(ib[5], 0x53, 1, 0x51, d, 5); in[6] = mk_long(ib[6], 0x73, 1, 0x50, d, 0);
    in[7] = mk_short(ib[7], 0x5B, 1); ib[7][3]++; in[8] = mk_long(ib[8], 0x08, 1, 0x72, d, 3); ib[8][in[8] - 2]++;
    in[9] = mk_long(ib[9], 0x53, 1, 0x51, d, 5) - 2; iev[9] = RX_SILENCE; ib[10][0] = 0x55; in[10] = 1;
    iev[11] = RX_SILENCE; iev[12] = RX_ERR; iev[13] = RX_EOF;
    in[14] = mk_long(ib[14], 0x18, 1, 0x70, d, 0);
    mc_section("every control code of every format, then an answer"); { int c, k, z; for (k = 0; k < 3; k++) for (c = 0; c < 256; c++) { in[XI] = k == 0 ? mk_short(ib[XI], c, 1) : mk_long(ib[XI], c, 1, 0x51, d, k == 1 ? 0 : 4); for (tcp = 0; tcp < 2; tcp++) for (p = -1; p <= 2; p++) for (z = 0; z < 3; z++) if (mc_case()) { sq[0] = XI; sq[1] = z == 1 ? 14 : 3; sq[2] = z == 2 ? XI : 4; run(tcp, p, sq, z ? 3 : 2, 0x40); } } }
    for (n = 0; n <= 4 + mc_thorough; n++) {
        char nm2[40]; sprintf(nm2, "histories of %d line items", n); mc_section(nm2);
        for (tcp = 0; tcp < 2; tcp++) for (p = -1; p <= 2; p++) {
            if (n == 4 && p == -1 && !mc_thorough) continue;
            memset(sq, 0, sizeof sq);
            for (;;) {
                for (fl = 0; fl < (n <= 3 ? 4 : 1); fl++) if (mc_case()) run(tcp, p, sq, n, fills[fl]);
                for (i = n - 1; i >= 0 && ++sq[i] == NI; i--) sq[i] = 0;
                if (i < 0) break;
            }
        }
    }
}
