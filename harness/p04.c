/* P04: reception is independent of chunking, never reads past the telegram, and reports the received bytes. */
#include "util.h"
static int mode_free, base_dev;
static int chunk(int avail, int want)
{
    int c, opt[8], n = 0, i, j;
    if (avail <= 1) return avail;
    if (mode_free) return 1 + mc_choose(avail);
    if (avail <= 5) { c = mc_choose_dev(avail); return avail - c; }
    opt[n++] = avail; opt[n++] = 1; opt[n++] = avail - 1; opt[n++] = avail / 2; opt[n++] = 2; opt[n++] = avail > 4 ? 3 : 1; opt[n++] = avail - 2;
    return opt[mc_choose_dev(n)];
}
static void run(int tcp, rframe *fr, int nf)
{
    uint8_t all[1200]; int len[4], tot = 0, i; mbus_handle *h; mbus_frame f;
    for (i = 0; i < nf; i++) { len[i] = ref_pack(&fr[i], all + tot); tot += len[i]; }
    mc_input(all, tot); mc_note("%s line, %d telegrams, %d bytes", tcp ? "tcp" : "serial", nf, tot);
    mc_explore_begin(base_dev);
    while (mc_explore_next()) {
        int pos = 0;
        h = line_open(tcp, MBUS_FRAME_PURGE_NONE); E.chunk = chunk; rx_bytes(all, tot);
        for (i = 0; i < nf; i++) {
            int r; ev_reset(); frame_fill(&f, 0x11 * (i + 1));
            r = mbus_recv_frame(h, &f);
            MC_CHECK(r == MBUS_RECV_RESULT_OK, "telegram %d: verdict %d instead of success (reads so far %d)", i, r, E.reads);
            MC_CHECK(frame_is(&f, &fr[i]), "telegram %d: another telegram delivered", i);
            pos += len[i];
            MC_CHECK(rx_left() == tot - pos, "telegram %d: %d bytes of the following traffic consumed", i, (tot - pos) - rx_left());
            MC_CHECK(ev_rx_n == len[i] && !memcmp(ev_rx, all + pos - len[i], len[i]) && ev_rx_calls == 1, "telegram %d: receive event saw %d bytes in %d calls, telegram has %d", i, ev_rx_n, ev_rx_calls, len[i]);
            MC_CHECK(!ev_type_bad, "receive event names the wrong transport");
            MC_CHECK(f.next == NULL, "received telegram is linked to another one");
            { int st[4] = { tcp, E.rx_h, i, E.reads }; mc_state(st, sizeof st); }
        }
        mc_trans(E.reads); mc_trace(1);
        { int r = mbus_recv_frame(h, &f); MC_CHECK(r == MBUS_RECV_RESULT_TIMEOUT, "idle line after the telegrams: verdict %d", r); }
        MC_CHECK(E.bad_fd == 0, "uses a descriptor it does not own: %s", E.bad_fd_what);
        line_close(h);
    }
    mc_outcome("%d telegrams type %d", nf, fr[0].type);
}
/* Every place of one and of two pauses inside a telegram, followed by another one. A serial line delivers an empty
 * read per pause and goes on waiting; on TCP a pause of the length of the time-out ends the reception, interrupted
 * reads do not. The receive event has to see all bytes up to there. */
static void pauses(int tcp, rframe *f, rframe *nx)
{
    uint8_t all[600]; int n = ref_pack(f, all), m = ref_pack(nx, all + n), p, q, r; mbus_frame g; mbus_handle *h;
    mc_input(all, n + m); mc_note("%s line", tcp ? "tcp" : "serial");
    for (p = 1; p < n; p++) for (q = p; q <= n; q += n < 40 || q < p + 3 || q > n - 3 ? 1 : 7) {
        int kind = tcp ? RX_EINTR : RX_SILENCE;
        h = line_open(tcp, MBUS_FRAME_PURGE_NONE); rx_bytes(all, p); rx_event(kind); rx_bytes(all + p, q - p); if (q < n) rx_event(kind); rx_bytes(all + q, n + m - q); ev_reset(); frame_fill(&g, 0x33);
        r = mbus_recv_frame(h, &g); mc_trans(E.reads); mc_trace(1); { int st[4] = { tcp, n, p, q }; mc_state(st, sizeof st); }
        MC_CHECK(r == MBUS_RECV_RESULT_OK && frame_is(&g, f), "pauses after %d and %d of %d bytes: verdict %d", p, q, n, r);
        MC_CHECK(ev_rx_n == n && !memcmp(ev_rx, all, n) && ev_rx_calls == 1 && !ev_type_bad, "pauses after %d and %d bytes: receive event saw %d bytes in %d calls, telegram has %d", p, q, ev_rx_n, ev_rx_calls, n);
        MC_CHECK(rx_left() == m, "pauses after %d and %d bytes: %d bytes of the following traffic consumed", p, q, m - rx_left());
        ev_reset(); r = mbus_recv_frame(h, &g); MC_CHECK(r == MBUS_RECV_RESULT_OK && frame_is(&g, nx) && ev_rx_calls == 1 && ev_rx_n == m, "telegram after the paused one: verdict %d", r);
        line_close(h);
    }
    mc_outcome("paused telegram type %d", f->type);
}
void mc_main(void)
{
    static const uint8_t ctl[] = { 0x53, 0x73, 0x08, 0x18, 0x28, 0x38 };
    rframe k[8]; int tcp, n, i, j, l;
    memset(k, 0, sizeof k);
    k[0].type = RT_ACK;
    k[1].type = RT_SHORT; k[1].c = 0x5B; k[1].a = 0xFE;
    k[2].type = RT_SHORT; k[2].c = 0x40; k[2].a = 0x16;
    k[3].type = RT_CONTROL; k[3].c = 0x08; k[3].a = 1; k[3].ci = 0x70;
    k[4].type = RT_LONG; k[4].c = 0x08; k[4].a = 0x68; k[4].ci = 0x72; k[4].n = 3; pat(k[4].d, 3, 1);
    k[5].type = RT_LONG; k[5].c = 0x53; k[5].a = 5; k[5].ci = 0x51; k[5].n = 1; k[5].d[0] = 0xE5;
    k[6].type = RT_LONG; k[6].c = 0x28; k[6].a = 5; k[6].ci = 0x72; k[6].n = 252; pat(k[6].d, 252, 1);
    for (tcp = 0; tcp < 2; tcp++) {
        mc_section("all splits of short telegrams"); mode_free = 1;
        for (i = 0; i < 6; i++) if (mc_case()) run(tcp, &k[i], 1);
        for (n = 1; n <= (mc_thorough > 1 ? 16 : mc_thorough ? 12 : 8); n++) if (mc_case()) { rframe f = k[4]; f.n = n; pat(f.d, n, 1); run(tcp, &f, 1); }
        mc_section("all splits, back-to-back short telegrams");
        for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) if (mc_case()) { rframe f[2] = { k[i], k[j] }; run(tcp, f, 2); }
        mode_free = 0;
        mc_section("every length, bounded cuts");
        for (n = 0; n <= 252; n++) for (i = 0; i < 2; i++) if (mc_case()) {
            rframe f; memset(&f, 0, sizeof f); f.type = n ? RT_LONG : RT_CONTROL; f.c = ctl[(n + i) % 6]; f.a = n; f.ci = 0x72; f.n = n; pat(f.d, n, i);
            base_dev = 3 + mc_thorough; run(tcp, &f, 1);
        }
        mc_section("back-to-back triples, bounded cuts"); base_dev = 3 + mc_thorough;
        for (i = 0; i < 7; i++) for (j = 0; j < 7; j++) for (l = 0; l < 7; l++) if (mc_case()) { rframe f[3] = { k[i], k[j], k[l] }; run(tcp, f, 3); }
        mc_section("pauses inside telegrams");
        for (n = 0; n < 7; n++) for (i = 0; i < 4; i++) if (mc_case()) pauses(tcp, &k[n], &k[i]);
        for (n = 2; n <= 252; n += n < 16 ? 1 : mc_thorough ? 2 : 12) if (mc_case()) { rframe f = k[4]; f.n = n; pat(f.d, n, n); pauses(tcp, &f, &k[1]); }
        mc_section("one byte per read");
        for (n = 0; n <= 252; n++) if (mc_case()) {
            rframe f; mbus_handle *h; mbus_frame g; uint8_t b[300]; int m, r; extern int one_byte(int, int);
            memset(&f, 0, sizeof f); f.type = n ? RT_LONG : RT_CONTROL; f.c = 8; f.a = n; f.ci = 0x72; f.n = n; pat(f.d, n, 4); m = ref_pack(&f, b); mc_input(b, m);
            h = line_open(tcp, 0); E.chunk = one_byte; rx_bytes(b, m); rx_bytes("\xE5", 1); r = mbus_recv_frame(h, &g);
            MC_CHECK(r == 0 && frame_is(&g, &f) && rx_left() == 1, "verdict %d, %d bytes left", r, rx_left()); mc_trace(1); mc_trans(E.reads); line_close(h);
        }
    }
}
int one_byte(int a, int w) { return 1; }
