/* P06: sending writes exactly the telegram once, reports failures, and the send event tells the truth. */
#include "util.h"
static int wout; static int wo(int n) { return wout; }
static void run(int tcp, int type, int c, int n, int outcome, int repeat)
{
    mbus_handle *h; mbus_frame *f; uint8_t exp[300]; rframe r; int full, k, i, desc[6] = { tcp, type, c, n, outcome, repeat };
    mc_input(desc, sizeof desc); mc_note("%s: type %d control %02X data %d, write outcome %d", tcp ? "tcp" : "serial", type, c, n, outcome);
    memset(&r, 0, sizeof r); r.type = type == RT_LONG && !n ? RT_CONTROL : type; r.c = c; r.a = n ^ 0x35; r.ci = 0x51; r.n = type == RT_LONG ? n : 0; pat(r.d, n, n & 3); full = ref_pack(&r, exp);
    h = line_open(tcp, -1); E.write_outcome = wo;
    f = mbus_frame_new(type); f->control = c; f->address = r.a; f->control_information = 0x51; if (type == RT_LONG) { f->data_size = n; memcpy(f->data, r.d, n); }
    for (i = 0; i <= repeat; i++) {
        int ok; int before = E.tx_n, evb = ev_tx_calls;
        wout = i == 0 ? outcome : W_FULL;
        ok = wout == W_FULL || wout == full;
        k = mbus_send_frame(h, f); mc_trans(1);
        if (ok) {
            MC_CHECK(k == 0, "send failed with %d though the transport took everything", k);
            MC_CHECK(E.tx_n - before == full && !memcmp(E.tx + before, exp, full), "wrote %s, telegram is %s", mc_hex(E.tx + before, E.tx_n - before), mc_hex(exp, full));
            MC_CHECK(ev_tx_calls == evb + 1 && ev_tx_n == full && !memcmp(ev_tx, exp, full), "send event saw %d bytes in %d calls", ev_tx_n, ev_tx_calls - evb);
            MC_CHECK(!ev_type_bad, "send event names the wrong transport");
            if (!tcp) MC_CHECK(E.drained_at == E.tx_n, "returned before the line had drained");
        } else {
            /* a transport that took part of the telegram: error, or the rest is sent as well (whole telegram on the line) */
            if (k == 0) MC_CHECK(E.tx_n - before == full && !memcmp(E.tx + before, exp, full), "success reported although %d of %d bytes were sent", E.tx_n - before, full);
            else MC_CHECK(ev_tx_calls == evb, "send event after a failed transmission");
            MC_CHECK(E.tx_n - before <= full, "bytes sent more than once");
        }
        ev_tx_n = 0; { int st[4] = { tcp, type, ok, k }; mc_state(st, sizeof st); }
        mc_outcome("%s outcome %s result %d", tcp ? "tcp" : "serial", ok ? "full" : "fault", k);
    }
    MC_CHECK(E.bad_fd == 0, "uses a descriptor it does not own: %s", E.bad_fd_what);
    mbus_frame_free(f); line_close(h); mc_trace(1);
}
/* histories of sends on one connection: each stands for itself */
#define HK 9
static int hkind(mbus_frame *f, rframe *r, int k, int step)
{
    memset(r, 0, sizeof *r); r->a = 0x35 + step * 7; r->ci = 0x51 + step; r->c = step == 1 ? 0x73 : 0x53;
    f->address = r->a; f->control_information = r->ci; f->control = r->c; f->start1 = f->start2 = 0x68; f->stop = 0x16; f->data_size = 0; f->type = RT_LONG;
    switch (k) {
    case 0: r->type = f->type = RT_ACK; f->start1 = 0xE5; return 1;
    case 1: r->type = f->type = RT_SHORT; f->start1 = 0x10; return 1;
    case 2: r->type = f->type = RT_CONTROL; return 1;
    case 3: r->type = RT_LONG; r->n = 1; break;
    case 4: r->type = RT_LONG; r->n = 9; break;
    case 5: r->type = RT_LONG; r->n = 252; break;
    case 6: f->type = 77; return 0;
    case 7: f->data_size = 253; return 0;
    default: return -1; }                                               /* no telegram at all */
    pat(r->d, r->n, step); f->data_size = r->n; memcpy(f->data, r->d, r->n); return 1;
}
static void histories(int tcp, int len, int same)
{
    static const int oc[5] = { W_FULL, W_ERR, W_EAGAIN, 1, -9 }; int d[3] = { tcp, len, same };
    mc_input(d, sizeof d); mc_explore_begin(0);
    while (mc_explore_next()) {
        mbus_handle *h = line_open(tcp, -1); mbus_frame *f[4]; int s, k, o, r, full, ok; char hs[120]; int ho = 0; rframe x; uint8_t exp[300]; hs[0] = 0;
        E.write_outcome = wo; for (s = 0; s < len; s++) f[s] = same && s ? f[0] : mbus_frame_new(RT_LONG);
        for (s = 0; s < len; s++) {
            int b = E.tx_n, bc = E.tx_cnt, eb = ev_tx_calls; ev_tx_n = 0;
            k = mc_choose(HK); r = hkind(f[s], &x, k, s); o = r > 0 ? mc_choose(5) : 0;
            full = r > 0 ? ref_pack(&x, exp) : 0; wout = oc[o] == -9 ? full - 1 : oc[o]; ok = r > 0 && (wout == W_FULL || wout == full);
            ho += sprintf(hs + ho, " kind %d outcome %d", k, wout); mc_note("%s%s:%s", tcp ? "tcp" : "serial", same ? ", one object" : "", hs); { int st[4] = { tcp, s, k, o }; mc_state(st, sizeof st); }
            r = mbus_send_frame(h, r < 0 ? NULL : f[s]); mc_trans(1);
            if (ok) {
                MC_CHECK(r == 0, "send %d failed with %d", s, r); MC_CHECK(E.tx_n - b == full && !memcmp(E.tx + b, exp, full), "send %d wrote %s, telegram is %s", s, mc_hex(E.tx + b, E.tx_n - b), mc_hex(exp, full));
                MC_CHECK(ev_tx_calls == eb + 1 && ev_tx_n == full && !memcmp(ev_tx, exp, full), "send %d: event saw %d bytes in %d calls", s, ev_tx_n, ev_tx_calls - eb);
                if (!tcp) MC_CHECK(E.drained_at == E.tx_n, "send %d returned before the line had drained", s);
            } else if (!full) { MC_CHECK(r != 0, "send %d: success for what cannot be sent", s); MC_CHECK(E.tx_cnt == bc && ev_tx_calls == eb, "send %d: something transmitted for what cannot be sent", s); }
            else { if (r == 0) MC_CHECK(E.tx_n - b == full && !memcmp(E.tx + b, exp, full), "send %d: success although not everything was sent", s); else MC_CHECK(ev_tx_calls == eb, "send %d: event after a failed transmission", s); MC_CHECK(E.tx_n - b <= full, "send %d: bytes sent twice", s); }
        }
        MC_CHECK(E.bad_fd == 0, "uses a descriptor it does not own: %s", E.bad_fd_what); mc_outcome("%d sends", len); mc_trace(1); mc_eval(1);
        for (s = 0; s < (same ? 1 : len); s++) mbus_frame_free(f[s]);
        line_close(h);
    }
}
void mc_main(void)
{
    int tcp, n, c, o, k; static const uint8_t ctl[] = { 0x53, 0x73, 0x08 };
    for (tcp = 0; tcp < 2; tcp++) {
        mc_section("all kinds, full write, two in a row");
        if (mc_case()) run(tcp, RT_ACK, 0, 0, W_FULL, 1);
        for (c = 0; c < 256; c++) if (mc_case()) run(tcp, RT_SHORT, c, 0, W_FULL, 1);
        for (c = 0; c < 256; c++) if (mc_case()) run(tcp, RT_CONTROL, c, 0, W_FULL, 1);
        for (n = 0; n <= 252; n++) for (c = 0; c < 3; c++) if (mc_case()) run(tcp, RT_LONG, ctl[c], n, W_FULL, 1);
        mc_section("every short write and error");
        for (n = 0; n <= 252; n++) for (o = W_EAGAIN; o <= n + 8; o++) if (mc_case()) run(tcp, RT_LONG, 0x53, n, o, 1);
        for (o = W_EAGAIN; o <= 4; o++) { if (mc_case()) run(tcp, RT_SHORT, 0x5B, 0, o, 1); if (mc_case()) run(tcp, RT_CONTROL, 0x53, 0, o, 1); if (o <= 0 && mc_case()) run(tcp, RT_ACK, 0, 0, o, 1); }
        mc_section("histories of sends");
        for (n = 1; n <= (mc_thorough ? 4 : 3); n++) for (k = 0; k < 2; k++) if (mc_case()) histories(tcp, n, k);
        mc_section("telegrams that cannot be packed");
        for (k = -3; k < 40; k++) for (n = 0; n < 400; n += 57) {
            mbus_handle *h; mbus_frame f; int r;
            if (k >= 1 && k <= 3) continue;
            if (k == 4 && n <= 252) continue;
            if (!mc_case()) continue;
            mc_input((int[]){tcp, k, n}, 12); mc_note("%s: telegram of type %d, %d data bytes", tcp ? "tcp" : "serial", k, n);
            h = line_open(tcp, -1); memset(&f, 0, sizeof f); f.type = k; f.start1 = 0x68; f.data_size = n; r = mbus_send_frame(h, &f);
            MC_CHECK(r != 0, "sending a telegram that cannot be packed succeeded"); MC_CHECK(E.tx_n == 0 && E.tx_cnt == 0, "%d bytes written for a telegram that cannot be packed", E.tx_n); MC_CHECK(ev_tx_calls == 0, "send event without transmission"); line_close(h);
        }
        mc_section("absent arguments");
        if (mc_case()) { mbus_handle *h = line_open(tcp, -1); mbus_frame *f = mbus_frame_new(RT_ACK); int r; mc_input((int[]){tcp}, 4); r = mbus_send_frame(h, NULL); MC_CHECK(r != 0 && !E.tx_cnt, "sending nothing succeeded"); r = mbus_send_frame(NULL, f); MC_CHECK(r != 0, "sending without a connection succeeded (%d)", r); mbus_disconnect(h); r = mbus_send_frame(h, f); MC_CHECK(r != 0 && !E.tx_cnt, "sending on a closed connection succeeded"); mbus_frame_free(f); mbus_context_free(h); }
    }
}
