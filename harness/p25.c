/* P25: the life cycle of connections - every history of creating, connecting, using, disconnecting and freeing, with failing steps. */
#include <errno.h>
#include "bus.h"
#include <fcntl.h>
enum { O_NEW_S, O_NEW_T, O_FREE, O_CONNECT, O_DISCONNECT, O_PING, O_ACK, O_EOF, O_EIO, O_SILENT, O_READ, O_SETADDR, O_PROBE, O_SCAN, O_MULTI, O_BAUD, O_PURGE, O_OPTION, NO };
static const char *ON[NO] = { "new serial", "new tcp", "free", "connect", "disconnect", "ping", "receive ack", "receive hang-up", "receive error", "receive nothing", "read slave", "set address", "probe", "scan", "readout", "baud rate", "purge", "option" };
static const int FEW[] = { O_NEW_S, O_NEW_T, O_FREE, O_CONNECT, O_DISCONNECT, O_PING, O_ACK };
static struct { mbus_handle *h; int tcp, up, fd, prim, deaf; char dest[40]; int port; } S[2];
static char hist[2000]; static int ho, nh;
static int f_gai, f_sc, f_other, f_any, f_on;
static int devs_on;
static int fault(const char *w)
{
    int y; if (!f_on) return 0;
    if (strcmp(w, "open") && strncmp(w, "cfset", 5) && strcmp(w, "tcsetattr") && strcmp(w, "getaddrinfo") && strcmp(w, "socket") && strcmp(w, "connect") && strcmp(w, "setsockopt")) return 0;
    y = devs_on && mc_choose_dev(2); if (!y) return 0;
    f_any++; ho += sprintf(hist + ho, "[%s fails]", w); if (!strcmp(w, "getaddrinfo")) f_gai = 1; else if (strcmp(w, "socket") && strcmp(w, "connect")) f_other = 1; else f_sc++; return 1;
}
static void answer(const uint8_t *b, int n)
{
    E.rx_fd = E.w_fd; { int sel = n == 17 && b[5] == 0xFD && b[6] == 0x52, s = n == 5 && b[0] == 0x10; if (!sel && !s) { rx_bytes("\xE5", 1); return; } } bus_write(b, n);
}
static int found, evs[2], evr[2], evb, evf[2], evp[2];        /* the events of either connection */
#define EV(k) \
static void on_send##k(unsigned char t, const char *b, size_t n) { (void)b; if (t != (S[k].tcp ? MBUS_HANDLE_TYPE_TCP : MBUS_HANDLE_TYPE_SERIAL) || !n) evb++; evs[k]++; } \
static void on_recv##k(unsigned char t, const char *b, size_t n) { (void)b; (void)n; if (t != (S[k].tcp ? MBUS_HANDLE_TYPE_TCP : MBUS_HANDLE_TYPE_SERIAL)) evb++; evr[k]++; } \
static void on_found##k(mbus_handle *h, mbus_frame *f) { (void)f; if (h != S[k].h) evb++; found++; evf[k]++; } \
static void on_mask##k(mbus_handle *h, const char *m) { (void)m; if (h != S[k].h) evb++; evp[k]++; }
EV(0) EV(1)
static void listen_to(int s, mbus_handle *h)
{
    mbus_register_found_event(h, s ? on_found1 : on_found0); mbus_register_scan_progress(h, s ? on_mask1 : on_mask0); mbus_register_send_event(h, s ? on_send1 : on_send0); mbus_register_recv_event(h, s ? on_recv1 : on_recv0);
}
static int connected(void) { return S[0].up + S[1].up; }
static void balance(const char *what)
{
    int i, want = 0; for (i = 0; i < 2; i++) want += S[i].h ? 3 : 0;
    MC_CHECK(E.n_open_now == connected(), "%s: %d descriptors open, %d connections made (%s)", what, E.n_open_now, connected(), hist);
    MC_CHECK(E.gai_live == 0, "%s: address list not released (%s)", what, hist);
    MC_CHECK(E.bad_fd == E.neg_fd, "%s: %s, which is not open (%s)", what, E.bad_fd_what, hist);
    MC_CHECK(!M.bad_free, "%s: memory released that was not allocated (%s)", what, hist);
    for (i = 0; i < 2; i++) if (S[i].up) MC_CHECK(E.fd_open[S[i].fd - E.fd_base], "%s: the descriptor of a connection was closed (%s)", what, hist);
    if (!S[0].h && !S[1].h) MC_CHECK(mem_live() == 0, "%s: memory left after everything was freed: %s (%s)", what, mem_describe(), hist);
    (void)want;
}
static int allowed(int s, int o) { if (o <= O_NEW_T) return !S[s].h; if (!S[s].h) return 0; if (o == O_FREE || o == O_CONNECT) return !S[s].up; if (o == O_BAUD) return !S[s].tcp; return 1; }
static void step(int s, int o)
{
    mbus_handle *h = S[s].h; int up = S[s].up, tx0 = E.tx_n, cnt0 = E.tx_cnt, r = 0, want = 0, i, before[64], failing; long live; mbus_frame f; char mask[20], addr[20]; mbus_address ma;
    ho += sprintf(hist + ho, " %d:%s", s, ON[o]); memset(&f, 0, sizeof f); env_clear_rx(); E.rx_fd = -1; E.cross = 0; f_gai = f_sc = f_other = f_any = 0; bn = 1; bus_style = 0; bus_dev = 0; bus_failed = 0; bus_link_at = 0; bm[0].sel = 0; found = evb = 0; memset(evs, 0, sizeof evs); memset(evr, 0, sizeof evr); memset(evf, 0, sizeof evf); memset(evp, 0, sizeof evp); memcpy(before, E.fd_open, sizeof before); live = mem_live(); E.reads = 0;
    static const struct { int o; long v; } OV[] = { { MBUS_OPTION_MAX_SEARCH_RETRY, 2 }, { MBUS_OPTION_MAX_SEARCH_RETRY, 0 }, { MBUS_OPTION_MAX_DATA_RETRY, 0 }, { MBUS_OPTION_PURGE_FIRST_FRAME, MBUS_FRAME_PURGE_NONE }, { MBUS_OPTION_MAX_DATA_RETRY, 9 }, { MBUS_OPTION_MAX_SEARCH_RETRY, 9 }, { MBUS_OPTION_PURGE_FIRST_FRAME, MBUS_FRAME_PURGE_M2S }, { MBUS_OPTION_MAX_SEARCH_RETRY, 1 } }; int q_ = (mc_cur->idx + ho) % 8;
    mc_trans(1);
    switch (o) {
    case O_NEW_S: case O_NEW_T: failing = devs_on ? mc_choose_dev(4) : 0; if (failing) ho += sprintf(hist + ho, "[allocation %d fails]", failing); M.count = M.failed = 0; M.fail_at = failing ? failing : -1; S[s].tcp = o == O_NEW_T; nh++; sprintf(S[s].dest, S[s].tcp ? "gateway%d" : "/dev/line%d", nh); { char tmp[40]; strcpy(tmp, S[s].dest); S[s].port = nh & 1 ? 65535 : 80 + nh; h = S[s].tcp ? mbus_context_tcp(tmp, S[s].port) : mbus_context_serial(tmp); memset(tmp, 'x', sizeof tmp); }
        M.fail_at = -1; if (M.failed) { MC_CHECK(!h, "created although memory ran out (%s)", hist); MC_CHECK(mem_live() == live, "memory left after a failed creation (%s)", hist); } else MC_CHECK(h != NULL, "not created (%s)", hist); S[s].h = h; S[s].up = S[s].deaf = 0; if (h) { listen_to(s, h); MC_CHECK(E.n_open_now == connected(), "creating opened something (%s)", hist); } break;
    case O_FREE: mbus_context_free(h); S[s].h = NULL; break;
    case O_CONNECT: { E.gai_host[0] = E.gai_port[0] = E.open_path[0] = 0; f_on = 1; r = mbus_connect(h); f_on = 0; want = S[s].tcp ? !f_gai && f_sc < E.naddr && !f_other : !f_other; if (!f_any) want = 1; MC_CHECK((r == 0) == want, "connecting returned %d, expected %s (%s)", r, want ? "success" : "failure", hist);
        MC_CHECK(r == 0 || E.n_open_now == connected(), "descriptor left after failed connect (%s)", hist);
        if (S[s].tcp) { char p[8]; sprintf(p, "%d", S[s].port); MC_CHECK(!strcmp(E.gai_host, S[s].dest) && !strcmp(E.gai_port, p), "connected to %s:%s instead of %s:%s (%s)", E.gai_host, E.gai_port, S[s].dest, p, hist); } else MC_CHECK(!strcmp(E.open_path, S[s].dest), "opened %s instead of %s (%s)", E.open_path, S[s].dest, hist);
        if (r == 0) { int nf = -1; for (i = 0; i < E.n_fd; i++) if (E.fd_open[i] && !before[i]) nf = i + E.fd_base; MC_CHECK(nf >= 0, "connected without a connection (%s)", hist); MC_CHECK(!(E.fd_fl[nf - E.fd_base] & O_NONBLOCK), "the connection does not wait for answers (%s)", hist); S[s].fd = nf; S[s].up = 1; } else for (i = 0; i < 64; i++) MC_CHECK(E.fd_open[i] == before[i], "failed connect changed another connection (%s)", hist); break; }
    case O_DISCONNECT: r = mbus_disconnect(h); MC_CHECK((r == 0) == up, "disconnecting returned %d (%s)", r, hist); if (up) { MC_CHECK(!E.fd_open[S[s].fd - E.fd_base], "not disconnected (%s)", hist); S[s].up = 0; } break;
    case O_PING: r = mbus_send_ping_frame(h, 5, 0); want = up ? 0 : -1; MC_CHECK((r == 0) == up, "ping returned %d (%s)", r, hist); break;
    case O_ACK: rx_bytes("\xE5", 1); E.rx_fd = up ? S[s].fd : -1; r = mbus_recv_frame(h, &f); MC_CHECK(up ? r == MBUS_RECV_RESULT_OK && f.type == MBUS_FRAME_TYPE_ACK : r == MBUS_RECV_RESULT_ERROR || r == MBUS_RECV_RESULT_RESET, "reception returned %d (%s)", r, hist); break;
    case O_EOF: rx_event(RX_EOF); r = mbus_recv_frame(h, &f); MC_CHECK(up ? r == (S[s].tcp ? MBUS_RECV_RESULT_RESET : MBUS_RECV_RESULT_TIMEOUT) : r == MBUS_RECV_RESULT_ERROR || r == MBUS_RECV_RESULT_RESET, "reception returned %d (%s)", r, hist); break;
    case O_EIO: rx_event(RX_ERR); r = mbus_recv_frame(h, &f); MC_CHECK(r == MBUS_RECV_RESULT_ERROR || (!up && r == MBUS_RECV_RESULT_RESET), "reception returned %d (%s)", r, hist); break;
    case O_SILENT: r = mbus_recv_frame(h, &f); MC_CHECK(up ? r == MBUS_RECV_RESULT_TIMEOUT : r == MBUS_RECV_RESULT_ERROR || r == MBUS_RECV_RESULT_RESET, "reception returned %d (%s)", r, hist); break;
    case O_READ: ma.is_primary = 1; ma.primary = 5; r = mbus_read_slave(h, &ma, &f); MC_CHECK((r == 0) == up, "reading returned %d (%s)", r, hist); break;
    case O_SETADDR: r = mbus_set_primary_address(h, 5, 6); MC_CHECK((r == 0) == up, "setting the address returned %d (%s)", r, hist); break;
    case O_PROBE: r = mbus_probe_secondary_address(h, "12345678FFFFFFFF", addr); MC_CHECK(r == (up ? MBUS_PROBE_SINGLE : MBUS_PROBE_ERROR), "probing returned %d (%s)", r, hist); break;
    case O_SCAN: strcpy(mask, "12345678FFFFFFFF"); r = mbus_scan_2nd_address_range(h, 0, mask); MC_CHECK((r == 0) == up && found == up, "scanning returned %d and found %d (%s)", r, found, hist); break;
    case O_MULTI: r = mbus_sendrecv_request(h, 5, &f, 0); MC_CHECK((r == 0) == up, "readout returned %d (%s)", r, hist); if (f.next) mbus_frame_free(f.next); break;
    case O_BAUD: i = E.tcset_n; r = mbus_serial_set_baudrate(h, 9600); MC_CHECK((r == 0) == up, "setting the baud rate returned %d (%s)", r, hist); if (up) MC_CHECK(E.tcset_n > i && E.tcset_fd == S[s].fd, "baud rate set on another line (%s)", hist); break;
    case O_PURGE: if (up) { rx_bytes("\x55", 1); E.rx_fd = S[s].fd; } mbus_purge_frames(h); break;
    case O_OPTION: r = mbus_context_set_option(h, OV[q_].o, OV[q_].v); MC_CHECK(r == 0, "option refused (%s)", hist);
        if (ho % 3 == 0) { if ((S[s].deaf = !S[s].deaf)) { mbus_register_scan_progress(h, NULL); mbus_register_send_event(h, NULL); mbus_register_recv_event(h, NULL); } else listen_to(s, h); }    /* listeners come and go */
        break;
    }
    if (E.tx_cnt > cnt0) { MC_CHECK(up, "transmitted without a connection (%s)", hist); MC_CHECK(E.w_fd == S[s].fd, "transmitted on another connection (%s)", hist); } else MC_CHECK(!(up && (o == O_PING || (o >= O_READ && o <= O_MULTI))), "nothing transmitted (%s)", hist); (void)tx0;
    MC_CHECK(!evb, "an event names another connection (%s)", hist); MC_CHECK(!evs[!s] && !evr[!s] && !evf[!s] && !evp[!s], "events of another connection (%s)", hist);
    if (S[s].deaf) MC_CHECK(!evs[s] && !evr[s] && !evp[s], "events for a listener that was taken away (%s)", hist); else { MC_CHECK(evs[s] == E.tx_cnt - cnt0, "%d send events for %d transmissions (%s)", evs[s], E.tx_cnt - cnt0, hist); if (o == O_ACK && up) MC_CHECK(evr[s] == 1, "%d receive events (%s)", evr[s], hist); if (o == O_SCAN && up) MC_CHECK(evp[s] == 1, "%d masks announced (%s)", evp[s], hist); }
    MC_CHECK(E.cross == 0, "received from another connection (%s)", hist);
    balance(ON[o]);
    { int st[8] = { S[0].h != NULL, S[0].tcp, S[0].up, S[1].h != NULL, S[1].tcp, S[1].up, s * 32 + o, r }; mc_state(st, sizeof st); } mc_outcome("%s %s: %s", ON[o], up ? "connected" : S[s].h ? "unconnected" : "-", f_any ? "with failing steps" : r == 0 ? "ok" : "refused");
}
static void history(const int *pre, int npre, int slots, const int *ops, int nops, int depth, int devs, int naddr, int base)
{
    int cfg[12] = { slots, nops, depth, devs, naddr, base }, i; for (i = 0; i < npre && i < 6; i++) cfg[6 + i] = pre[i]; mc_input(cfg, sizeof cfg); devs_on = devs > 0;
    mc_explore_begin(devs);
    while (mc_explore_next()) {
        int d, k, s, o, dead = 0; env_reset(0); mem_begin(0xA5); memset(S, 0, sizeof S); ho = nh = 0; hist[0] = 0; E.fault = fault; E.fault_errno = ((int[]){ 0, EINTR, EAGAIN, ENOMEM })[mc_cur->idx % 4]; E.naddr = naddr; E.fd_base = base; E.on_write = answer; bus_meter(0, "12345678", 0x4024, 1, 7, 5); f_on = 0; mc_note("history");
        for (d = 0; d < depth && !dead; d++) {
            if (d < npre) { s = pre[d] / nops; o = ops[pre[d] % nops]; if (!allowed(s, o)) { dead = 1; break; } }
            else { int al[2 * NO], na = 0; for (k = 0; k < slots * nops; k++) if (allowed(k / nops, ops[k % nops])) al[na++] = k; k = al[mc_choose(na)]; s = k / nops; o = ops[k % nops]; }
            step(s, o);
        }
        ho += sprintf(hist + ho, " end"); for (s = 0; s < 2; s++) { if (S[s].up) { MC_CHECK(mbus_disconnect(S[s].h) == 0, "disconnecting failed (%s)", hist); S[s].up = 0; } if (S[s].h) { mbus_context_free(S[s].h); S[s].h = NULL; } } balance("end"); mc_eval(1); mc_trace(1); if (dead) break;
    }
}
/* nothing at all */
static void nothing(void)
{
    mbus_frame f; char a[20], m[20] = "FFFFFFFFFFFFFFFF"; mbus_address ad = { 1, { 5 } }; memset(&f, 0, sizeof f); env_reset(0); mem_begin(0xA5);
    MC_CHECK(mbus_connect(NULL) != 0, "connect"); MC_CHECK(mbus_disconnect(NULL) != 0, "disconnect"); mbus_context_free(NULL); MC_CHECK(mbus_send_frame(NULL, &f) != 0, "send"); MC_CHECK(mbus_recv_frame(NULL, &f) == MBUS_RECV_RESULT_ERROR, "receive"); MC_CHECK(mbus_context_set_option(NULL, MBUS_OPTION_MAX_DATA_RETRY, 1) != 0, "option");
    MC_CHECK(mbus_serial_set_baudrate(NULL, 2400) != 0, "baud rate"); MC_CHECK(mbus_send_ping_frame(NULL, 5, 0) != 0, "ping"); MC_CHECK(mbus_send_request_frame(NULL, 5) != 0, "request"); MC_CHECK(mbus_sendrecv_request(NULL, 5, &f, 0) != 0, "readout"); (void)a; (void)m; (void)ad;
    MC_CHECK(mbus_serial_connect(NULL) != 0 && mbus_tcp_connect(NULL) != 0 && mbus_serial_disconnect(NULL) != 0 && mbus_tcp_disconnect(NULL) != 0, "connecting nothing"); mbus_serial_data_free(NULL); mbus_tcp_data_free(NULL);
    MC_CHECK(mbus_serial_send_frame(NULL, &f) != 0 && mbus_tcp_send_frame(NULL, &f) != 0, "sending over nothing"); MC_CHECK(mbus_serial_recv_frame(NULL, &f) == MBUS_RECV_RESULT_ERROR && mbus_tcp_recv_frame(NULL, &f) == MBUS_RECV_RESULT_ERROR, "receiving from nothing");
    { int t; for (t = 0; t < 2; t++) { mbus_handle *h = t ? mbus_context_tcp("h", 1) : mbus_context_serial("/dev/x"); mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, 1); E.read_budget = 100; MC_CHECK(mbus_connect(h) == 0, "not connected"); rx_bytes("\xE5", 1); E.tx_cnt = 0;
        MC_CHECK((t ? mbus_tcp_send_frame : mbus_serial_send_frame)(h, NULL) != 0 && mbus_send_frame(h, NULL) != 0 && E.tx_cnt == 0, "nothing was sent with success"); MC_CHECK((t ? mbus_tcp_recv_frame : mbus_serial_recv_frame)(h, NULL) == MBUS_RECV_RESULT_ERROR && mbus_recv_frame(h, NULL) == MBUS_RECV_RESULT_ERROR, "received into nothing");
        MC_CHECK(mbus_recv_frame(h, &f) == MBUS_RECV_RESULT_OK && f.type == MBUS_FRAME_TYPE_ACK, "a refused reception consumed the answer"); MC_CHECK(mbus_disconnect(h) == 0, "disconnect"); mbus_context_free(h); } }
    MC_CHECK(mem_live() == 0 && E.n_open_now == 0 && E.bad_fd == 0, "traces left");
}
/* one life of a connection to a given destination */
static void life(int tcp, const char *dest, int port)
{
    char tmp[5000], p[8]; mbus_handle *h; int k, r; mbus_frame f; env_reset(tcp); mem_begin(0xA5); strcpy(tmp, dest); mc_trans(4);
    h = tcp ? mbus_context_tcp(tmp, port) : mbus_context_serial(tmp); MC_CHECK(h != NULL, "not created"); memset(tmp, '#', strlen(dest)); sprintf(p, "%d", port);
    for (k = 0; k < 2; k++) {
        r = mbus_connect(h); MC_CHECK(r == 0, "connecting failed"); if (tcp) MC_CHECK(!strcmp(E.gai_host, dest) && !strcmp(E.gai_port, p), "connected to %.60s:%s instead of %.60s:%s", E.gai_host, E.gai_port, dest, p); else MC_CHECK(!strcmp(E.open_path, dest), "opened %.60s instead of %.60s", E.open_path, dest);
        MC_CHECK(E.n_open_now == 1, "%d descriptors open", E.n_open_now); r = mbus_send_ping_frame(h, 5, 0); MC_CHECK(r == 0 && E.tx_cnt == k + 1, "ping returned %d", r); rx_bytes("\xE5", 1); memset(&f, 0, sizeof f); r = mbus_recv_frame(h, &f); MC_CHECK(r == MBUS_RECV_RESULT_OK && f.type == MBUS_FRAME_TYPE_ACK, "reception returned %d", r);
        MC_CHECK(mbus_disconnect(h) == 0 && E.n_open_now == 0, "not disconnected");
    }
    mbus_context_free(h); MC_CHECK(mem_live() == 0 && !M.bad_free && E.bad_fd == 0 && E.gai_live == 0, "not released"); { int st[2] = { 99, tcp }; mc_state(st, sizeof st); } mc_outcome("destination");
}
#define HIGH ((int[]){ 600, 1021, 65534 }[mc_cur->idx / 2 % 3])
void mc_main(void)
{
    int all[NO], i, a, b, c, t; freopen("/dev/null", "w", stderr); for (i = 0; i < NO; i++) all[i] = i; t = mc_thorough;
    mc_section("no object"); if (mc_case()) { mc_input("n", 1); mc_note("no object"); nothing(); }
    mc_section("every port"); for (a = 0; a < 65536; a++) if (mc_case()) { mc_input(&a, sizeof a); mc_note("port %d", a); life(1, a & 1 ? "gateway.example" : "10.0.0.1", a); }
    mc_section("names of every length"); for (c = 0; c < 2; c++) for (a = 1; a < 4200; a++) for (b = 0; b < 2; b++) if (mc_case()) { static char d[5000]; int q[3] = { c, a, b }; mc_input(q, sizeof q); mc_note("name of %d characters", a); for (i = 0; i < a; i++) d[i] = b ? 33 + (i * 7 + a) % 94 : "/dev/serial/by-id/usb-"[i % 22]; d[a] = 0; life(c, d, 65535 - a); }
    for (c = 0; c < 2; c++) for (a = 1; a < 256; a++) for (b = 0; b < 3; b++) if (mc_case()) { char d[4]; int q[3] = { c, a, b }; mc_input(q, sizeof q); memset(d, 'x', 3); d[3] = 0; d[b] = a; mc_note("name with character %d", a); life(c, d, 10001); }
    mc_section("one connection, any history"); for (c = 0; c < 2; c++) for (a = 0; a < NO; a++) for (b = 0; b < NO; b++) if (mc_case()) { int p[3] = { c, a, b }; history(p, 3, 1, all, NO, t ? 6 : 5, 0, 1, a & 1 ? 0 : HIGH); }
    mc_section("one connection with failing steps"); for (c = 0; c < 2; c++) for (a = 0; a < NO; a++) for (b = 1; b <= 3; b++) if (mc_case()) { int p[2] = { c, a }; history(p, 2, 1, all, NO, 5, t ? b == 2 ? 3 : 2 : b == 2 ? 2 : 1, b, a & 1 ? HIGH : 0); }
    mc_section("failing first steps"); for (c = 0; c < 2; c++) for (b = 1; b <= 3; b++) if (mc_case()) { int p[1] = { c }; history(p, 1, 1, FEW, 7, t ? 7 : 6, t ? 6 : 4, b, 0); }
    mc_section("two connections"); for (c = 0; c < 4; c++) for (a = 0; a < 14; a++) if (mc_case()) { int p[3] = { c & 1, 7 + (c >> 1), a }; history(p, 3, 2, FEW, 7, t ? 7 : 6, 0, 1, a & 1 ? 0 : HIGH); }
    mc_section("two connections with failing steps"); for (c = 0; c < 4; c++) for (a = 0; a < 14; a++) if (mc_case()) { int p[3] = { c & 1, 7 + (c >> 1), a }; history(p, 3, 2, FEW, 7, 6, t ? 2 : 1, 2, a & 1 ? HIGH : 0); }
    mc_section("two connections, any use"); for (c = 0; c < 4; c++) for (a = 0; a < 2 * NO; a++) if (mc_case()) { int p[5] = { c & 1, NO + (c >> 1), 3, NO + 3, a }; history(p, 5, 2, all, NO, t ? 7 : 6, 0, 1, a & 1 ? 0 : HIGH); }
}
