/* P30: the serial line is set to 8E1 raw and the right rate with a sufficient, finite time-out; TCP time-outs are passed on. */
#include <errno.h>
#include "util.h"
#include <fcntl.h>
static const struct { long r; speed_t s; } R[8] = { {300,B300},{600,B600},{1200,B1200},{2400,B2400},{4800,B4800},{9600,B9600},{19200,B19200},{38400,B38400} };
static int fault_at, fault_seq; static char fault_what[32];
static int fault(const char *w) { if (strcmp(w, "tcsetattr") && strcmp(w, "cfsetispeed") && strcmp(w, "cfsetospeed") && strcmp(w, "setsockopt")) return 0; if (++fault_seq == fault_at) { snprintf(fault_what, sizeof fault_what, "%s", w); return 1; } return 0; }
static void line_ok(long rate, speed_t sp, const char *when)
{
    double need = 341.0 / rate + 0.15;      /* 330+11 bit times, 50 ms and the 100 ms adapter allowance the library documents */
    const struct termios *t = &E.tcset;
    MC_CHECK((t->c_cflag & CSIZE) == CS8, "%s: not 8 data bits", when);
    MC_CHECK((t->c_cflag & PARENB) && !(t->c_cflag & PARODD), "%s: not even parity", when);
    MC_CHECK(!(t->c_cflag & CSTOPB), "%s: not one stop bit", when);
    MC_CHECK((t->c_cflag & CREAD) && (t->c_cflag & CLOCAL), "%s: receiver off or modem control on", when);
    MC_CHECK(!(t->c_lflag & (ICANON | ECHO | ISIG | IEXTEN)), "%s: input is not raw", when);
    MC_CHECK(!(t->c_iflag & (IXON | IXOFF | ICRNL | INLCR | IGNCR | ISTRIP | PARMRK | BRKINT)), "%s: input bytes are altered", when);
    MC_CHECK(!(t->c_oflag & OPOST), "%s: output bytes are altered", when);
    MC_CHECK(cfgetispeed(t) == sp && cfgetospeed(t) == sp, "%s: rate is %o/%o, not %ld baud", when, (unsigned)cfgetispeed(t), (unsigned)cfgetospeed(t), rate);
    MC_CHECK(t->c_cc[VMIN] == 0, "%s: a read waits for ever for %d bytes", when, t->c_cc[VMIN]);
    MC_CHECK(t->c_cc[VTIME] != 0, "%s: reads do not wait at all", when);
    MC_CHECK(t->c_cc[VTIME] * 0.1 + 1e-9 >= need - 0.1 + 0.0 && t->c_cc[VTIME] * 0.1 >= 341.0 / rate + 0.05 - 1e-9, "%s: time-out %.1f s is too short for %ld baud (%.3f s)", when, t->c_cc[VTIME] * 0.1, rate, need);
    MC_CHECK(t->c_cc[VTIME] * 0.1 <= 2 * need + 1.0, "%s: time-out %.1f s is far too long for %ld baud", when, t->c_cc[VTIME] * 0.1, rate);
}
static void run(int n, const int *ix, int fa, int en)
{
    mbus_handle *h; int i, r, d[6] = { n, fa + 100 * en }, tcn; speed_t cur = B2400; long curr = 2400; struct termios before; char w[64];
    for (i = 0; i < n; i++) d[2 + i] = ix[i]; mc_input(d, sizeof d); mc_note("%d rate changes, failing call %d%s", n, fa, en == EINTR ? " (EINTR)" : en ? " (EAGAIN)" : "");
    env_reset(0); h = mbus_context_serial("/dev/sim"); fault_at = fa; fault_seq = 0; fault_what[0] = 0; E.fault = fault; E.fault_errno = en;
    r = mbus_connect(h); mc_trans(1);
    if (fault_what[0] && (r || !en)) { MC_CHECK(r != 0, "connecting succeeded although %s failed", fault_what); MC_CHECK(E.n_open_now == 0 || mbus_disconnect(h) == 0, "descriptor lost"); MC_CHECK(E.n_open_now == 0, "descriptor leaked"); mbus_context_free(h); return; }
    MC_CHECK(r == 0, "connect failed"); MC_CHECK(!strcmp(E.open_path, "/dev/sim"), "opened %s", E.open_path); MC_CHECK((E.open_flags & 3) == 2 && (E.open_flags & 0400 /* O_NOCTTY */), "opened with flags %o", E.open_flags);
    line_ok(2400, B2400, "after connect"); for (i = 0; i < E.n_fd; i++) if (E.fd_open[i]) MC_CHECK(!(E.fd_fl[i] & O_NONBLOCK), "reads do not wait: the line is non-blocking");
    for (i = 0; i < n; i++) {
        snprintf(w, sizeof w, "after setting %ld baud", R[ix[i]].r); fault_what[0] = 0; before = E.tcset; tcn = E.tcset_n;
        r = mbus_serial_set_baudrate(h, R[ix[i]].r); mc_trans(1);
        if (fault_what[0] && (r || !en)) { MC_CHECK(r != 0, "setting %ld baud succeeded although %s failed", R[ix[i]].r, fault_what); MC_CHECK(!memcmp(&before, &E.tcset, sizeof before), "failed rate change altered the line"); mc_outcome("failed"); }
        else { MC_CHECK(r == 0, "%ld baud refused", R[ix[i]].r); cur = R[ix[i]].s; curr = R[ix[i]].r; line_ok(curr, cur, w); mc_outcome("%ld", curr); }
        { int st[2] = { curr, r }; mc_state(st, sizeof st); }
    }
    /* opening the line anew starts with the defaults again, whatever rate was set before */
    if (!fa) { MC_CHECK(mbus_disconnect(h) == 0 && mbus_connect(h) == 0, "reopening failed"); line_ok(2400, B2400, "after reopening"); mc_trans(2);
        if (n) { r = mbus_serial_set_baudrate(h, R[ix[0]].r); MC_CHECK(r == 0, "%ld baud refused after reopening", R[ix[0]].r); line_ok(R[ix[0]].r, R[ix[0]].s, "set after reopening"); } }
    mc_trace(1); mbus_disconnect(h); mbus_context_free(h);
}
/* two lines: each keeps its own setting, whatever is set, refused or reopened on the other */
static void two(const int *op, int n)
{
    mbus_handle *h[2]; long rate[2] = { 2400, 2400 }; speed_t sp[2] = { B2400, B2400 }; int i, k, x, r, fd[2] = { 0, 1 }; struct termios keep; char w[60];
    env_reset(0); for (k = 0; k < 2; k++) { h[k] = mbus_context_serial(k ? "/dev/sim" : "/dev/sim2"); MC_CHECK(h[k] && mbus_connect(h[k]) == 0, "connecting failed"); fd[k] = E.n_fd - 1; }
    for (i = 0; i < n; i++) {
        k = op[i] / 10; x = op[i] % 10; keep = E.fd_tc[fd[!k]]; mc_trans(1);
        if (x < 8) { r = mbus_serial_set_baudrate(h[k], R[x].r); MC_CHECK(r == 0, "%ld baud refused", R[x].r); rate[k] = R[x].r; sp[k] = R[x].s; }
        else if (x == 8) MC_CHECK(mbus_serial_set_baudrate(h[k], 1234) != 0, "1234 baud accepted");
        else { MC_CHECK(mbus_disconnect(h[k]) == 0 && mbus_connect(h[k]) == 0, "reopening failed"); fd[k] = E.n_fd - 1; rate[k] = 2400; sp[k] = B2400; }
        MC_CHECK(!memcmp(&keep, &E.fd_tc[fd[!k]], sizeof keep), "step %d on one line alters the other", i);
        for (r = 0; r < 2; r++) { struct termios last = E.tcset; E.tcset = E.fd_tc[fd[r]]; snprintf(w, sizeof w, "line %d after step %d", r, i); line_ok(rate[r], sp[r], w); E.tcset = last; }
        { int st[4] = { 55, k, rate[0], rate[1] }; mc_state(st, sizeof st); }
    }
    mc_trace(1); mc_outcome("two lines"); for (k = 0; k < 2; k++) { mbus_disconnect(h[k]); mbus_context_free(h[k]); }
}
void mc_main(void)
{
    int ix[3], i, j, f; long b;
    mc_section("rate sequences"); for (j = 0; j < 3; j++) for (f = 0; f <= 12; f++) { int z[1] = {0}, en = j == 1 ? EINTR : j == 2 ? EAGAIN : 0; if (en && !f) continue; if (mc_case()) run(0, z, f, en); for (ix[0] = 0; ix[0] < 8; ix[0]++) { if (mc_case()) run(1, ix, f, en); for (ix[1] = 0; ix[1] < 8; ix[1]++) { if (mc_case()) run(2, ix, f, en); for (ix[2] = 0; ix[2] < 8; ix[2]++) if (mc_case()) run(3, ix, f, en); } } }
    mc_section("two lines"); { int q, n = mc_thorough ? 4 : 3, all = mc_thorough ? 160000 : 8000; for (q = 0; q < all; q++) if (mc_case()) { int op[4], d[2] = { q, 66 }; for (j = q, i = 0; i < n; i++, j /= 20) op[i] = j % 20; mc_input(d, sizeof d); mc_note("operations %d %d %d of 20", op[0], op[1], op[2]); two(op, n); } }
    mc_section("unsupported rates");
    for (b = -10; b < 40000; b++) { for (i = j = 0; i < 8; i++) j |= R[i].r == b; if (j || !mc_case()) continue;
        { mbus_handle *h = line_open(0, -1); struct termios t = E.tcset; int k = E.tcset_n, r; mc_input(&b, sizeof b); r = mbus_serial_set_baudrate(h, b); MC_CHECK(r != 0, "%ld baud accepted", b); MC_CHECK(!memcmp(&t, &E.tcset, sizeof t), "refused rate %ld altered the line", b); mc_trans(1);
          r = mbus_serial_set_baudrate(h, 9600); MC_CHECK(r == 0, "9600 baud refused after a refused rate"); line_ok(9600, B9600, "after a refused rate"); line_close(h); } }
    { static const long x[] = { 50, 110, 57600, 115200, 230400, (1L << 32) + 2400, (1L << 32) + 300, -2400 }; for (i = 0; i < 8; i++) if (mc_case()) { mbus_handle *h = line_open(0, -1); mc_input(&x[i], 8); MC_CHECK(mbus_serial_set_baudrate(h, x[i]) != 0, "%ld baud accepted", x[i]); line_close(h); } }
    mc_section("tcp time-outs");
    for (i = 0; i < 400 + 64; i++) if (mc_case()) {
        double s = i < 200 ? i * 0.25 : i < 400 ? (i - 200) * 0.001953125 : i < 432 ? (double)(1L << (i - 400) % 31) * 1.5 : 1.0 / (1L << (i - 432) % 20) * 5 + (i >= 452 ? 86400.0 * (i - 451) : 0); mbus_handle *h; long us = (long)s * 1000000L + (long)((s - (long)s) * 1000000); mc_input(&i, 4); mc_note("%f s", s);
        if (s == 0) { continue; }
        MC_CHECK(mbus_tcp_set_timeout_set(s) == 0, "time-out %f refused", s);
        h = line_open(1, -1); MC_CHECK(!(E.fd_fl[E.n_fd - 1] & O_NONBLOCK), "reads do not wait: the connection is non-blocking"); MC_CHECK(E.saw_rcv && E.saw_snd && E.rcvtimeo_us == us && E.sndtimeo_us == us, "time-out %f s set as %ld/%ld us", s, E.rcvtimeo_us, E.sndtimeo_us); line_close(h);
        MC_CHECK(mbus_tcp_set_timeout_set(-s) != 0, "negative time-out accepted");
        h = line_open(1, -1); MC_CHECK(E.rcvtimeo_us == us, "refused time-out took effect"); line_close(h); mbus_tcp_set_timeout_set(4); mc_trans(2);
    }
    if (mc_case()) { mbus_handle *h = line_open(1, -1); mc_input("d", 1); MC_CHECK(E.saw_rcv && E.rcvtimeo_us > 0 && E.saw_snd && E.sndtimeo_us > 0, "no time-out by default"); line_close(h); }
    for (f = 1; f <= 2; f++) if (mc_case()) { mbus_handle *h; int r; mc_input(&f, 4); env_reset(1); h = mbus_context_tcp("g", 1); fault_at = f; fault_seq = 0; fault_what[0] = 0; E.fault = fault; r = mbus_connect(h); if (fault_what[0]) MC_CHECK(r != 0, "connecting succeeded although the time-out could not be set"); if (!r) mbus_disconnect(h); MC_CHECK(E.n_open_now == 0, "descriptor leaked"); mbus_context_free(h); }
    mc_section("absent arguments"); if (mc_case()) { mc_input("a", 1); MC_CHECK(mbus_serial_set_baudrate(NULL, 2400) != 0, "rate set on nothing"); }
}
