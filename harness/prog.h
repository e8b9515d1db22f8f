/* common parts of the harnesses for the command line programs */
#ifndef PROG_H
#define PROG_H
#include "tool.h"
#include "sel.h"
static char args[12][1200], *av[13]; static int ac;
static void A(const char *s) { snprintf(args[ac], sizeof args[0], "%s", s); av[ac] = args[ac]; ac++; av[ac] = NULL; }
static void AN(const char *f, long v) { char b[40]; sprintf(b, f, v); A(b); }
static int done, calls, faults_on, pings, trouble, oom_at; static const char *done_why; static char hist[900]; static int ho;
#define H(...) do { if (ho < 700) ho += snprintf(hist + ho, sizeof hist - ho, __VA_ARGS__); } while (0)
static void finish(const char *why) { done = 1; done_why = why; }
/* a step of connecting that fails */
static int p_fault(const char *w) { if (!strcmp(w, "close") || !strcmp(w, "tcdrain") || !strcmp(w, "tcgetattr")) return 0; calls++; if (!faults_on || !mc_choose_dev(2)) return 0; H(" [%s fails]", w); trouble = 1; finish(w); return 1; }
static int p_wout(int len) { MC_CHECK(!done, "transmission after the end: %s (%s)", done_why, hist); if (!faults_on || !mc_choose_dev(3)) return W_FULL; H(" [transmission fails]"); trouble = 1; finish("send failure"); switch (mc_choose(3)) { case 1: rx_bytes("\xE5", 1); break; case 2: { uint8_t t[40], d[15] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0, 0, 0, 0, 1, 0x13, 5 }; rx_bytes(t, mk_long(t, 8, 5, 0x72, d, 15)); } } return mc_choose(2) ? W_ERR : len / 2; }
static void p_setup(void (*bus)(const uint8_t *, int)) { E.on_write = bus; E.write_outcome = p_wout; E.fault = p_fault; E.read_budget = 300000; done = calls = pings = trouble = ho = 0; hist[0] = 0; if (oom_at) { mem_begin(0xA5); M.fail_at = oom_at; } }
/* the master may initialise the line before anything else */
static int p_init_ping(const uint8_t *b, int n) { uint8_t e[8]; if (mk_short(e, 0x40, 0xFD) != n || memcmp(b, e, n)) return 0; pings++; MC_CHECK(pings < 10, "endless initialisation"); if (faults_on) switch (mc_choose_dev(4)) { case 1: rx_bytes("\xE5", 1); H(" init-ack"); break; case 2: rx_bytes("\x33\x68\x03", 3); H(" init-garbage"); break; case 3: rx_bytes(b, n); H(" init-echo"); break; } return 1; }
static void p_line(int tcp, int ok, long baud)
{
    int i; static const struct { long b; speed_t s; } B[] = { { 300, B300 }, { 600, B600 }, { 1200, B1200 }, { 2400, B2400 }, { 4800, B4800 }, { 9600, B9600 }, { 19200, B19200 }, { 38400, B38400 } };
    if (!tcp) { MC_CHECK(!strcmp(E.open_path, tool_dev), "opened %s", E.open_path); if (E.tx_cnt) for (i = 0; i < 8; i++) if (B[i].b == baud) MC_CHECK(cfgetospeed(&E.tcset) == B[i].s && cfgetispeed(&E.tcset) == B[i].s, "line not set to %ld baud", baud); }
    else MC_CHECK(!strcmp(E.gai_host, tool_host) && !strcmp(E.gai_port, tool_port), "connected to %s:%s", E.gai_host, E.gai_port);
    if (ok) MC_CHECK(E.n_open_now == 0, "connection left open"); MC_CHECK(E.bad_fd == E.neg_fd, "%s, which is not open", E.bad_fd_what); MC_CHECK(!M.bad_free, "memory released that was not allocated");
}
/* address texts that name no meter */
static const char *NOADDR[] = { "x", "", "abc", "-1", "-5", "256", "300", "1000", "4294967301", "99999999999999999999", "0x5", "5x", "5 6", "12345678FFFFFFF", "FFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFFF", "12345678FFFFFFFG", "G2345678FFFFFFFF", "12345678 FFFFFFF", "12345678FFFFFFFF0", "5.5", "--5", "1e1", "0FFFFFFFFFFFFFFFF" };
#define N_NOADDR ((int)(sizeof NOADDR / sizeof *NOADDR))
#endif
