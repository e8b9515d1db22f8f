/* P32: the programs that configure a meter - every history of line answers, address, option and failing step.
 * TOOL 1 set-address, 2 switch-baudrate, 3 serial select, 4 tcp select, 5 application reset */
#include "prog.h"
#define TCP (TOOL >= 4)
#define SELECT (TOOL == 3 || TOOL == 4)
static int second, want_addr, debug, wrong_args, fix[4], refuse, sel_may, maybe, confirmed, newa, sub, early; static long baud, target; static char addr_s[64], par_s[64], line_s[300], found[40];
enum { ST_INIT, ST_NEW, ST_SEL, ST_CMD, ST_REQ }; static int stage;
/* what the program receives next: the echo of what it sent is no answer */
static void answer_is(rxref *x) { ref_receive(TCP, E.rx_h, x); if (!x->verdict && x->f.type != RT_ACK && (x->f.c & 0x40)) { int u = x->consumed_items; ref_receive(TCP, E.rx_h + u, x); } }
static int pick(const char *w, int which, const uint8_t *b, int n) { int k = fix[which] >= 0 ? fix[which] : mc_choose(NS), st[4] = { which, k, TOOL, second }; if (E.rx_h < E.rx_t) maybe = 1; H(" %s:%s", w, sn[k]); mc_trans(1); mc_state(st, sizeof st); put_answer(k, b, n); return k; }
static void need_tel(const uint8_t *b, int n, const uint8_t *e, int en, const char *w) { MC_CHECK(n == en && !memcmp(b, e, n), "transmitted %s, expected %s %s (%s)", mc_hex(b, n), w, mc_hex(e, en), hist); }
static void bus(const uint8_t *b, int n)
{
    uint8_t e[40], d[3]; int en, k, v; rxref x; if (trouble) return;
    if (TOOL == 1 && stage == ST_INIT && p_init_ping(b, n)) return;
    if (TOOL == 1 && stage == ST_INIT) {
        MC_CHECK(newa >= 0, "transmitted %s for the new address \"%s\"", mc_hex(b, n), par_s); stage = ST_NEW;
        en = mk_short(e, 0x40, newa); need_tel(b, n, e, en, "a test of the new address"); pick("new address", 0, b, n); answer_is(&x); if (x.verdict != MBUS_RECV_RESULT_TIMEOUT) finish("the new address is in use"); return;
    }
    if (SELECT && stage == ST_INIT) { MC_CHECK(second, "transmitted %s for \"%s\"", mc_hex(b, n), addr_s); stage = ST_SEL; en = ref_select(e, addr_s); need_tel(b, n, e, en, "the selection"); pick("select", 1, b, n); answer_is(&x); if (x.verdict || x.f.type != RT_ACK) finish("the selection was not confirmed"); return; }
    if (SELECT) { stage = ST_REQ; en = mk_short(e, 0x5B, 0xFD); need_tel(b, n, e, en, "the request"); pick("request", 2, b, n); answer_is(&x); finish("the answer has been given");
        if (!x.verdict && x.f.type == RT_LONG && x.f.ci == 0x72 && x.f.n >= 12 && !(x.f.c & 0x40)) { const uint8_t *h = x.f.d; confirmed = 1; sprintf(found, "%02X%02X%02X%02X%02X%02X%02X%02X", h[3], h[2], h[1], h[0], h[4], h[5], h[6], h[7]); sprintf(line_s, "Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n", addr_s, found); } return; }
    MC_CHECK(want_addr >= 0, "transmitted %s for address \"%s\"", mc_hex(b, n), addr_s);
    if (second && stage < ST_SEL) { stage = ST_SEL; en = ref_select(e, addr_s); need_tel(b, n, e, en, "the selection"); k = pick("select", 1, b, n); v = sel_verdict(TCP, k); if (!(v & VS)) finish("the selection was not confirmed"); sel_may = v != VS; return; }
    MC_CHECK(stage != ST_CMD, "more than one command (%s)", hist); stage = ST_CMD; MC_CHECK(!refuse, "transmitted %s for \"%s\"", mc_hex(b, n), par_s);
    if (TOOL == 1) { d[0] = 1; d[1] = 0x7A; d[2] = newa; en = mk_long(e, 0x53, want_addr, 0x51, d, 3); }
    else if (TOOL == 2) { static const long B[] = { 300, 600, 1200, 2400, 4800, 9600, 19200, 38400 }; for (k = 0; k < 8 && B[k] != target; k++) ; en = mk_long(e, 0x53, want_addr, 0xB8 + k, d, 0); }
    else { d[0] = sub; en = mk_long(e, 0x53, want_addr, 0x50, d, sub >= 0); }
    need_tel(b, n, e, en, "the command"); pick("command", 2, b, n); answer_is(&x); confirmed = !x.verdict && x.f.type == RT_ACK; finish("the answer has been given");
}
static void setup(void) { p_setup(bus); stage = ST_INIT; sel_may = maybe = confirmed = 0; }
static const char *SUCC[] = { "Set primary address", "Switched baud rate", "Recieved a reply", "Successful reset" };
static void check(void)
{
    int i, ok = confirmed && !trouble, failed = M.failed, succ, any = 0; const char *p; size_t l; M.on = 0;
    if (TOOL == 1) sprintf(line_s, "Set primary address of device to %d\n", newa); else if (TOOL == 2) sprintf(line_s, "Switched baud rate of device to %ld\n", target); else if (TOOL == 5) { if (sub >= 0) sprintf(line_s, "Successful reset device (Subcode: %d)\n", sub); else strcpy(line_s, "Successful reset device\n"); }
    for (i = 0; i < 4; i++) any |= strstr(tool_out, SUCC[i]) != NULL; l = strlen(line_s); p = l ? strstr(tool_out, line_s) : NULL; succ = p && (p == tool_out || p[-1] == '\n');
    if (wrong_args) { MC_CHECK(E.tx_cnt == 0, "transmitted with wrong arguments"); MC_CHECK(wrong_args == 2 || tool_st != 0, "wrong arguments accepted"); MC_CHECK(!any, "success reported for wrong arguments"); return; }
    MC_CHECK(any == succ, "reported \"%.200s\", to be reported is \"%s\" (%s)", tool_out, line_s, hist);
    MC_CHECK(succ == (tool_st == 0), "status %d, %s (%s)", tool_st, succ ? "success reported" : "no success reported", hist);
    MC_CHECK(!succ || (ok && !refuse), "success reported although nothing was confirmed (%s)", hist);
    if (failed) { mc_outcome(succ ? "memory: confirmed" : "memory: failed"); return; }
    if (!maybe && !(sel_may && !done)) MC_CHECK(succ == (ok && !refuse), "status %d although the meter confirmed (%s): %.200s", tool_st, hist, tool_err);
    if (!trouble) { if (!refuse && !sel_may) { MC_CHECK(calls > 0, "never connected"); MC_CHECK(done, "gave up early (%s)", hist); } if (E.n_open_now || calls) p_line(TCP, succ, baud); }
    mc_outcome(succ ? "confirmed" : refuse ? "refused" : trouble ? "failing step" : "not confirmed"); mc_trace(1);
}
static void prep(void) { tool_to(0); second = debug = wrong_args = faults_on = oom_at = refuse = 0; fix[0] = S_SILENT; fix[1] = S_ACK; fix[2] = SELECT ? S_LONG : S_ACK; baud = 9600; target = 2400; newa = 9; sub = -1; want_addr = 5; strcpy(addr_s, "5"); strcpy(par_s, TOOL == 1 ? "9" : TOOL == 2 ? "2400" : ""); line_s[0] = 0; }
static void addr(const char *s, int v) { strcpy(addr_s, s); want_addr = v; second = 0; if (v < 0) refuse = 1; }
static void saddr(const char *s) { strcpy(addr_s, s); want_addr = 0xFD; second = 1; }
static void par(const char *s, long v) { strcpy(par_s, s); if (TOOL == 1) newa = v; else if (TOOL == 2) target = v; else sub = v; if (v < 0) refuse = 1; }
static void go(int form) { ac = 0; A("prog"); debug = (TOOL == 1 || TOOL == 5) && (form & 1); if (debug) A("-d"); if (!TCP && (form & 2)) { A("-b"); AN("%ld", baud); } if (TCP) { A(tool_host); A(tool_port); } else A(tool_dev); A(addr_s); if (!SELECT && (TOOL != 5 || par_s[0])) A(par_s); }
static void goe(int form, int devs) { go(form); mc_explore_begin(devs); while (mc_explore_next()) { mc_note("%s %s", addr_s, par_s); tool_run(av, TCP, setup, check); mc_eval(1); } }
#define IN(...) do { int d_[] = { __VA_ARGS__ }; char b_[300]; memcpy(b_, d_, sizeof d_); memcpy(b_ + sizeof d_, addr_s, strlen(addr_s)); memcpy(b_ + sizeof d_ + strlen(addr_s), par_s, strlen(par_s)); mc_input(b_, sizeof d_ + strlen(addr_s) + strlen(par_s)); } while (0)
static const char *SEC[] = { "12345678FFFFFFFF", "1234567840240107", "FFFFFFFFFFFFFFFF", "abcdef09ABCDEF12", "0000000000000000", "1234567890123456" };
static const long BD[] = { 300, 600, 1200, 2400, 4800, 9600, 19200, 38400 };
void mc_main(void)
{
    int i, j, k, T = mc_thorough; char s[40];
    mc_section("every answer"); for (i = 0; i < 8; i++) for (j = 0; j < 4; j++) if (mc_case()) { prep(); if (i < 2 && SELECT) continue; if (TOOL == 2 && i >= 2) continue; if (i < 2) addr(i ? "250" : "5", i ? 250 : 5); else saddr(SEC[i - 2]); if (TOOL == 5 && (j & 2)) par(j & 1 ? "16" : "0", j & 1 ? 16 : 0); if (TOOL == 1) par(j & 1 ? "0" : "250", j & 1 ? 0 : 250); IN(1, i, j); fix[0] = fix[1] = fix[2] = -1; goe(j, 0); }
    mc_section("every answer with failing steps"); for (i = 0; i < 6; i++) if (mc_case()) { prep(); if (i < 2 && SELECT) continue; if (TOOL == 2 && i >= 2) continue; if (i < 2) addr(i ? "0" : "254", i ? 0 : 254); else saddr(SEC[i - 2]); IN(2, i); fix[0] = fix[1] = fix[2] = -1; faults_on = 1; goe(i, T ? 2 : 1); }
    mc_section("failing steps"); for (i = 0; i < 6; i++) if (mc_case()) { prep(); if (i < 2 && SELECT) continue; if (TOOL == 2 && i >= 2) continue; if (i < 2) addr("17", 17); else saddr(SEC[i - 2]); IN(3, i); faults_on = 1; goe(i, T ? 5 : 4); }
    mc_section("primary addresses"); for (i = 0; i < 256; i++) for (k = 0; k < 3; k++) if (mc_case()) { if (SELECT) continue; prep(); sprintf(s, "%d", i); addr(s, i); IN(4, i, k); fix[2] = k == 0 ? S_ACK : k == 1 ? S_SILENT : S_LONG; goe(0, 0); }
    mc_section("secondary addresses"); for (j = 0; j < 16; j++) for (k = 0; k < 22; k++) if (mc_case()) { if (TOOL == 2) continue; prep(); saddr(SEC[1]); addr_s[j] = "0123456789abcdefABCDEF"[k]; IN(5, j, k); goe(k & 3, 0); }
    mc_section("texts that are no address"); for (i = 0; i < N_NOADDR + 6; i++) for (k = 0; k < 4; k++) if (mc_case()) { prep(); if (i >= N_NOADDR && (TOOL != 2 || SEC[i - N_NOADDR][0] == 48)) continue; addr(i < N_NOADDR ? NOADDR[i] : SEC[i - N_NOADDR], -1); IN(6, i); goe(k, 0); }
    if (SELECT) { mc_section("primary addresses are refused"); for (i = 0; i < 256; i++) if (mc_case()) { prep(); sprintf(s, "%d", i); addr(s, -1); IN(7, i); goe(i & 2, 0); } }
    if (TOOL == 1) {
        mc_section("new addresses"); for (i = 0; i <= 250; i++) for (j = 0; j < 3; j++) for (k = 0; k < (T ? NS : 4); k++) if (mc_case()) { prep(); if (j) saddr(SEC[j]); sprintf(s, "%d", i); par(s, i); IN(8, i, j, k); fix[0] = T ? k : (int[]){ S_SILENT, S_ACK, S_TRUNC, S_GARBAGE }[k]; fix[2] = j ? S_ACK : -1; goe(i & 3, 0); }
        mc_section("new addresses that are none"); for (i = 0; i < N_NOADDR + 300; i++) for (j = 0; j < 2; j++) if (mc_case()) { prep(); if (j) saddr(SEC[0]); if (i < N_NOADDR) par(NOADDR[i], -1); else { k = i - N_NOADDR; sprintf(s, "%ld", k < 100 ? 251L + k : k < 200 ? 99L - k : k < 250 ? 65536L + k - 200 : 4294967296L + k - 250); par(s, -1); } IN(9, i, j); goe(i & 3, 0); }
    }
    if (TOOL == 2) {
        mc_section("rates"); for (i = 0; i < 8; i++) for (j = 0; j < 9; j++) for (k = 0; k < NS; k++) if (mc_case()) { prep(); sprintf(s, "%ld", BD[i]); par(s, BD[i]); if (j < 8) baud = BD[j]; IN(10, i, j, k); fix[2] = k; goe(j < 8 ? 2 : 0, 0); }
        mc_section("rates that are none"); for (i = 0; i < 40000; i += T ? 1 : 10) { for (k = 0; k < 8 && BD[k] != i; k++) ; if (k == 8 && mc_case()) { prep(); sprintf(s, "%d", i); par(s, -1); IN(11, i); goe(0, 0); } }
        for (i = 0; i < 10; i++) if (mc_case()) { static const char *w[] = { "x", "", "-300", "115200", "57600", "4294967596", "-2400", "99999999999999999999", "96 00", "0x2400" }; prep(); par(w[i], -1); IN(12, i); goe(0, 0); }
    }
    if (TOOL == 5) {
        mc_section("subcodes"); for (i = 0; i < 256; i++) for (j = 0; j < 4; j++) for (k = 0; k < (T ? NS : 3); k++) if (mc_case()) { prep(); if (j & 2) saddr(SEC[0]); sprintf(s, "%d", i); par(s, i); IN(13, i, j, k); fix[2] = T ? k : (int[]){ S_ACK, S_SILENT, S_LONG }[k]; goe(j & 1, 0); }
        mc_section("subcodes that are none"); for (i = 0; i < N_NOADDR + 200; i++) for (j = 0; j < 2; j++) if (mc_case()) { prep(); if (i < N_NOADDR) { if (!NOADDR[i][0]) continue; par(NOADDR[i], -1); } else { k = i - N_NOADDR; sprintf(s, "%ld", k < 100 ? 256L + k : k < 150 ? 99L - k : 4294967296L + k - 150); par(s, -1); } if (j) saddr(SEC[0]); refuse = 1; IN(14, i, j); goe(i + j & 1, 0); }
    }
    mc_section("options"); for (i = 0; i < 4; i++) for (j = 0; j < 8; j++) for (k = 0; k < 3; k++) if (mc_case()) { prep(); if (SELECT || (k && TOOL != 2)) saddr(SEC[k]); if (i & 2) baud = BD[j]; IN(15, i, j, k); goe(i, 0); }
    mc_section("destinations"); for (i = 0; i < N_DEST; i++) for (j = 0; j < 4; j++) for (k = 0; k < 2; k++) if (mc_case()) { prep(); if (SELECT || (k && TOOL != 2)) saddr(SEC[k]); if (k && TOOL == 5) par("16", 16); IN(20, i, j, k); tool_to(i); if (j & 2) baud = 4800; go(j); goe(j, 0); }
    mc_section("wrong arguments"); { static const char *bad[][9] = { { 0 }, { "a", 0 }, { "-d", 0 }, { "a", "b", "c", "d", "e", "f", "g", "h", 0 }, { "-q", "-r", "/dev/sim", "5", "6", "7", "8", 0 } };
        for (i = 0; i < 5; i++) if (mc_case()) { prep(); IN(16, i); wrong_args = 2; ac = 0; A("prog"); for (j = 0; bad[i][j]; j++) A(bad[i][j]); mc_explore_begin(0); while (mc_explore_next()) tool_run(av, TCP, setup, check); }
        if (!TCP) for (i = 0; i < 5; i++) if (mc_case()) { static const char *w[] = { "0", "1234", "-9600", "115200", "x" }; prep(); if (SELECT) saddr(SEC[0]); IN(17, i); wrong_args = 1; ac = 0; A("prog"); A("-b"); A(w[i]); A("/dev/sim"); A(addr_s); if (!SELECT) A(par_s); mc_explore_begin(0); while (mc_explore_next()) tool_run(av, TCP, setup, check); }
        if (TCP) for (i = 0; i < 4; i++) if (mc_case()) { static const char *w[] = { "-1", "65536", "99999", "9999999999" }; prep(); if (SELECT) saddr(SEC[0]); IN(18, i); wrong_args = 1; ac = 0; A("prog"); A("gateway"); A(w[i]); A(addr_s); mc_explore_begin(0); while (mc_explore_next()) tool_run(av, TCP, setup, check); } }
    mc_section("memory exhaustion"); for (i = 1; i <= (T ? 40 : 20); i++) for (k = 0; k < 4; k++) if (mc_case()) { prep(); if (SELECT || (k && TOOL != 2)) saddr(SEC[k]); IN(19, i, k); oom_at = i; fix[2] = k == 3 ? -1 : fix[2]; goe(k, 0); }
}
