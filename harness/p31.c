/* P31: the readout programs and raw send - every history of line answers, address, option and failing step. */
#include "prog.h"
#include "frames.h"
#define TCP (TOOL == 2 || TOOL >= 4)
#define MULTI (TOOL == 3 || TOOL == 4)
static int second, want_addr, debug, wrong_args, sel_fix, req_fix, sel_may, maxf; static char addr_s[64]; static long baud; static const uint8_t *ans; static int ansn;
static struct { mbus_frame f[64]; int n, ok; } W;
enum { ST_INIT, ST_SEL, ST_REQ }; static int stage;
static void keep(const rframe *r) { uint8_t b[300]; int n = ref_pack(r, b); if (W.n < 64) { memset(&W.f[W.n], 0, sizeof W.f[0]); if (mbus_parse(&W.f[W.n], b, n)) mc_fail("harness telegram"); W.f[W.n].timestamp = E.now; } W.n++; }
static void want_rx(void) { rxref x; ref_receive(TCP, E.rx_h, &x); if (!x.verdict && x.f.type != RT_ACK && (x.f.c & 0x40)) { int u = x.consumed_items; ref_receive(TCP, E.rx_h + u, &x); } W.n = 0; W.ok = x.verdict == 0; if (W.ok) keep(&x.f); finish("the answer has been given"); }
/* multi-telegram answers */
enum { A_LAST, A_MORE, A_SILENT, A_BADSUM, A_ACK, A_FIXED, A_ERRTEL, A_CTRL, A_CUT, A_GARBAGE, A_EIO, A_EOF, A_ECHO, NA };
static const char *an[NA] = { "last", "more", "silence", "bad checksum", "ack", "fixed", "error telegram", "control", "cut record", "garbage", "EIO", "EOF", "echo+more" };
static int fcb, retry, sends, m_idx, m_fcb, m_free, m_depth, m_long;
static void m_retry(void) { if (++retry > 3) { W.ok = 0; finish("retries exhausted"); } }
static int tel(uint8_t *o, int kind, int idx) { uint8_t d[64]; int n = 12; static const uint8_t h[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0, 0, 0, 0 }; if (kind == A_FIXED) { uint8_t x[16] = { 1, 2, 3, 4, idx, 0, 0x29, 0x29, idx, 0, 0, 0, 5, 0, 0, 0 }; return mk_long(o, 8, 5, 0x73, x, 16); } if (kind == A_ERRTEL) { d[0] = 3; return mk_long(o, 8, 5, 0x70, d, 1); } if (kind == A_CTRL) return mk_long(o, 8, 5, 0x72, d, 0); memcpy(d, h, 12); d[8] = idx; d[n++] = 1; d[n++] = 0x13; d[n++] = idx; if (kind == A_CUT) { d[n++] = 4; d[n++] = 0x13; d[n++] = 0x1F; } if (kind == A_MORE || kind == A_BADSUM) { d[n++] = 0x1F; if (idx & 1) { d[n++] = 0xAA; d[n++] = idx; } } return mk_long(o, 8, 5, 0x72, d, n); }
static int m_big; static int big(uint8_t *o, int f, int sz) { uint8_t d[260]; int n = 12; static const uint8_t h[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0, 0, 0, 0 }; memcpy(d, h, 12); if (sz > 240) sz = 240; sz += 12; if (f & 1) while (n + 5 < sz) { d[n++] = 0x0D; d[n++] = 0x7C; d[n++] = 1; d[n++] = '&'; d[n++] = 0; } else while (n + 3 < sz) { d[n++] = 0; d[n++] = 0x13; } if (f & 2) d[n++] = 0x1F; return mk_long(o, 8, 9, 0x72, d, n); }
static void multi(const uint8_t *b, int n)
{
    uint8_t e[8], t[300]; int en = mk_short(e, 0x5B | (fcb ? 0x20 : 0), want_addr), k, m; rframe f; int need, loose;
    MC_CHECK(n == en && !memcmp(b, e, n), "request %d is %s, expected %s (%s)", sends, mc_hex(b, n), mc_hex(e, en), hist); sends++;
    if (m_fcb != !!(b[1] & 0x20)) { if (m_fcb >= 0) m_idx++; m_fcb = !!(b[1] & 0x20); }
    if (m_long) k = m_idx < m_long ? A_MORE : A_LAST; else k = sends >= m_depth ? A_LAST : m_free ? mc_choose(NA) : mc_choose_dev(NA);
    if (!TCP && k == A_EOF) k = A_SILENT; H(" %s", an[k]); mc_trans(1); { int st[5] = { fcb, retry, W.n, k, maxf }; mc_state(st, sizeof st); }
    switch (k) { case A_SILENT: m_retry(); return; case A_EIO: rx_event(RX_ERR); W.ok = 0; finish("EIO"); return; case A_EOF: rx_event(RX_EOF); W.ok = 0; finish("EOF"); return; case A_GARBAGE: rx_bytes("\x55\x55", 2); m_retry(); return; case A_ACK: rx_bytes("\xE5", 1); W.ok = 0; finish("ACK"); return; case A_BADSUM: m = tel(t, k, m_idx); t[m - 2] ^= 0x10; rx_bytes(t, m); m_retry(); return; case A_ECHO: rx_bytes(b, n); k = A_MORE; break; }
    m = m_big && k <= A_MORE ? big(t, m_big - 1 + 2 * (k == A_MORE), 240) : tel(t, k, m_idx); rx_bytes(t, m); if (ref_parse(t, m, &f, &need, &loose)) mc_fail("harness telegram"); keep(&f); retry = 0; W.ok = 0;
    if (k == A_CTRL || k == A_CUT) { finish("not decodable"); return; }
    if (k != A_MORE || (maxf && W.n >= maxf)) { W.ok = 1; finish("the answer is complete"); return; }
    fcb = !fcb;
}
static void bus(const uint8_t *b, int n)
{
    uint8_t e[40]; int en, k, v; if (trouble) return;
    if (TOOL != 5 && stage == ST_INIT && p_init_ping(b, n)) return;
    MC_CHECK(want_addr >= 0, "transmitted %s for address \"%s\"", mc_hex(b, n), addr_s);
    if (second && stage == ST_INIT) {
        stage = ST_SEL; en = ref_select(e, addr_s); MC_CHECK(n == en && !memcmp(b, e, n), "transmitted %s, expected the selection %s", mc_hex(b, n), mc_hex(e, en));
        k = sel_fix >= 0 ? sel_fix : mc_choose(NS); H(" select:%s", sn[k]); mc_trans(1); { int st[3] = { 77, k, TOOL }; mc_state(st, sizeof st); } put_answer(k, b, n); v = sel_verdict(TCP, k); if (!(v & VS)) finish("selection failed"); sel_may = v != VS; return;
    }
#if TOOL == 5
    if (stage != ST_REQ) { MC_CHECK(n == ansn && !memcmp(b, ans, n), "transmitted %s, the file holds %s", mc_hex(b, n), mc_hex(ans, ansn)); }
#endif
    if (MULTI) { stage = ST_REQ; multi(b, n); return; }
    MC_CHECK(stage != ST_REQ, "more than one request (%s)", hist); stage = ST_REQ;
#if TOOL != 5
    en = mk_short(e, 0x5B, want_addr); MC_CHECK(n == en && !memcmp(b, e, n), "request is %s, expected %s (%s)", mc_hex(b, n), mc_hex(e, en), hist);
    if (ans) { H(" given answer"); rx_bytes(ans, ansn); } else
#endif
    { k = req_fix >= 0 ? req_fix : mc_choose(NS); H(" %s", sn[k]); { int st[3] = { 78, k, TOOL }; mc_state(st, sizeof st); } put_answer(k, b, n); } mc_trans(1); want_rx();
}
static void setup(void) { p_setup(bus); stage = ST_INIT; W.n = W.ok = 0; sel_may = 0; fcb = 1; retry = sends = m_idx = 0; m_fcb = -1; }
#if TOOL == 5
static int file_ok;
#endif
static void check(void)
{
    char *doc = NULL; int i, ok, failed = M.failed; M.on = 0; mc_note("%s [%s]", args[ac - 1], hist);
    if (W.ok && !trouble && W.n) { for (i = 0; i + 1 < W.n && i < 63; i++) W.f[i].next = &W.f[i + 1];
        if (TOOL == 5) doc = strdup("");
        else if (MULTI) doc = mbus_frame_xml(&W.f[0]); else { mbus_frame_data *d = mbus_frame_data_new(); if (mbus_frame_data_parse(&W.f[0], d) == 0) doc = mbus_frame_data_xml(d); } }
    ok = doc != NULL;
    MC_CHECK(!strstr(tool_out, "<MBusData") || ok, "a document is printed, status %d (%s): %.300s", tool_st, hist, tool_out);
    if (wrong_args) { MC_CHECK(E.tx_cnt == 0, "transmitted with wrong arguments"); MC_CHECK(wrong_args == 2 || tool_st != 0, "wrong arguments accepted"); return; }
    if (failed) { MC_CHECK(tool_st != 0 || ok, "success although memory ran out"); if (tool_st != 0) { MC_CHECK(!strstr(tool_out, "<MBusData"), "a document is printed although the program failed"); mc_outcome("memory: failed"); return; } }
    MC_CHECK((tool_st == 0) == ok, "status %d, the line %s (%s)", tool_st, ok ? "delivered the answer" : "delivered no answer", hist);
    if (ok) { size_t l = strlen(doc), o = strlen(tool_out); if (debug) MC_CHECK(o >= l && !strcmp(tool_out + o - l, doc), "the document is not at the end of the output"); else if (strcmp(tool_out, doc)) { size_t k = 0; while (tool_out[k] && tool_out[k] == doc[k]) k++; mc_fail("printed \"%.150s\" where the answer is \"%.150s\" (%s)", tool_out + k, doc + k, hist); } }
    if (!trouble && !failed) { MC_CHECK(calls > 0, "never connected"); MC_CHECK(done || want_addr < 0
#if TOOL == 5
        || !file_ok
#endif
        , "gave up early (%s)", hist); p_line(TCP, ok, baud); } mc_outcome(ok ? "document" : trouble ? "failing step" : "no document"); mc_trace(1);
}
static void prep(void) { tool_to(0); second = debug = wrong_args = faults_on = oom_at = m_long = m_big = 0; sel_fix = S_ACK; req_fix = S_LONG; maxf = 16; baud = 9600; ans = NULL; m_free = 0; m_depth = 2; want_addr = -1; strcpy(addr_s, "5"); }
static void addr(const char *s, int v) { strcpy(addr_s, s); want_addr = v; second = 0; }
static void saddr(const char *s) { strcpy(addr_s, s); want_addr = 0xFD; second = 1; }
static void go(int form)    /* 1: -d, 2: -b, 4: -f */
{
    ac = 0; A("prog"); debug = form & 1; if (debug) A("-d"); if (!TCP && (form & 2)) { A("-b"); AN("%ld", baud); } if (MULTI && (form & 4)) { A("-f"); AN("%ld", maxf); } if (TCP) { A(tool_host); A(tool_port); } else A(tool_dev); A(addr_s);
}
#define IN(...) do { int d_[] = { __VA_ARGS__ }; char b_[200]; memcpy(b_, d_, sizeof d_); memcpy(b_ + sizeof d_, addr_s, strlen(addr_s)); mc_input(b_, sizeof d_ + strlen(addr_s)); } while (0)
static void run(void) { tool_run(av, TCP, setup, check); }
static void explore(int devs) { mc_explore_begin(devs); while (mc_explore_next()) { mc_note("%s", addr_s); run(); mc_eval(1); } }
#if TOOL != 5
void mc_main(void)
{
    static const char *SEC[] = { "12345678FFFFFFFF", "1234567840240107", "FFFFFFFFFFFFFFFF", "abcdef09ABCDEF12", "0000000000000000", "1234567890123456" }; static const long BD[] = { 300, 600, 1200, 2400, 4800, 9600, 19200, 38400 }; int i, j, k, T = mc_thorough; char s[40];
    mc_section("every answer"); for (i = 0; i < 8; i++) if (mc_case()) { prep(); if (i < 2) addr(i ? "250" : "5", i ? 250 : 5); else saddr(SEC[i - 2]); IN(1, i); sel_fix = req_fix = -1; m_free = 1; m_depth = i < 2 ? T ? 5 : 4 : 3; go(0); explore(0); }
    mc_section("every answer with failing steps"); for (i = 0; i < 4; i++) if (mc_case()) { prep(); if (i < 2) addr(i ? "0" : "254", i ? 0 : 254); else saddr(SEC[i - 2]); IN(2, i); sel_fix = -1; req_fix = -1; m_free = 1; m_depth = i < 2 ? T ? 4 : 3 : 2; faults_on = 1; go(0); explore(T ? 2 : 1); }
    mc_section("failing steps"); for (i = 0; i < 4; i++) if (mc_case()) { prep(); if (i & 1) saddr(SEC[i >> 1]); else addr("17", 17); IN(3, i); m_depth = 4; faults_on = 1; go(i); explore(T ? 4 : 3); }
    mc_section("primary addresses"); for (i = 0; i < 256; i++) if (mc_case()) { prep(); sprintf(s, "%d", i); addr(s, i); IN(4, i); go(0); explore(0); }
    mc_section("secondary addresses"); for (i = 0; i < 6; i++) if (mc_case()) { prep(); saddr(SEC[i]); IN(5, i); go(0); explore(0); } for (j = 0; j < 16; j++) for (k = 0; k < 22; k++) if (mc_case()) { prep(); saddr(SEC[1]); addr_s[j] = "0123456789abcdefABCDEF"[k]; IN(5, j, k); go(0); explore(0); }
    mc_section("texts that are no address"); for (i = 0; i < N_NOADDR; i++) for (k = 0; k < 2; k++) if (mc_case()) { prep(); addr(NOADDR[i], -1); IN(6, i); req_fix = S_LONG; go(k); explore(0); }
    mc_section("real telegrams"); for (i = 0; i < N_FRAMES; i++) for (k = 0; k < 4; k++) if (!MULTI && mc_case()) { prep(); if (k & 2) saddr(SEC[1]); else addr("7", 7); IN(7, i, k); ans = FRAMES[i].b; ansn = FRAMES[i].n; go(k & 1); explore(0); }
    mc_section("options"); for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) for (k = 0; k < 2; k++) if (mc_case()) { prep(); if (k) saddr(SEC[0]); else addr("9", 9); IN(8, i, j, k); if (i & 2) baud = BD[j]; if (i & 4) maxf = j; m_long = j + 1; go(i); explore(0); }
    mc_section("destinations"); for (i = 0; i < N_DEST; i++) for (j = 0; j < 8; j++) for (k = 0; k < 2; k++) if (mc_case()) { prep(); if (k) saddr(SEC[0]); else addr("9", 9); IN(15, i, j, k); tool_to(i); baud = 2400; if (!(j & 2)) baud = 9600; go(j); explore(0); }
    mc_section("largest documents"); for (i = 0; i < 24; i++) if (mc_case()) { prep(); addr("9", 9); IN(16, i); m_big = 1 + (i & 1); m_long = MULTI ? i / 2 : 0; if (!MULTI) { static uint8_t t[300]; ans = t; ansn = big(t, i & 1, i * 10); } maxf = i > 20 ? 0 : 16; go(i & 4); explore(0); }
    if (MULTI) { mc_section("long readouts"); for (i = 0; i <= 40; i++) for (j = 0; j <= 3; j++) if (mc_case()) { prep(); addr("9", 9); IN(9, i, j); maxf = j == 0 ? 16 : j == 1 ? 0 : j == 2 ? i + 1 : i ? i : 16; m_long = i; if (!i) m_depth = 1; go(j ? 4 : 0); explore(0); }
        mc_section("option order"); for (i = 0; i < 6; i++) if (mc_case()) { static const char *P[6] = { "dbf", "dfb", "bdf", "bfd", "fdb", "fbd" }; prep(); addr("9", 9); IN(10, i); baud = 2400; maxf = 2; m_long = 3; debug = 1; ac = 0; A("prog"); for (j = 0; j < 3; j++) { if (P[i][j] == 'd') A("-d"); else if (P[i][j] == 'b') { if (!TCP) { A("-b"); A("2400"); } } else { A("-f"); A("2"); } } if (TCP) { baud = 9600; A("gateway"); A("8000"); } else A("/dev/sim"); A("9"); explore(0); } }
    mc_section("wrong arguments"); { static const char *bad[][7] = { { 0 }, { "a", 0 }, { "-d", 0 }, { "a", "b", "c", "d", "e", "f", 0 }, { "-b", 0 }, { "-q", "/dev/sim", "5", "6", 0 }, { "-d", "-q", "-d", "-d", "-d", "5", 0 } };
        for (i = 0; i < 7; i++) if (mc_case()) { prep(); IN(11, i); wrong_args = 2; ac = 0; A("prog"); for (j = 0; bad[i][j]; j++) A(bad[i][j]); explore(0); }
        if (!TCP) for (i = 0; i < 5; i++) if (mc_case()) { static const char *w[] = { "0", "1234", "-9600", "115200", "x" }; prep(); IN(12, i); wrong_args = 1; ac = 0; A("prog"); A("-b"); A(w[i]); A("/dev/sim"); A("5"); explore(0); }
        if (TCP) for (i = 0; i < 4; i++) if (mc_case()) { static const char *w[] = { "-1", "65536", "99999", "9999999999" }; prep(); IN(13, i); wrong_args = 1; ac = 0; A("prog"); A("gateway"); A(w[i]); A("5"); explore(0); } }
    mc_section("memory exhaustion"); for (i = 1; i <= (T ? 120 : 40); i++) for (k = 0; k < 4; k++) if (mc_case()) { prep(); if (k & 1) saddr(SEC[0]); else addr("5", 5); IN(14, i, k); oom_at = i; req_fix = k & 2 ? S_FIXED : S_LONG; if (k & 2) m_long = 3; else m_depth = 1; go(0); explore(0); }
}
#else
#include <sys/mman.h>
#include <fcntl.h>
static FILE *old_in; static int use_stdin; static char text[5000]; static int textn;
static void setup5(void) { setup(); if (use_stdin) stdin = fmemopen(text, textn ? textn : 1, "r"); (void)old_in; }
static int hexf(char *o, const uint8_t *b, int n, int form) { int i, k = 0; for (i = 0; i < n; i++) k += sprintf(o + k, form & 1 ? "%02x" : "%02X", b[i]), k += sprintf(o + k, "%s", form / 2 == 0 ? " " : form / 2 == 1 ? "" : form / 2 == 2 ? "\n" : form / 2 == 3 ? (i % 16 == 15 ? "\r\n" : " ") : "\t "); return k; }
static void send5(void) { static int fd = -1; char p[64]; if (fd < 0) fd = memfd_create("telegram", 0); if (ftruncate(fd, 0) || pwrite(fd, text, textn, 0) != textn) mc_fail("scratch file"); sprintf(p, "/proc/self/fd/%d", fd); ac = 0; A("prog"); if (debug) A("-d"); A(tool_host); A(tool_port); A(addr_s); if (!use_stdin) A(p); mc_explore_begin(faults_on ? 2 : 0); while (mc_explore_next()) { mc_note("%.300s", text); lseek(fd, 0, SEEK_SET); tool_run(av, 1, setup5, check); mc_eval(1); } }
static void telegram(const uint8_t *b, int n, int form, int ok) { static uint8_t a[300]; memcpy(a, b, n < 300 ? n : 300); ans = a; ansn = n; file_ok = ok; memset(text, 0, sizeof text); textn = hexf(text, b, n, form); if (!ok) want_addr = second ? 0xFD : -1; }
void mc_main(void)
{
    int i, j, k, n, T = mc_thorough; uint8_t t[400]; uint8_t d[300];
    mc_section("every answer"); for (i = 0; i < 4; i++) for (k = 0; k < 2; k++) if (mc_case()) { prep(); if (i & 1) saddr("12345678FFFFFFFF"); else addr("5", 5); use_stdin = i >> 1; IN(1, i, k); sel_fix = req_fix = -1; n = k ? mk_short(t, 0x5B, 5) : mk_long(t, 0x53, 5, 0x51, (const uint8_t *)"\x01\x7A\x07", 3); telegram(t, n, 0, 1); send5(); }
    mc_section("failing steps"); for (i = 0; i < 4; i++) if (mc_case()) { prep(); if (i & 1) saddr("12345678FFFFFFFF"); else addr("5", 5); IN(2, i); use_stdin = i >> 1; faults_on = 1; req_fix = sel_fix = -1; n = mk_long(t, 0x53, 5, 0x51, (const uint8_t *)"\x01\x7A\x07", 3); telegram(t, n, 0, 1); send5(); }
    mc_section("short telegrams"); for (i = 0; i < 256; i++) for (j = 0; j < 256; j += T ? 1 : 51) { static const uint8_t c[] = { 0x40, 0x7B, 0x5B, 0x7A, 0x5A }; for (k = 0; k < 5; k++) if (mc_case()) { prep(); addr("5", 5); IN(3, i, j, k); use_stdin = i & 1; n = mk_short(t, c[k], (i + j) & 255); req_fix = S_ACK; telegram(t, n, i % 10, 1); send5(); } }
    mc_section("long telegrams of every size"); for (i = 0; i <= 252; i++) for (k = 0; k < (T ? 10 : 2); k++) for (j = 0; j < 2; j++) if (mc_case()) { prep(); if (j) saddr("12345678FFFFFFFF"); else addr("5", 5); IN(4, i, k, j); use_stdin = k & 1; pat(d, i, (i + k) % 4); n = mk_long(t, k & 1 ? 0x73 : 0x53, 5, 0x51, d, i); telegram(t, n, T ? k : (i + k) % 10, 1); debug = j; send5(); }
    mc_section("destinations"); for (i = 0; i < N_DEST; i++) for (k = 0; k < 4; k++) if (mc_case()) { prep(); if (k & 1) saddr("12345678FFFFFFFF"); else addr("5", 5); IN(10, i, k); use_stdin = i & 1; debug = k >> 1; tool_to(i); telegram(t, mk_short(t, 0x5B, 5), 0, 1); send5(); }
    mc_section("single character"); for (k = 0; k < 2; k++) if (mc_case()) { prep(); addr("5", 5); IN(5, k); use_stdin = k; t[0] = 0xE5; telegram(t, 1, 0, 1); send5(); }
    mc_section("texts that are no telegram"); for (j = 0; j < 2; j++) for (i = 0; i < 60; i++) if (mc_case()) { prep(); if (j) saddr("12345678FFFFFFFF"); else addr("5", 5); IN(6, i, j); use_stdin = i & 1; n = i < 30 ? mk_short(t, 0x5B, 5) : mk_long(t, 0x53, 5, 0x51, (const uint8_t *)"\x01\x7A\x07", 3); { int q = i % 30; if (q < 12 && q < n) n = q; else if (q < 28) { k = q - 12; if (k >= n || k < 0) k = 0; t[k] ^= 0x0A; if (i >= 30 && (k == 4 || k == 5)) t[k] ^= 0x40; } else n = 0; } telegram(t, n, i % 6, 0); send5(); }
    mc_section("no file"); if (mc_case()) { prep(); addr("5", -1); strcpy(addr_s, "5"); IN(7, 0); file_ok = 0; ac = 0; A("prog"); A("gateway"); A("8000"); A("5"); A("/nonexistent/telegram"); mc_explore_begin(0); while (mc_explore_next()) run(); }
    mc_section("memory exhaustion"); for (i = 1; i <= 20; i++) for (k = 0; k < 2; k++) if (mc_case()) { prep(); if (k) saddr("12345678FFFFFFFF"); else addr("5", 5); IN(8, i, k); oom_at = i; use_stdin = 0; n = mk_short(t, 0x5B, 5); telegram(t, n, 0, 1); send5(); }
    mc_section("wrong arguments"); for (i = 0; i < 6; i++) if (mc_case()) { static const char *bad[][7] = { { 0 }, { "a", 0 }, { "a", "b", 0 }, { "-d", 0 }, { "gateway", "70000", "5", 0 }, { "gateway", "-1", "5", 0 } }; prep(); file_ok = 0; IN(9, i); wrong_args = i < 4 ? 2 : 1; ac = 0; A("prog"); for (j = 0; bad[i][j]; j++) A(bad[i][j]); mc_explore_begin(0); while (mc_explore_next()) run(); }
}
#endif
