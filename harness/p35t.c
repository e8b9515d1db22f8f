/* P35, programs: with -d everything that is sent and received is traced on standard error, without it nothing.
 * TOOL 1 serial request-data, 2 tcp request-data, 3 serial multi-reply, 4 tcp multi-reply, 5 raw-send, 6 serial scan, 7 tcp scan, 8 serial scan-secondary,
 * 9 set-address, 10 application reset, 11 switch-baudrate, 12 serial select, 13 tcp select, 14 tcp scan-secondary (11..14 have no -d) */
#include "prog.h"
#define TCP (TOOL == 2 || TOOL == 4 || TOOL == 5 || TOOL == 7 || TOOL == 10 || TOOL == 13 || TOOL == 14)
#define HAS_D (TOOL <= 10)
#define SCAN (TOOL == 6 || TOOL == 7)
#define SECSCAN (TOOL == 8 || TOOL == 14)
enum { K_MORE = NS, K_BIG, K_MORE2, NK };
static int debug, second, freen, from, dflt, ntel, sizes; static char addr_s[40], text[5000]; static int textn;
static uint8_t lines[4096][300]; static int ln[4096], nl;
/* the lines of one kind */
static void get(const char *label)
{
    const char *p = tool_err, *q; char key[40]; sprintf(key, "] %s (", label); nl = 0;
    for (; (p = strstr(p, key)); ) { char *e; long n = strtol(p + strlen(key), &e, 10); int k = 0; MC_CHECK(nl < 4096, "endless trace"); MC_CHECK(!strncmp(e, "):", 2), "not understood: %.60s", p); q = e + 2;
        for (; *q == ' '; ) { unsigned v; if (sscanf(q + 1, "%2x", &v) != 1) break; MC_CHECK(k < 300, "line too long"); lines[nl][k++] = v; q += 3; } MC_CHECK(*q == '\n' && k == n, "traced as %ld bytes: %.600s", n, p); ln[nl++] = k; p = q; }
}
static int steps;
static int part(const uint8_t *b, int n) { rframe f; int need, loose; return !n || ref_parse(b, n, &f, &need, &loose) == RV_PART; }
/* what was read from `at` in segment `seg` is what lines l.. show */
static int fits(int seg, int at, int l)
{
    for (;;) {
        int end = seg < E.brk_n ? E.brk[seg] : E.rxlog_n, r = end - at; MC_CHECK(++steps < 100000, "harness: search too long");
        if (l < nl && ln[l] <= r && ln[l] > 0 && !memcmp(lines[l], E.rxlog + at, ln[l])) { if (part(E.rxlog + at, r) && seg < E.brk_n && fits(seg + 1, end, l)) return 1; at += ln[l++]; continue; }
        if (!part(E.rxlog + at, r)) return 0;
        if (seg >= E.brk_n) return l == nl;
        seg++; at = end;
    }
}
static void bus(const uint8_t *b, int n)
{
    int k = dflt, i = ntel++, st[4]; uint8_t t[300], d[260];
    if (SCAN) { if (n == 5 && i >= from && i < from + freen) k = mc_choose(NK); else k = S_SILENT; } else if (i < freen) k = mc_choose(NK); else if (SECSCAN) k = S_SILENT; else if (k < 0) k = n == 5 && (b[1] & 0x4F) == 0x4B ? S_LONG : S_ACK;
    st[0] = TOOL; st[1] = i > 6 ? 6 : i; st[2] = k; st[3] = n; mc_state(st, sizeof st); mc_trans(1); H(" %d:%d", i, k);
    if (k < NS) put_answer(k, b, n); else { memcpy(d, sh, 12); pat(d + 12, 240, 2); memcpy(d + 12, "\x1F", 1); if (k == K_BIG) memcpy(d + 12, "\x0F", 1); i = mk_long(t, 8, 5, 0x72, d, k == K_MORE ? 13 : k == K_BIG ? 252 : 100); rx_bytes(t, i); }
}
static int wout(int n) { if (!faults_on || ntel > 5 || !mc_choose_dev(3)) return W_FULL; return mc_choose(2) ? W_ERR : n / 2; }
static void setup(void) { E.on_write = bus; E.write_outcome = wout; ntel = ho = 0; hist[0] = 0; if (TOOL == 5) stdin = fmemopen(text, textn, "r"); }
static void check(void)
{
    int i, n, k = 0; const uint8_t *t; get("SEND");
    if (!debug) { MC_CHECK(!nl, "sent telegrams traced without -d"); get("RECV"); MC_CHECK(!nl, "received telegrams traced without -d"); mc_outcome("no -d"); return; }
    for (i = 0; i < E.tx_cnt; i++) { if (E.tx_cut[i]) continue; t = tx_frame(i, &n); MC_CHECK(k < nl, "telegram %s was sent and is not traced (%s)", mc_hex(t, n), hist); MC_CHECK(ln[k] == n && !memcmp(lines[k], t, n), "telegram %s traced as %s (%s)", mc_hex(t, n), mc_hex(lines[k], ln[k]), hist); k++; }
    MC_CHECK(k == nl, "traced as sent but not sent: %s", mc_hex(lines[k], ln[k])); mc_outcome("%d sent", k > 9 ? 9 : k);
    get("RECV"); if (E.rxlog_over) { mc_outcome("too long"); return; }
    steps = 0; MC_CHECK(fits(0, 0, 0), "received: %s; %d lines of reception, the last: %s (%s)", mc_hex(E.rxlog, E.rxlog_n), nl, nl ? mc_hex(lines[nl - 1], ln[nl - 1]) : "", hist);
    mc_outcome("%d received", nl > 9 ? 9 : nl); mc_trace(1);
}
static void prep(void) { tool_to(0); debug = HAS_D; second = 0; freen = 0; from = 0; dflt = -1; faults_on = 0; strcpy(addr_s, "5"); textn = sprintf(text, "10 5B 05 60 16\n"); }
static void go(int form, int devs)
{
    ac = 0; A("prog"); if (debug) A("-d");
    if (!TCP && (form & 1)) { A("-b"); A("2400"); } if ((TOOL == 3 || TOOL == 4) && (form & 2)) { A("-f"); A("2"); } if (SCAN && (form & 2)) { A("-r"); A("1"); }
    if (TCP) { A(tool_host); A(tool_port); } else A(tool_dev);
    if (SECSCAN) { if (form & 2) A("1234567FFFFFFFFF"); } else if (!SCAN) A(addr_s);
    if (TOOL == 9) A("9"); if (TOOL == 10 && (form & 2)) A("16"); if (TOOL == 11) A("4800");
    mc_explore_begin(devs); while (mc_explore_next()) { mc_note("%s %s", debug ? "-d" : "", addr_s); tool_run(av, TCP, setup, check); mc_eval(1); }
}
#define IN(...) do { int d_[] = { __VA_ARGS__ }; mc_input(d_, sizeof d_); } while (0)
void mc_main(void)
{
    int i, j, k, T = mc_thorough; static const char *SEC = "12345678FFFFFFFF"; (void)k;
    mc_section("without -d"); for (i = 0; i < 4; i++) if (mc_case()) { prep(); IN(0, i); debug = 0; if (i & 1 || TOOL == 12 || TOOL == 13) strcpy(addr_s, SEC); freen = SCAN || SECSCAN ? 1 : 2; go(i, 0); }
    if (!HAS_D) return;
    mc_section("every answer"); for (i = 0; i < 8; i++) if (mc_case()) { prep(); IN(1, i); if (i & 4) { if (SCAN || SECSCAN) continue; strcpy(addr_s, SEC); } if ((i & 1) && TCP) continue; freen = SCAN ? 1 + !(i & 2) : T && !SECSCAN ? 3 : 2; go(i, 0); }
    mc_section("transmissions that fail"); for (i = 0; i < 8; i++) if (mc_case()) { prep(); IN(2, i); if (i & 4) { if (SCAN || SECSCAN) continue; strcpy(addr_s, SEC); } if ((i & 1) && TCP) continue; freen = 1; faults_on = 1; go(i, T ? 2 : 1); }
    if (SCAN) { mc_section("every address"); for (j = 0; j < 254; j++) if (mc_case()) { prep(); IN(3, j); from = j; freen = 1; go(j & 3, 0); } }
    if (!SCAN && !SECSCAN) { mc_section("longer histories"); for (i = 0; i < 4; i++) for (j = 0; j < NK; j++) if (mc_case()) { prep(); IN(4, i, j); if (i & 2) strcpy(addr_s, SEC); dflt = j; freen = 1; go(i & 1 ? 2 : 0, 0); } }
    if (TOOL == 5) { mc_section("telegrams of every size"); for (i = 0; i <= 252; i++) for (j = 0; j < 2; j++) if (mc_case()) { uint8_t t[300], d[260]; int n, o = 0; prep(); IN(5, i, j); if (j) strcpy(addr_s, SEC); pat(d, i, i % 4); n = mk_long(t, 0x53, 5, 0x51, d, i); for (k = 0; k < n; k++) o += sprintf(text + o, "%02X ", t[k]); textn = o; go(0, 0); } }
}
