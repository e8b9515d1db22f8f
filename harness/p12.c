/* P12: secondary scan on a simulated bus: every meter set x mask x collision style x link failure. */
#ifdef TOOL
#include "tool.h"
#include "setup.h"
#endif
#include "bus.h"
static char got[64][17]; static int ngot;
static int nested, watch;
static void on_found(mbus_handle *h, mbus_frame *f)
{
    meter m; (void)h; memcpy(m.id, f->data, 8); if (ngot < 64) bus_addr(got[ngot++], &m); else mc_fail("more than 64 finds");
    if (nested) {      /* the listener reads the meter, in the middle of the scan */
        mbus_address a; mbus_frame g; char s[20]; int w = watch, r; memset(&a, 0, sizeof a); memset(&g, 0, sizeof g); strcpy(s, got[ngot - 1]); a.secondary = s; watch = -1;
        r = mbus_read_slave(h, &a, &g); watch = w; MC_CHECK(r == 0 && g.data_size == 15 && !memcmp(g.data, m.id, 8), "reading %s when it was found: result %d", s, r);
    }
}
static int shared;
/* another meter on the bus has the same identification number */
static int twin(int k) { int i; for (i = 0; i < bn; i++) if (i != k && !memcmp(bm[i].id, bm[k].id, 4)) return 1; return 0; }
static void verdict(const char *mask, int r)
{
    int i, j, c; char a[20];
    if (bus_failed) { MC_CHECK(r != 0, "the link failed at transmission %d and the scan reported success", bus_link_at); }
    else MC_CHECK(r == 0, "scan failed with %d on a working link", r);
    for (j = 0; j < ngot; j++) { for (i = c = 0; i < bn; i++) { bus_addr(a, &bm[i]); if (!strcmp(a, got[j])) c |= bus_mask(mask, &bm[i]) + 2; } MC_CHECK(c == 3, "found %s, which %s", got[j], c == 2 ? "does not match the mask" : "is not on the bus"); }
    for (i = 0; i < bn; i++) { bus_addr(a, &bm[i]); for (j = c = 0; j < ngot; j++) c += !strcmp(a, got[j]); MC_CHECK(c <= 1, "meter %s found %d times", a, c); if (!bus_failed && !(shared && twin(i) && c == 0)) MC_CHECK(c == bus_mask(mask, &bm[i]), "meter %s %s", a, c ? "found though it does not match" : "not found"); }
}
static const char *ids[] = { "00000000", "00000001", "00000010", "10000000", "12345678", "12345679", "12345688", "12346678", "22345678", "99999999", "90000009", "19999999", "50505050", "55505050" };
static const int mans[] = { 0x4024, 0x1057, 0x7FFF, 0x0421 };
#define NID 14
static char pm[512];
static void setup_meters(const int *ix, int n, int style) { int i; bn = n; for (i = 0; i < n; i++) bus_meter(i, ids[ix[i]], mans[(ix[i] + i) % 4], 1 + ix[i] * 17, ix[i] & 1 ? 7 : 0xF2, ix[i] + 1); bus_style = style; bus_tx = bus_failed = 0; bus_link_at = 0; pm[0] = 0; for (i = 0; i < n; i++) { char a[20]; bus_addr(a, &bm[i]); strcat(pm, a); strcat(pm, " "); } }
#ifndef TOOL
static mbus_handle *keep; static int hold; static int len, nprog, lost_retries; static char prog[20];
static void on_progress(mbus_handle *h, const char *m) { (void)h; MC_CHECK(watch, "progress for a listener that was taken away"); MC_CHECK(strlen(m) == 16, "progress of mask \"%.40s\"", m); strcpy(prog, m); nprog++; }
static void on_wire(const uint8_t *b, int n) { if (watch > 0 && n == 17) { uint8_t e[40]; int en; MC_CHECK(nprog > 0, "a mask is probed without notice"); en = ref_select(e, prog); MC_CHECK(en == n && !memcmp(b, e, n), "mask %s announced, but %s transmitted", prog, mc_hex(b, n)); } bus_write(b, n); }
static void scan(int tcp, const char *mask0, int at, int kind)
{
    mbus_handle *h = keep ? keep : line_open(tcp, -1); char mask[20]; int r; env_clear_rx(); E.reads = 0; bus_tx = bus_failed = ngot = 0; bus_link_at = at; bus_link_kind = kind; { int i; for (i = 0; i < bn; i++) bm[i].sel = 0; }
    watch = (bn + at + tcp) % 3 != 2; nprog = 0; prog[0] = 0; nested = mc_cur->idx % 5 == 0 && !at && !bus_lost_n && !shared && !bus_dev; mbus_register_found_event(h, on_found); mbus_register_scan_progress(h, watch || (bn & 1) ? on_progress : NULL); if (!watch) mbus_register_scan_progress(h, NULL); line_again(h); E.on_write = on_wire; E.write_outcome = bus_wout; E.read_budget = 2000000; strcpy(mask, mask0); bus_sel = 0; if (lost_retries) { long v = lost_retries - 1; mbus_context_set_option(h, MBUS_OPTION_MAX_SEARCH_RETRY, v); }
    r = mbus_scan_2nd_address_range(h, 0, mask); mc_trans(bus_tx); mc_trace(1); len = bus_tx;
    MC_CHECK(!strcmp(mask, mask0), "the caller's mask was changed to %s", mask);
    verdict(mask0, r); { int st[4] = { ngot, bn, bus_failed, r }; mc_state(st, sizeof st); } mc_outcome("%d meters, %d found%s", bn, ngot, bus_failed ? ", link failed" : ""); if (hold) keep = h; else { keep = NULL; line_close(h); }
}
static void one(int tcp, const int *ix, int n, const char *mask, int style, int link)
{
    int d[12] = { tcp, n, style, link }, i, k; char b[80]; for (i = 0; i < n; i++) d[4 + i] = ix[i]; memcpy(b, d, 48); memcpy(b + 48, mask, 17); mc_input(b, 65);
    setup_meters(ix, n, style); mc_note("%s mask %s style %d meters %s", tcp ? "tcp" : "serial", mask, style, pm);
    bus_dev = 0; scan(tcp, mask, 0, 0);
    if (link) { int total = len; for (k = 0; k < (tcp ? 4 : 3); k++) for (i = 1; i <= total; i++) { mc_eval(1); scan(tcp, mask, i, k); } }
}
void mc_main(void)
{
    static const char *masks[] = { "FFFFFFFFFFFFFFFF", "ffffffffffffffff", "1FFFFFFFFFFFFFFF", "F2FFFFFFFFFFFFFF", "FFFFFFF8FFFFFFFF", "123456FFFFFFFFFF", "12345678FFFFFFFF", "1234567FFFFFFFFF", "FFFFFFFF2440FFFF", "FFFFFFFFFFFF45FF", "FFFFFFFFFFFFFF07", "FFFFFFFFFFFFFFF2", "00000000FFFFFFFF", "9FFFFFF9FFFFFFFF", "0000000FFFFFFFFF", "F0000000FFFFFFFF", "99999999571 09AF2" };
    int tcp, ix[8], m, st, i, n; char full[20];
    mc_section("one and no meter"); for (tcp = 0; tcp < 2; tcp++) for (m = 0; m < 16; m++) { if (mc_case()) one(tcp, ix, 0, masks[m], 0, 1); for (ix[0] = 0; ix[0] < NID; ix[0]++) if (mc_case()) one(tcp, ix, 1, masks[m], 0, 0); }
    mc_section("complete addresses"); for (tcp = 0; tcp < 2; tcp++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = 0; ix[1] < NID; ix[1]++) if (ix[0] != ix[1] && mc_case()) { int j; setup_meters(ix, 2, 0); bus_addr(full, &bm[0]); one(tcp, ix, 2, full, 0, 0); for (j = 0; j < 16; j++) full[j] = tolower(full[j]); one(tcp, ix, 2, full, 1, 0); full[15] = full[15] == '7' ? '8' : '7'; one(tcp, ix, 2, full, 0, 0); memcpy(full + 8, "FFFFFFFF", 8); one(tcp, ix, 2, full, 0, 0); }
    mc_section("two meters"); for (tcp = 0; tcp < 2; tcp++) for (st = 0; st < 4; st++) for (m = 0; m < 16; m++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) if (mc_case()) one(tcp, ix, 2, masks[m], st, 0);
    mc_section("three meters"); for (st = 0; st < 4; st++) for (m = 0; m < 16; m++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) for (ix[2] = ix[1] + 1; ix[2] < NID; ix[2]++) if (mc_case()) one((st + m) & 1, ix, 3, masks[m], st, 0);
    if (mc_thorough > 1) { mc_section("five meters"); for (st = 0; st < 4; st++) for (m = 0; m < 16; m++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) for (ix[2] = ix[1] + 1; ix[2] < NID; ix[2]++) for (ix[3] = ix[2] + 1; ix[3] < NID; ix[3]++) for (ix[4] = ix[3] + 1; ix[4] < NID; ix[4]++) if (mc_case()) one((st + m) & 1, ix, 5, masks[m], st, 0); }
    if (mc_thorough) { mc_section("four meters"); for (st = 0; st < 4; st++) for (m = 0; m < 16; m++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) for (ix[2] = ix[1] + 1; ix[2] < NID; ix[2]++) for (ix[3] = ix[2] + 1; ix[3] < NID; ix[3]++) if (mc_case()) one((st + m) & 1, ix, 4, masks[m], st, 0); }
    mc_section("link failures at every transmission"); for (tcp = 0; tcp < 2; tcp++) for (st = 0; st < 4; st++) for (m = 0; m < 16; m++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) if ((mc_thorough || (m < 8 && (ix[0] == 4 || ix[0] == 0))) && mc_case()) one(tcp, ix, 2, masks[m], st, 1);
    mc_section("mixed collision styles"); for (tcp = 0; tcp < 2; tcp++) for (m = 0; m < 16; m++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) if ((mc_thorough || m == 0) && mc_case()) { int d[5] = { 9, tcp, m, ix[0], ix[1] }; mc_input(d, sizeof d); mc_explore_begin(2); while (mc_explore_next()) { setup_meters(ix, 2, 1); mc_note("mask %s meters %s", masks[m], pm); bus_dev = 1; scan(tcp, masks[m], 0, 0); bus_dev = 0; mc_eval(1); } }
    mc_section("shared identification numbers"); shared = 1;
    /* two meters with one number, differing in manufacturer, version, medium or nothing, and a third with another number */
    for (tcp = 0; tcp < 2; tcp++) for (st = 0; st < 4; st++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = 0; ix[1] < NID; ix[1]++) for (m = 0; m < 16; m++) for (n = 0; n < 12; n++) if (mc_case()) {
        static const char *tail[] = { "FFFFFFFF", "2440FFFF", "2440F2FF", "2440F207", "FFFFFFFF", "5710FFFF", "FFFF12FF", "2440FFFF", "2440FF07", "24401207", "24401202", "57100107" }; int v0 = n < 6 ? 0xF2 : 0x12; char mask[20]; int d[7] = { tcp, st, ix[0], ix[1], m, n, 77 };
        mc_input(d, sizeof d); bn = 3; bus_style = st; bus_failed = bus_link_at = 0; bus_dev = 0;
        bus_meter(0, ids[ix[0]], 0x4024, v0, 7, 1); bus_meter(1, ids[ix[0]], m & 1 ? 0x1057 : 0x4024, m & 2 ? 1 : v0, m & 4 ? 2 : 7, 2); bus_meter(2, ids[ix[1]], 0x4024, 0xF2, 7, 3); if (ix[0] == ix[1] && (m & 8)) bus_meter(2, ids[ix[1]], 0x7FFF, 3, 4, 3);
        sprintf(mask, "%s%s", (m & 8) && ix[0] != ix[1] ? ids[ix[0]] : n == 4 ? "1FFFFFFF" : "FFFFFFFF", tail[n]); pm[0] = 0; for (i = 0; i < 3; i++) { char a[20]; bus_addr(a, &bm[i]); strcat(pm, a); strcat(pm, " "); }
        mc_note("%s mask %s style %d meters %s", tcp ? "tcp" : "serial", mask, st, pm); scan(tcp, mask, 0, 0);
    }
    shared = 0;
    mc_section("answers to selections lost and disturbed");
    for (tcp = 0; tcp < 2; tcp++) for (m = 0; m < 16; m++) for (n = 0; n < 4; n++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) if ((mc_thorough || ix[0] < 5) && mc_case()) {
        int d[6] = { tcp, m, n, ix[0], ix[1], 88 }, k, sels; mc_input(d, sizeof d); st = (ix[0] + ix[1]) & 3; setup_meters(ix, 2, st); bus_dev = 0; lost_retries = 1 + n; bus_lost_n = 0;
        mc_note("%s mask %s style %d retries %d meters %s", tcp ? "tcp" : "serial", masks[m], st, n, pm); scan(tcp, masks[m], 0, 0); sels = bus_sel;
        for (k = 1; k <= sels; k++) { for (bus_lost_n = 1; bus_lost_n <= n; bus_lost_n++) { mc_eval(1); bus_lost_at = k; bus_lost_kind = 0; scan(tcp, masks[m], 0, 0); } bus_lost_n = 1; bus_lost_at = k; bus_lost_kind = 1; mc_eval(1); scan(tcp, masks[m], 0, 0); }
        bus_lost_n = lost_retries = 0;
    }
    mc_section("two scans on one connection"); /* of different buses: the second depends on nothing of the first, nor on its failure */
    for (tcp = 0; tcp < 2; tcp++) for (m = 0; m < 16; m++) for (n = 0; n < 16; n++) for (i = 0; i < NID; i++) for (st = 0; st < 8; st++) if ((mc_thorough || (m + n) % 3 == 0) && mc_case()) {
        int d[6] = { tcp, m, n, i, st, 101 }; mc_input(d, sizeof d); bus_dev = 0; ix[0] = i; ix[1] = (i + 1 + st) % NID; setup_meters(ix, 2, st & 3); mc_note("%s masks %s, then %s meters %s", tcp ? "tcp" : "serial", masks[m], masks[n], pm);
        hold = 1; scan(tcp, masks[m], st < 4 ? 0 : 1 + (i * 7 + st) % 40, st < 4 ? 0 : st - 5 < 0 ? 0 : st - 4 > 2 && !tcp ? 2 : st - 4); hold = 0;
        ix[0] = st & 1 ? i : (i + 3) % NID; ix[1] = (i + 5) % NID; setup_meters(ix, st & 2 ? 1 : 2, (st + 1) & 3); mc_eval(1); mc_note("%s masks %s, then %s meters %s", tcp ? "tcp" : "serial", masks[m], masks[n], pm); scan(tcp, masks[n], 0, 0); }
    mc_section("every set of fixed digits"); /* two meters that differ in one digit, the digits of one of them fixed in every combination of positions */
    for (i = 0; i < 8; i++) for (m = 0; m < 10; m++) for (n = 0; n < 10; n++) for (st = 0; st < 256; st++) if (m != n && (mc_thorough || m < n) && mc_case()) {
        char a[9] = "", b[9] = "", mask[17] = "FFFFFFFFFFFFFFFF"; int d[5] = { i, m, n, st, 99 }, k; mc_input(d, sizeof d); for (k = 0; k < 8; k++) a[k] = b[k] = '0' + (k + m + n) % 10; a[i] = '0' + m; b[i] = '0' + n; for (k = 0; k < 8; k++) if (st >> k & 1) mask[k] = a[k]; else if ((i + m) & 1) mask[k] = 'f';
        bn = 2; bus_meter(0, a, 0x4024, 1, 7, 1); bus_meter(1, b, 0x1057, 2, 4, 2); bus_style = (i + n) & 3; bus_dev = 0; mc_note("mask %s meters %s %s", mask, a, b); scan(m & 1, mask, 0, 0); }
    mc_section("refused"); for (n = 0; n < 20; n++) if (n != 16 && mc_case()) { char b[24]; mbus_handle *h = line_open(0, -1); memset(b, 'F', sizeof b); b[n] = 0; mc_input(b, n + 1); i = mbus_scan_2nd_address_range(h, 0, b); MC_CHECK(i == -1 && E.tx_cnt == 0, "mask of %d characters: result %d", n, i); line_close(h); }
    for (n = 0; n < 16 * 12; n++) if (mc_case()) { char b[20] = "12345678FFFFFFFF", c[20], w[] = "Gg/:@`x *?-."; mbus_handle *h; b[n / 12] = w[n % 12]; strcpy(c, b); mc_input(b, 16); mc_note("mask %s", b); ix[0] = 4; ix[1] = 5; setup_meters(ix, 2, 0); h = line_open(0, -1); ngot = 0; bus_sel = 0; E.on_write = bus_write; E.read_budget = 2000000; mbus_register_found_event(h, on_found); i = mbus_scan_2nd_address_range(h, 0, b); MC_CHECK(i == -1, "mask accepted"); MC_CHECK(ngot == 0, "found %s", got[0]); MC_CHECK(!strcmp(b, c), "the caller's mask was changed to %s", b); line_close(h); }
    if (mc_case()) { char b[24] = "FFFFFFFFFFFFFFFF"; mbus_handle *h = line_open(0, -1); mc_input("n", 1); MC_CHECK(mbus_scan_2nd_address_range(NULL, 0, b) == -1 && mbus_scan_2nd_address_range(h, 0, NULL) == -1, "absent arguments accepted"); line_close(h); }
}
#else
static long baud; static int bad_cfg, wrong_args; static const char *cmask; static char args[8][200]; static char *av[9]; static int ac;
static void A(const char *s) { strcpy(args[ac], s); av[ac] = args[ac]; ac++; av[ac] = NULL; }
static void setup(void) { st_setup(); E.on_write = bus_write; E.write_outcome = bus_wout; E.read_budget = 2000000; }
static void check(void)
{
    char *p = tool_out, *q; ngot = 0; oom_hit = M.failed; M.on = 0; if (st_verdict()) return;
    if (wrong_args) { MC_CHECK(E.tx_cnt == 0 && !strstr(tool_out, "Found"), "works with wrong arguments"); mc_outcome("usage"); return; }
    if (oom_hit && tool_st != 0) { bus_failed = 1; MC_CHECK(tool_err[0], "no message"); mc_outcome("memory: reported"); }
    if (oom_hit && E.tx_cnt == 0) { MC_CHECK(tool_st != 0 && !strstr(tool_out, "Found"), "success without a transmission"); return; }
    if (bad_cfg) { MC_CHECK(tool_st != 0 || strstr(tool_err, "usage"), "accepted"); MC_CHECK(bus_sel == 0, "a meter was addressed"); MC_CHECK(!strstr(tool_out, "Found"), "found something"); mc_outcome("refused"); return; }
    if (TOOL == 1) { MC_CHECK(!strcmp(E.open_path, tool_dev), "opened %s", E.open_path); if (!bus_failed) { MC_CHECK(cfgetospeed(&E.tcset) == (baud == 300 ? B300 : baud == 2400 ? B2400 : baud == 38400 ? B38400 : B9600) && cfgetispeed(&E.tcset) == cfgetospeed(&E.tcset), "not set to %ld baud", baud); } }
    else MC_CHECK(!strcmp(E.gai_host, tool_host) && !strcmp(E.gai_port, tool_port), "connected to %s:%s", E.gai_host, E.gai_port);
    if (tool_st == 0) MC_CHECK(E.n_open_now == 0, "connection left open");
    for (; p && *p; p = q) { char a[32]; q = strchr(p, '\n'); if (q) *q++ = 0; else q = p + strlen(p); if (sscanf(p, "Found a device on secondary address %20s", a) == 1) { if (ngot < 64) { strncpy(got[ngot], a, 16); got[ngot++][16] = 0; } } }
    verdict(cmask, tool_st); mc_trans(bus_tx); mc_trace(1); MC_CHECK(!bus_failed || strlen(tool_err) > 0 || tool_st, "link failure not reported");
}
static int tool_len;
static void runtool(int tcp, const char *mask, int dflt, int form) { char s[20]; cmask = mask; ac = 0; A("scan"); if (!tcp && (form & 1)) A("-d"); if (!tcp && (form & 2)) { A("-b"); sprintf(s, "%ld", baud); A(s); } if (tcp) { A(tool_host); A(tool_port); } else A(tool_dev); if (!dflt) A(mask); tool_run(av, tcp, setup, check); mc_outcome("%d meters%s", bn, bus_link_at ? ", link failed" : ""); }
void mc_main(void)
{
    static const char *masks[] = { "FFFFFFFFFFFFFFFF", "1FFFFFFFFFFFFFFF", "12345678FFFFFFFF", "FFFFFFFF2440FFFF" }; int ix[3], m, st, k, i, j; baud = 9600;
    mc_section("program: two meters"); for (st = 0; st < 4; st++) for (m = 0; m < 4; m++) for (ix[0] = 0; ix[0] < NID; ix[0]++) for (ix[1] = ix[0] + 1; ix[1] < NID; ix[1]++) if (mc_case()) { int d[5] = { TOOL, st, m, ix[0], ix[1] }; mc_input(d, sizeof d); setup_meters(ix, 2, st); mc_note("mask %s meters %s", masks[m], pm); runtool(TOOL - 1, masks[m], m == 0, 0); }
    mc_section("program: link failures"); for (st = 0; st < 4; st++) for (k = 0; k < 3; k++) for (i = 3; i < (mc_thorough ? 80 : 40); i++) for (m = 0; m < 2; m++) if (mc_case()) { int d[5] = { TOOL, st, m, i, k + 100 }; mc_input(d, sizeof d); ix[0] = 4; ix[1] = 5; setup_meters(ix, 2, st); bus_link_at = i; bus_link_kind = k; mc_note("mask %s meters %s, link failure %d at %d", masks[m], pm, k, i); runtool(TOOL - 1, masks[m], 0, 0); }
    mc_section("program: options and destinations"); for (st = 0; st < 4; st++) for (m = 0; m < 5; m++) for (j = 0; j < 4; j++) for (k = 0; k < 4; k++) for (i = 0; i < N_DEST; i++) if (mc_case()) { static const long B[] = { 9600, 300, 2400, 38400 }; int d[5] = { TOOL + 100, m, j, k, i }; mc_input(d, sizeof d); ix[0] = 4; ix[1] = 5; ix[2] = 8; setup_meters(ix, 3, st); mc_note("mask %s%s meters %s, form %d, %ld baud", masks[m & 3], m == 4 ? " (none given)" : "", pm, j, B[k]); baud = j & 2 ? B[k] : 9600; tool_to(i); runtool(TOOL - 1, masks[m & 3], m == 4, j); }
    baud = 9600; tool_to(0);
    mc_section("program: steps of setting up that fail"); for (i = 1; i <= 12; i++) for (j = 0; j < 4; j++) for (m = 0; m < 2; m++) if (mc_case()) { int d[4] = { TOOL + 400, i, j, m }; mc_input(d, sizeof d); ix[0] = 4; ix[1] = 5; setup_meters(ix, 2, 0); mc_note("step %d fails, form %d", i, j); st_at = i; runtool(TOOL - 1, masks[0], m, j); st_at = 0; }
    mc_section("program: memory exhaustion"); for (i = 1; i <= (mc_thorough ? 500 : 120); i++) for (j = 0; j < 4; j++) for (st = 0; st < 4; st++) if (mc_case()) { int d[4] = { TOOL + 500, i, j, st }; mc_input(d, sizeof d); ix[0] = 4; ix[1] = j & 1 ? 5 : 1; setup_meters(ix, 2, st); mc_note("allocation %d fails, form %d meters %s", i, j, pm); oom_at = i; runtool(TOOL - 1, masks[j == 3 ? 2 : 0], j == 1, j); oom_at = 0; }
    mc_section("program: wrong arguments"); { static const char *w[][8] = { { 0 }, { "a", "b", "c", "d", "e", "f", "g", 0 }, { "-d", "-q", "9600", "/dev/sim", "FFFFFFFFFFFFFFFF", "x", 0 }, { "-q", "x", "y", "z", 0 } }; for (i = 0; i < 4; i++) if (mc_case()) { int d[2] = { TOOL + 600, i }; mc_input(d, sizeof d); setup_meters(ix, 0, 0); ac = 0; A("scan"); for (j = 0; w[i][j]; j++) A(w[i][j]); wrong_args = 1; tool_run(av, TOOL - 1, setup, check); wrong_args = 0; } }
    mc_section("program: masks that are none"); for (i = 0; i < 16 * 12 + 40; i++) for (j = 0; j < 4; j++) if (mc_case()) { char b[64] = "12345678FFFFFFFF", w[] = "Gg/:@`x *?-."; int d[3] = { TOOL + 200, i, j }; if (i < 16 * 12) b[i / 12] = w[i % 12]; else { memset(b, i & 1 ? 'F' : '0', sizeof b); b[i - 16 * 12 == 16 ? 41 : i - 16 * 12] = 0; } mc_input(d, sizeof d); setup_meters(ix, 0, 0); ix[0] = 4; ix[1] = 5; setup_meters(ix, 2, 0); mc_note("mask \"%s\"", b); bad_cfg = 1; bus_sel = 0; runtool(TOOL - 1, b, 0, j); bad_cfg = 0; }
    if (TOOL == 1) for (i = 0; i < 6; i++) for (j = 2; j < 4; j++) if (mc_case()) { static const long w[] = { 0, 1, 1234, -9600, 115200, 57600 }; int d[3] = { TOOL + 300, i, j }; mc_input(d, sizeof d); ix[0] = 4; setup_meters(ix, 1, 0); mc_note("%ld baud", w[i]); baud = w[i]; bad_cfg = 1; bus_sel = 0; runtool(0, masks[0], j & 1, j); bad_cfg = 0; baud = 9600; }
    if (TOOL == 2) for (i = 0; i < 5; i++) if (mc_case()) { static const char *w[] = { "-1", "65536", "99999", "9999999999", "-80" }; int d[3] = { TOOL + 300, i }; mc_input(d, sizeof d); ix[0] = 4; setup_meters(ix, 1, 0); mc_note("port %s", w[i]); tool_port = w[i]; bad_cfg = 1; bus_sel = 0; runtool(1, masks[0], i & 1, 0); bad_cfg = 0; tool_to(0); }
}
#endif
