/* P13: the primary scan programs - every address x every answer kind, pairs, retries, flaky meters. */
#include "tool.h"
#include "sel.h"
#include "setup.h"
static int kind[256], quiet[256], cnt[256], retr, dbg, cur, ok_order, echo;
static int wf_at, wf_to, wf_how, wn, failed[256], wdead, over;       /* transmissions wf_at..wf_to fail (retr is 0 then) */
static int wout(int n) { (void)n; wdead = 0; wn++; if (!wf_at || wn < wf_at || wn > wf_to) return W_FULL; wdead = 1; cur++; if (cur >= 0 && cur < 251) failed[cur] = cnt[cur] = 1; return wf_how == 0 ? W_ERR : wf_how == 1 ? 2 : 4; } static char args[9][200], *av[10]; static int ac, bad_cfg; static long baud;
static void A(const char *s) { strcpy(args[ac], s); av[ac] = args[ac]; ac++; av[ac] = NULL; }
static int oom_skip;
static int kinds(int k, int t)   /* allowed lines: 1 none, 2 found, 4 collision */
{
    switch (k) { case S_SILENT: case S_SHORT: case S_M2S: return 1; case S_ACK: case S_ECHO_ACK: return 2; case S_ACK2: case S_ACKX: case S_ACKS: case S_BADX: case S_GARBAGE: case S_BAD: return 4; case S_TRUNC: return t ? 1 | 4 : 4; case S_EIO: case S_EOF: return 1; case S_ACK_EIO: return 1 | 2; default: return 1 | 4; }
}
static int waits(int k, int t) { return k == S_SILENT || k == S_SHORT || k == S_M2S || k == S_EOF && !t ? 1 : k == S_TRUNC && t ? 2 : 0; }   /* counts as no answer: 1 yes 2 maybe */
static void bus(const uint8_t *b, int n)
{
    int a = n == 5 ? b[2] : -1, k; uint8_t e[8];
    if (wdead) return;
    MC_CHECK(a >= 0 && a <= 250 && mk_short(e, 0x40, a) == n && !memcmp(b, e, n), "transmitted %s", mc_hex(b, n));
    if (oom_at && M.failed && !oom_skip && a >= cur && a <= cur + 2) { oom_skip = 1; if (a == cur + 2) { cur++; failed[cur] = cnt[cur] = 1; } else if (a == cur + 1 && cur >= 0) failed[cur] = 1; }     /* memory ran out for one attempt */
    MC_CHECK(a == cur || a == cur + 1, "address %d contacted after %d", a, cur);
    if (a == cur + 1) { if (cur >= 0) { k = failed[cur] || over ? 0 : waits(kind[cur], E.tcp); if (quiet[cur] >= cnt[cur] && !over) k = 1; MC_CHECK(k != 1 || cnt[cur] == retr + 1, "address %d contacted %d times with %d retries", cur, cnt[cur], retr); } cur = a; }
    cnt[a]++; MC_CHECK(cnt[a] <= retr + 1, "address %d contacted %d times with %d retries", a, cnt[a], retr);
    if (cnt[a] > 1 && cnt[a] - 1 > quiet[a]) MC_CHECK(waits(kind[a], E.tcp), "address %d contacted again after its answer", a);
    if (echo) rx_bytes(b, n);
    if (cnt[a] <= quiet[a]) return;
    if (kind[a] == S_EOF && E.tcp) over = 1;
    put_answer(kind[a], b, n);
}
static void setup(void) { st_setup(); oom_skip = 0; E.on_write = bus; E.write_outcome = wf_at ? wout : NULL; memset(failed, 0, sizeof failed); wn = wdead = over = 0; E.read_budget = 300000; memset(cnt, 0, sizeof cnt); cur = -1; }
static void check(void)
{
    int line[256] = { 0 }, a, last = -1, v, w, unsure = 0, perhaps = 0, eof = 251; char *p, *q;
    oom_hit = M.failed; M.on = 0; if (st_verdict()) return;
    if (oom_hit && tool_st != 0) { MC_CHECK(tool_err[0], "no message"); mc_outcome("memory: reported"); }
    if (bad_cfg) { MC_CHECK(tool_st != 0 || strstr(tool_err, "usage"), "wrong arguments accepted"); MC_CHECK(E.tx_cnt == 0, "transmitted with wrong arguments"); return; }
    for (a = 0; a <= 250; a++) { if (failed[a]) { unsure++; continue; } if (quiet[a] > retr || a > eof) continue; if (kind[a] == S_EIO || kind[a] == S_EOF && E.tcp) unsure++; if (kind[a] == S_ACK_EIO) perhaps++; if (kind[a] == S_EOF && E.tcp) eof = a; }      /* an end of the connection lasts */
    if (oom_hit && E.tx_cnt == 0) { MC_CHECK(tool_st != 0, "success without contacting a meter"); return; }
    if (oom_hit && tool_st != 0) unsure = 1;
    if (unsure) { MC_CHECK(tool_st != 0, "the program reports success although an address could not be examined"); MC_CHECK(tool_err[0] != 0, "no message about an address that could not be examined"); }
    else if (!perhaps) MC_CHECK(tool_st == 0, "program ended with status %d", tool_st);
    if (!unsure) MC_CHECK(cur == 250 && cnt[250] >= 1, "last address contacted is %d", cur);
    for (p = tool_out; *p; p = q) { char e[80]; q = strchr(p, '\n'); if (q) *q++ = 0; else q = p + strlen(p);
        if (dbg) { char *m = strstr(p, "Found a M-Bus"); if (!m) m = strstr(p, "Collision at"); if (m) p = m; }
        if (sscanf(p, "Found a M-Bus device at address %d", &a) == 1) v = 2; else if (sscanf(p, "Collision at address %d", &a) == 1) v = 4; else { MC_CHECK(!strstr(p, "Found") && !strstr(p, "Collision"), "line \"%s\"", p); continue; }
        snprintf(e, sizeof e, v == 2 ? "Found a M-Bus device at address %d" : "Collision at address %d", a); MC_CHECK(!strcmp(p, e), "line \"%s\"", p);
        MC_CHECK(a > last && a <= 250, "address %d reported after %d", a, last); last = a; line[a] = v; }
    for (a = 0; a <= 250; a++) { w = failed[a] || a > cur || quiet[a] > retr || a >= eof ? 1 : kinds(kind[a], E.tcp); v = line[a] ? line[a] : 1; MC_CHECK(w & v, "address %d (%s after %d silent attempts, %d retries) is reported as %s", a, sn[kind[a]], quiet[a], retr, v == 1 ? "nothing" : v == 2 ? "found" : "collision"); { int st[4] = { kind[a], quiet[a] > retr, v, retr }; mc_state(st, sizeof st); } }
    if (!E.tcp) { MC_CHECK(!strcmp(E.open_path, tool_dev), "opened %s", E.open_path); MC_CHECK(cfgetospeed(&E.tcset) == (baud == 300 ? B300 : baud == 2400 ? B2400 : B9600), "wrong baud rate"); }
    else MC_CHECK(!strcmp(E.gai_host, tool_host) && !strcmp(E.gai_port, tool_port), "connected to %s:%s", E.gai_host, E.gai_port);
    MC_CHECK(E.n_open_now == 0, "connection left open"); mc_trans(E.tx_cnt); mc_trace(1);
}
static void prep(void) { st_at = oom_at = 0; tool_to(0); memset(kind, 0, sizeof kind); memset(quiet, 0, sizeof quiet); retr = 0; echo = 0; bad_cfg = 0; baud = 9600; wf_at = wf_to = wf_how = 0; }
static void run(int form)
{
    char s[20]; int tcp = TOOL - 1; ac = 0; A("scan");
    dbg = form & 2; if (dbg) A("-d");
    if (!tcp && (form & 4)) { sprintf(s, "%ld", baud); A("-b"); A(s); }
    if (retr || (form & 1)) { sprintf(s, "%d", retr); A("-r"); A(s); }
    if (tcp) { A(tool_host); A(tool_port); } else A(tool_dev);
    tool_run(av, tcp, setup, check);
}
void mc_main(void)
{
    static const int ks[] = { S_ACK, S_ACK2, S_ACKX, S_GARBAGE, S_BAD, S_TRUNC, S_LONG, S_SHORT, S_ECHO_ACK, S_EIO, S_ACK_EIO, S_LONG2, S_LONGTAIL, S_CTRL, S_M2S, S_ERRTEL, S_ECHO_LONG, S_ACKS, S_BADX }; int a, i, j, r, q, e; enum { NK = sizeof ks / sizeof *ks };
#define IN(...) do { int d_[] = { __VA_ARGS__ }; mc_input(d_, sizeof d_); } while (0)
    mc_section("one answering address"); for (a = 0; a <= 250; a++) for (i = 0; i < NK; i++) for (r = 0; r < (i ? 1 : 2); r++) if (mc_case()) { prep(); IN(1, a, i, r); mc_note("address %d: %s, %d retries", a, sn[ks[i]], r); kind[a] = ks[i]; retr = r; run(0); mc_outcome("%s", sn[ks[i]]); }
    mc_section("two neighbours"); { static const int at[] = { 0, 1, 17, 127, 249 }; for (a = 0; a < 5; a++) for (i = 0; i < NK; i++) for (j = 0; j < NK; j++) for (r = 0; r < 2; r++) if (mc_case()) { prep(); IN(2, a, i, j, r); mc_note("address %d: %s, next: %s, %d retries", at[a], sn[ks[i]], sn[ks[j]], r); kind[at[a]] = ks[i]; kind[at[a] + 1] = ks[j]; retr = r; run(0); mc_outcome("pair"); } }
    mc_section("retries and flaky meters"); for (r = 0; r <= 9; r++) for (q = 0; q <= 10; q++) for (i = 0; i < NK; i++) for (a = 0; a <= 250; a += 125) if (mc_case()) { prep(); IN(3, r, q, i, a); mc_note("%d retries, address %d: %s after %d silent attempts", r, a, sn[ks[i]], q); retr = r; kind[a] = ks[i]; quiet[a] = q; run(0); mc_outcome("%s", q > r ? "gives up" : "answers"); }
    mc_section("every address answers"); for (i = 0; i < NK; i++) for (e = 0; e < 2; e++) if (mc_case()) { prep(); IN(4, i, e); mc_note("all addresses: %s%s", sn[ks[i]], e ? ", echo" : ""); for (a = 0; a <= 250; a++) kind[a] = ks[i]; echo = e && ks[i] != S_SHORT && ks[i] != S_M2S && ks[i] != S_ECHO_ACK && ks[i] != S_ECHO_LONG; run(0); }
    mc_section("echoing line"); for (a = 0; a <= 250; a++) for (r = 0; r < 3; r++) if (mc_case()) { prep(); IN(5, a, r); kind[a] = S_ACK; retr = r; echo = 1; run(0); }
    mc_section("transmissions that fail"); for (a = 0; a <= 250; a++) for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) for (r = 0; r < 3; r++) if (mc_case()) { prep(); IN(9, a, i, j, r); mc_note("transmission %d fails (%s, %s), %s", a + 1, i == 0 ? "error" : i == 1 ? "2 of 5 bytes" : "4 of 5 bytes", j == 0 ? "once" : j == 1 ? "twice" : "from then on", r == 0 ? "all addresses answer" : r == 1 ? "the neighbours answer" : "nobody else answers"); wf_at = a + 1; wf_to = j == 0 ? wf_at : j == 1 ? wf_at + 1 : 1000; wf_how = i; for (e = 0; e <= 250; e++) if (r == 0 || r == 1 && (e == a - 1 || e == a || e == a + 1 || e == a + 2)) kind[e] = S_ACK; run(0); mc_outcome("transmission fails"); }
    mc_section("connection ends"); for (a = 0; a <= 250; a++) for (r = 0; r < 3; r++) for (q = 0; q <= r; q++) for (i = 0; i < 2; i++) if (mc_case()) { prep(); IN(10, a, r, q, i); mc_note("end of the connection at address %d after %d silent attempts, %d retries", a, q, r); retr = r; for (e = 0; e <= 250; e++) if (i) kind[e] = S_ACK; kind[a] = S_EOF; quiet[a] = q; run(0); mc_outcome("connection ends"); }
    mc_section("steps of setting up that fail"); for (i = 1; i <= 12; i++) for (j = 0; j < 8; j++) if (mc_case()) { prep(); IN(11, i, j); st_at = i; retr = j & 1; kind[5] = S_ACK; baud = j & 4 ? 2400 : 9600; mc_note("step %d fails, form %d", i, j); run(j); }
    mc_section("memory exhaustion"); for (i = 1; i <= 260; i++) for (j = 0; j < 4; j++) if (mc_case()) { prep(); IN(12, i, j); oom_at = i; retr = j & 1; for (e = 0; e <= 250; e++) if (j & 2 || e % 50 == 0) kind[e] = S_ACK; mc_note("allocation %d fails, form %d", i, j); run(j & 1); }
    mc_section("argument forms"); for (i = 0; i < 8; i++) for (j = 0; j < 3; j++) for (r = 0; r < 10; r++) if (mc_case()) { prep(); IN(6, i, j, r); kind[5] = S_ACK; baud = (i & 4) ? j == 0 ? 300 : j == 1 ? 2400 : 9600 : 9600; retr = r; kind[77] = ks[r]; quiet[5] = retr / 2; run(i); }
    mc_section("destinations"); for (i = 0; i < N_DEST; i++) for (j = 0; j < 8; j++) if (mc_case()) { prep(); IN(8, i, j); tool_to(i); kind[5] = S_ACK; retr = j & 1; baud = j & 4 ? 2400 : 9600; run(j); }
    mc_section("refused arguments"); { static const char *bad[][6] = { { "-r", "10", 0 }, { "-r", "-1", 0 }, { "-r", "99999", 0 }, { "-b", "1234", 0 }, { "-b", "0", 0 }, { "-q", 0 }, { "-d", "-d", "-d", 0 } }; for (i = 0; i < 7; i++) if (mc_case()) { prep(); IN(7, i); bad_cfg = 1; ac = 0; A("scan"); for (j = 0; bad[i][j]; j++) A(bad[i][j]); if (TOOL == 2 && i >= 3 && i < 5) continue; if (TOOL == 2) { A("gateway"); A("8000"); } else A("/dev/sim"); tool_run(av, TOOL - 1, setup, check); } }
    if (TOOL == 2) { static const char *w[] = { "-1", "65536", "99999", "9999999999", "-80" }; mc_section("ports that are none"); for (i = 0; i < 5; i++) for (j = 0; j < 4; j++) if (mc_case()) { prep(); IN(13, i, j); mc_note("port %s", w[i]); kind[5] = S_ACK; bad_cfg = 1; tool_port = w[i]; retr = j & 1; run(j); } }
    /* every command line of up to six words: options in any place are the documented ones or nothing is transmitted */
    mc_section("command lines"); { static const char *W[] = { "-d", "-b", "-r", "2400", "3", "/dev/sim" }; int ix[6], N = TOOL == 1 ? 6 : 7; for (e = 0; e <= (TOOL == 1 || mc_thorough ? 6 : 5); e++) { memset(ix, 0, sizeof ix); for (;;) { if ((mc_thorough || e < 6 || ix[0] == 0) && mc_case()) { const char *v[8]; int nv = 0, k = 0, ok, amb; prep(); mc_input(ix, sizeof ix); ac = 0; A("scan"); for (i = 0; i < e; i++) A(ix[i] == 6 ? "8000" : TOOL == 2 && ix[i] == 5 ? "gateway" : W[ix[i]]); for (i = 1; i < ac; i++) v[nv++] = av[i]; mc_note("%s %s %s %s %s %s", nv > 0 ? v[0] : "", nv > 1 ? v[1] : "", nv > 2 ? v[2] : "", nv > 3 ? v[3] : "", nv > 4 ? v[4] : "", nv > 5 ? v[5] : "");
        dbg = 0; if (k < nv && !strcmp(v[k], "-d")) { dbg = 1; k++; } if (TOOL == 1 && k + 1 < nv && !strcmp(v[k], "-b")) { baud = atol(v[k + 1]); k += 2; } if (k + 1 < nv && !strcmp(v[k], "-r")) { retr = atoi(v[k + 1]); k += 2; } amb = 0; for (i = nv > TOOL ? nv - TOOL : 0; i < nv; i++) if (v[i][0] == '-') amb = 1; if (nv - k == 2 && TOOL == 2 && strcmp(v[k + 1], "8000")) amb = 1; if (k > 1 && !strcmp(v[k - 2], "-r") && strcmp(v[k - 1], "3") && strcmp(v[k - 1], "2400")) amb = 1;     /* words that stand for what they hardly mean: not judged */
        ok = nv - k == TOOL && (baud == 2400 || baud == 9600) && retr >= 0 && retr <= 9;
        if (amb) mc_outcome("not judged"); else { if (!ok) bad_cfg = 2; else { kind[5] = S_ACK; if (TOOL == 1) tool_dev = v[k]; else { tool_host = v[k]; tool_port = v[k + 1]; } }
        tool_run(av, TOOL - 1, setup, check); } } for (i = e - 1; i >= 0 && ++ix[i] == N; i--) ix[i] = 0; if (i < 0) break; } } }
}
