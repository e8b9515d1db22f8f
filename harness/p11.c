/* P11: select/probe - every line answer history against the allowed-verdict automaton. */
#include "sel.h"
#include <errno.h>
static const char *mask; static int tcp, probe, retr, allow, next_ok, nsel, nreq, found; static char hist[400]; static int ho; static mbus_frame fnd;
static void on_found(mbus_handle *h, mbus_frame *f) { (void)h; found++; fnd = *f; }
static int tainted, fillno;
static const char *mask2; static int probe2, n2;
static void bus2(const uint8_t *b, int n)
{
    uint8_t e[40]; int en = n2 ? mk_short(e, 0x5B, 0xFD) : ref_select(e, mask2);
    MC_CHECK(n2 < 1 + probe2, "after this: telegram %d %s (%s)", n2 + 1, mc_hex(b, n), hist);
    MC_CHECK(n == en && !memcmp(b, e, n), "after this: transmitted %s, expected %s (%s)", mc_hex(b, n), mc_hex(e, en), hist);
    if (n2++) { uint8_t t[64]; n = answer(t, 0x08); rx_bytes(t, n); } else rx_bytes("\xE5", 1);
}
static int wout(int len) { (void)len; if (!next_ok) mc_fail("transmission after the verdict was settled (%s)", hist); if (!mc_choose_dev(2)) return W_FULL; ho += sprintf(hist + ho, " send-failure"); allow = VE; next_ok = 0; return W_ERR; }
static void bus(const uint8_t *b, int n)
{
    uint8_t e[40]; int en = ref_select(e, mask), k, v, isreq;
    isreq = !(n == en && !memcmp(b, e, n));
    if (isreq) { uint8_t q[8]; int qn = mk_short(q, 0x5B, 0xFD); MC_CHECK(n == qn && !memcmp(b, q, n), "transmitted %s (%s)", mc_hex(b, n), hist); }
    MC_CHECK(next_ok & (isreq ? 2 : 1), "unexpected %s (%s)", isreq ? "request" : "selection", hist);
    k = mc_choose(NS); if (k == S_EIO || k == S_ACK_EIO || k == S_EOF) tainted = 1; v = isreq ? req_verdict(tcp, k) : sel_verdict(tcp, k); ho += sprintf(hist + ho, " %s->%s", isreq ? "request" : "select", sn[k]); mc_trans(1);
    put_answer(k, b, n); next_ok = 0;
    if (isreq) { nreq++; allow = v; }
    else {
        nsel++; MC_CHECK(nsel <= (probe ? retr + 1 : 1), "%d selections with %d retries (%s)", nsel, retr, hist);
        allow = v;
        if (probe && (v & VS)) { next_ok |= 2; allow &= ~VS; }
        if (probe && (v & VN) && nsel <= retr) { next_ok |= 1; allow &= ~VN; }
    }
    { int st[7] = { tcp, probe, nsel, isreq, k, allow, next_ok }; mc_state(st, sizeof st); }
}
static void once(int ev)
{
    mbus_handle *h = line_open(tcp, -1); char out[40], ea[32]; int r, v;
    tainted = 0; ho = 0; hist[0] = 0; nsel = nreq = found = 0; next_ok = 1; allow = 0; memset(out, 'x', sizeof out); fillno = (int)mc_cur->idx;
    if (fillno % 3) { ref_addr(ea); memcpy(out, ea, 17); out[fillno % 3 == 1 ? 15 : fillno / 3 % 16] ^= 1; if (fillno % 5 == 1) out[0] = 0; }   /* the place for the address may hold another meter's */
    errno = fillno % 2 ? ENOMEM : 0;
    if (mbus_context_set_option(h, MBUS_OPTION_MAX_SEARCH_RETRY, retr)) mc_fail("retry option refused");
    if (ev || fillno % 2) mbus_register_found_event(h, on_found); if (!ev) mbus_register_found_event(h, NULL);     /* a listener may be taken away again */ line_again(h);
    E.on_write = bus; E.write_outcome = wout; E.read_budget = 20000;
    r = probe ? mbus_probe_secondary_address(h, mask, out) : mbus_select_secondary_address(h, mask); v = vmask(r);
    MC_CHECK(v, "verdict %d is none of the defined ones (%s)", r, hist);
    MC_CHECK(allow & v, "verdict %s, expected %s(%s)", vname(v), allow ? strdup(vname(allow)) : "a further transmission", hist);
    ref_addr(ea);
    if (probe && v == VS) { out[39] = 0; MC_CHECK(!memcmp(out, ea, 17), "address %.20s, the meter's is %s (%s)", out, ea, hist); for (r = 17; r < 39; r++) MC_CHECK(out[r] == 'x', "wrote past the address"); }
    MC_CHECK(found == (ev && probe && v == VS), "found event raised %d times (%s)", found, hist);
    if (found) { rframe x; int need, l; uint8_t t[64]; int n = answer(t, 0x08); ref_parse(t, n, &x, &need, &l); MC_CHECK(frame_is(&fnd, &x), "found event carries another telegram"); }
    /* the verdict leaves nothing behind that could be taken for the answer to what follows */
    if (v != VE && !tainted) {
        char o2[40]; memset(o2, 'y', sizeof o2); E.on_write = bus2; E.write_outcome = NULL; n2 = 0; probe2 = fillno / 2 & 1; mask2 = fillno & 1 ? mask : "87654321FFFFFFFF"; found = 0;
        r = probe2 ? mbus_probe_secondary_address(h, mask2, o2) : mbus_select_secondary_address(h, mask2);
        MC_CHECK(r == MBUS_PROBE_SINGLE, "after this: %s a meter that acknowledges gives verdict %s (%s)", probe2 ? "probing" : "selecting", vname(vmask(r)), hist); mc_trans(1);
        MC_CHECK(n2 == 1 + probe2, "after this: %d telegrams (%s)", n2, hist); MC_CHECK(found == (probe2 && ev), "after this: found event raised %d times (%s)", found, hist);
        if (probe2) MC_CHECK(!memcmp(o2, ea, 17), "after this: address %.17s, the meter's is %s (%s)", o2, ea, hist);
    }
    mc_outcome("%s%s", probe ? "probe " : "select ", vname(v)); mc_trace(1);
    line_close(h);
}
static void space(int t, int p, int rt, int ev, const char *m)
{
    int d[4] = { t, p, rt, ev | torn << 1 }; char b[40]; memcpy(b, d, 16); memcpy(b + 16, m, 16); memcpy(b + 32, sh, 8); mc_input(b, 40);
    tcp = t; probe = p; retr = rt; mask = m;
    mc_explore_begin(1); while (mc_explore_next()) { mc_note("%s %s mask %s retries %d header %s: %s", t ? "tcp" : "serial", p ? "probe" : "select", m, rt, mc_hex(sh, 8), hist); once(ev); mc_eval(1); }
}
static void space1(int t, const char *m)     /* only a few answers, for many masks and headers */
{ space(t, 1, 0, 1, m); }
static void refuse(const char *m) { int t, p; for (t = 0; t < 2; t++) for (p = 0; p < 2; p++) if (mc_case()) { mbus_handle *h = line_open(t, -1); char o[20]; int r; mc_input(m ? m : "-", m ? strlen(m) + 1 : 1); mc_note("mask \"%s\"", m ? m : "(null)"); r = p ? mbus_probe_secondary_address(h, m, o) : mbus_select_secondary_address(h, m); MC_CHECK(r == MBUS_PROBE_ERROR, "mask \"%s\": verdict %d", m ? m : "(null)", r); MC_CHECK(E.tx_cnt == 0, "transmitted %d telegrams for a malformed mask", E.tx_cnt); line_close(h); } }
void mc_main(void)
{
    static const char *ms[] = { "12345678FFFFFFFF", "FFFFFFFFFFFFFFFF", "1234567840240107", "0fffffffffffffff", "99999999FFFFFFFF", "ABCDEFABCDEFABCD" }; int t, r, ev, i, j, b; char m[24];
    mc_section("selecting");
    for (t = 0; t < 2; t++) for (ev = 0; ev < 2; ev++) for (i = 0; i < 6; i++) for (r = 0; r < 3; r++) if (mc_case()) space(t, 0, r, ev, ms[i]);
    mc_section("probing");
    for (t = 0; t < 2; t++) for (ev = 0; ev < 2; ev++) for (i = 0; i < 6; i++) for (r = 0; r <= (mc_thorough ? 4 : 3); r++) if (mc_thorough || r < 3 || (i == 1 && ev)) if (mc_case()) space(t, 1, r, ev, ms[i]);
    mc_section("meter headers");
    for (t = 0; t < 2; t++) for (j = 0; j < 8; j++) for (b = 0; b < 256; b++) { uint8_t o = sh[j]; if (mc_case()) { sh[j] = b; space1(t, ms[1]); } sh[j] = o; }
    mc_section("mask digits");
    for (t = 0; t < 2; t++) for (j = 0; j < 16; j++) for (b = 0; b < 22; b++) if (mc_case()) { strcpy(m, ms[1]); m[j] = "0123456789abcdefABCDEF"[b]; space1(t, m); }
    mc_section("answers torn into many pieces");
    for (t = 0; t < 2; t++) for (i = 0; i < 2; i++) for (j = 1; j < 400; j += j < 40 ? 1 : j / 8) if (mc_case()) { torn = j; space(t, i, 0, 1, ms[0]); torn = 0; }
    mc_section("malformed masks"); refuse(NULL); refuse(""); refuse("FFFFFFFFFFFFFFF"); refuse("FFFFFFFFFFFFFFFFF"); refuse("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF");
    for (j = 0; j < 16; j++) for (b = 1; b < 256; b++) if (!strchr("0123456789abcdefABCDEF", b)) { strcpy(m, ms[1]); m[j] = b; refuse(m); }
    if (mc_case()) { mbus_handle *h = line_open(0, -1); mc_input("o", 1); MC_CHECK(mbus_probe_secondary_address(h, ms[0], NULL) == MBUS_PROBE_ERROR && E.tx_cnt == 0, "probing without a place for the address"); line_close(h); }
    if (mc_case()) { char o[20]; mc_input("h", 1); MC_CHECK(mbus_select_secondary_address(NULL, ms[0]) == MBUS_PROBE_ERROR, "selecting without a connection"); (void)o; }
}
