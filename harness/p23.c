/* P23: running out of memory is an error, never corruption, a leak or a half-done result. */
#include "sinks.h"
#include "bus.h"
#include "frames.h"
#include <unistd.h>
int mbus_fixed_normalize(int, long, char **, double *, char **);
/* ---- the telegrams ---- */
#define TMAX 128
static struct { uint8_t b[300]; int n; } T[TMAX]; static int NT;
static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
static void rec(const char *d, int n) { uint8_t h[256]; memcpy(h, HB, 12); memcpy(h + 12, d, n); T[NT].n = mk_long(T[NT].b, 8, 5, 0x72, h, n + 12); NT++; }
static void tel(int ci, const char *d, int n) { T[NT].n = mk_long(T[NT].b, 8, 5, ci, (const uint8_t *)d, n); NT++; }
static void corpus(void)
{
    char b[256]; int k;
    rec("\x01\x13\x2A", 3); rec("", 0); rec("\x84\x10\x13\x01\x02\x03\x04", 7); rec("\x82\x55\x93\x74\x06\x34", 6); rec("\x02\x6C\x95\x2A\x04\x6D\x1E\x0C\x95\x2A", 10); rec("\x06\x6D\x01\x9E\x0C\x95\x2A\x33", 8); rec("\x04\xFD\x30\x1E\x0C\x95\x2A", 7); rec("\x06\xFD\x70\x01\x1E\x0C\x95\x2A\x00", 9);
    rec("\x0D\x78\x02no", 5); rec("\x0D\x78\x00", 3); rec("\x0D\x13\xC4\x12\x34\x56\x78", 7); rec("\x0D\x13\xE6\xFF\xFE\xFD\xFC\xFB\xFA", 9); rec("\x0D\x13\xE0", 3); rec("\x01\x7C\x03xyz\x05", 7); rec("\x01\xFC\x02kg\x74\x05", 7); rec("\x01\x7C\x00\x05", 4); memset(b, 'w', sizeof b); b[0] = 0x0D; b[1] = 0x78; b[2] = (char)0xBF; rec(b, 194);
    rec("\x0F\x01\x02\x03", 4); rec("\x01\x13\x07\x1F\xAA", 5); rec("\x0F", 1); rec("\x05\x2B\x00\x00\x80\x3F", 6); rec("\x0C\x13\x78\x56\x34\x12\x0E\x13\x99\x99\x99\x99\x99\x99", 14); rec("\x07\x13\xFF\xFF\xFF\xFF\xFF\xFF\xFF\x7F", 10); rec("\x00\x13\x08\x13", 4); rec("\x01\xFD\x17\x05\x01\xFB\x00\x05\x01\x13\x05", 11); rec("\x01\xEF\x21\x05\x01\x13\x05", 7); rec("\x01\xFF\x05\x05\x01\x7F\x05", 7); rec("\x01\xFD\x7B\x05\x01\x13\x06", 7);
    for (k = 0; k < 78; k++) memcpy(b + 3 * k, "\x01\x13\x2A", 3); rec(b, 234); for (k = 0; k < 58; k++) memcpy(b + 4 * k, "\x02\x6C\x95\x2A", 4); rec(b, 232); memset(b, 0x0F, 1); rec(b, 235);
    tel(0x73, "\x78\x56\x34\x12\x0A\x00\xE9\x7E\x01\x00\x00\x00\x35\x01\x00\x00", 16); tel(0x73, "\x78\x56\x34\x12\x0B\xC0\x38\x01\xFF\xFF\xFF\xFF\x35\x01\x00\x80", 16); tel(0x73, "\x78\x56\x34\x12\x0B\x80\x02\x3F\xFF\xFF\xFF\xFF\x35\x01\x00\x80", 16); tel(0x70, "\x05", 1); tel(0x70, "", 0);
    /* refused ones: the refusal must not leak either */ rec("\x01\x13\x2A\x04\x13\x01", 6); rec("\x01\x13\x2A\x01\x7C\x09" "ab", 8); rec("\x01\x13\x2A\x84", 4); tel(0x72, "\x78\x56", 2); tel(0x99, "\x78\x56", 2);
}
/* ---- operations: return 1 success, 0 failure reported; what a user sees goes to sk_out ---- */
static mbus_frame FR; static mbus_frame *chain[8]; static int NCH; static int arg; static mbus_handle *L; static char fnd[2000];
typedef int (*op)(void);
static int xml_of(char *x) { if (!x) return 0; sk("xml", x); env_free(x); return 1; }
static int o_frame_xml(void) { return xml_of(mbus_frame_xml(&FR)); }
static int parsed(int (*f)(mbus_frame_data *)) { mbus_frame_data *fd = mbus_frame_data_new(); int r; if (!fd) return 0; r = mbus_frame_data_parse(&FR, fd) == 0 ? f(fd) : 0; mbus_frame_data_free(fd); return r; }
static int records(mbus_frame_data *fd)
{
    mbus_data_record *r; int i; ski("type", fd->type); if (fd->type == MBUS_DATA_TYPE_VARIABLE) { ski("n", fd->data_var.nrecords); ski("more", fd->data_var.more_records_follow); for (r = fd->data_var.record; r; r = r->next) { ski("dif", r->drh.dib.dif); ski("ndife", r->drh.dib.ndife); ski("vif", r->drh.vib.vif); ski("nvife", r->drh.vib.nvife); for (i = 0; i < (int)r->data_len; i++) ski("d", r->data[i]); } } return 1;
}
static int o_parse(void) { return parsed(records); }
static int d_xml(mbus_frame_data *fd) { return xml_of(mbus_frame_data_xml(fd)); }
static int d_norm(mbus_frame_data *fd) { return xml_of(mbus_frame_data_xml_normalized(fd)); }
static int o_data_xml(void) { return parsed(d_xml); }
static int o_data_norm(void) { return parsed(d_norm); }
static int o_secondary(void) { char *a = mbus_frame_get_secondary_address(&FR); sk("address", a); return a != NULL; }
/* a decoded telegram made while memory was plentiful, used while it is not */
static mbus_frame_data *FD; static mbus_data_record *REC;
static int show(mbus_record *n) { if (!n) return 0; sk("function", n->function_medium); sk("unit", n->unit); sk("quantity", n->quantity); ski("storage", n->storage_number); ski("tariff", n->tariff); ski("device", n->device); if (n->is_numeric) skd("value", n->value.real_val); else { sk("value", n->value.str_val.value); ski("size", n->value.str_val.size); } mbus_record_free(n); return 1; }
static int o_record(void) { return show(mbus_parse_variable_record(REC)); }
static int o_value(void) { double d; char *s = NULL; int z = 0, r = mbus_variable_value_decode(REC, &d, &s, &z); if (r == 0) { skd("real", d); sk("str", s); ski("len", z); } env_free(s); return r == 0; }
static int o_vib(void) { char *u = NULL, *q = NULL; double v = 0; int r; r = mbus_vib_unit_normalize(&REC->drh.vib, 12.5, &u, &v, &q); if (r == 0) { sk("u", u); sk("q", q); skd("v", v); } env_free(u); env_free(q); return r == 0; }
static int o_vif(void) { char *u = NULL, *q = NULL; double v = 0; int r = mbus_vif_unit_normalize(arg, 12.5, &u, &v, &q); if (r == 0) { sk("u", u); sk("q", q); skd("v", v); } env_free(u); env_free(q); return r == 0; }
static int o_fix(void) { char *u = NULL, *q = NULL; double v = 0; int r = mbus_fixed_normalize(arg, 125, &u, &v, &q); if (r == 0) { sk("u", u); sk("q", q); skd("v", v); } env_free(u); env_free(q); return r == 0; }
static int o_fixrec(void) { return show(mbus_parse_fixed_record(arg >> 8, arg & 0xFF, (uint8_t *)"\x12\x34\x56\x78")); }
static int o_fd_xml(void) { return d_xml(FD); }
static int o_fd_norm(void) { return d_norm(FD); }
static int o_print(void) { FILE *so = stdout; char *b; size_t n; stdout = open_memstream(&b, &n); mbus_frame_data_print(FD); mbus_frame_print(&FR); fclose(stdout); stdout = so; sk("dump", b); free(b); return 1; }
static int o_pack(void) { mbus_frame g = FR; int r; g.next = NULL; r = mbus_frame_internal_pack(&g, FD); if (r == 0) { ski("n", g.data_size); sk("d", mc_hex(g.data, g.data_size)); } return r == 0; }
/* constructors */
static int o_new(void)
{
    void *p = NULL; static const int ft[] = { MBUS_FRAME_TYPE_ANY, MBUS_FRAME_TYPE_ACK, MBUS_FRAME_TYPE_SHORT, MBUS_FRAME_TYPE_CONTROL, MBUS_FRAME_TYPE_LONG };
    switch (arg) { case 0: case 1: case 2: case 3: case 4: p = mbus_frame_new(ft[arg]); if (p) mbus_frame_free(p); break; case 5: p = mbus_frame_data_new(); if (p) mbus_frame_data_free(p); break; case 6: p = mbus_data_record_new(); if (p) mbus_data_record_free(p); break; case 7: p = mbus_record_new(); if (p) mbus_record_free(p); break;
    case 8: p = mbus_context_serial("/dev/ttyS0"); if (p) mbus_context_free(p); break; case 9: p = mbus_context_tcp("meter.example", 10001); if (p) mbus_context_free(p); break; }
    return p != NULL;
}
static int o_connect(void) { mbus_handle *h = arg ? mbus_context_tcp("meter.example", 10001) : mbus_context_serial("/dev/ttyS0"); int r; if (!h) return 0; r = mbus_connect(h); if (r == 0) mbus_disconnect(h); mbus_context_free(h); return r == 0; }
/* on the line */
static int send_op(void)
{
    switch (arg) { case 0: return mbus_send_ping_frame(L, 5, 0) == 0; case 1: return mbus_send_ping_frame(L, 5, 1) == 0; case 2: return mbus_send_request_frame(L, 5) == 0; case 3: return mbus_send_application_reset_frame(L, 5, 0x10) == 0; case 4: return mbus_send_switch_baudrate_frame(L, 5, 9600) == 0; case 5: return mbus_send_user_data_frame(L, 5, (const uint8_t *)"\x01\x7A\x07", 3) == 0; case 6: return mbus_set_primary_address(L, 5, 7) == 0; case 7: return mbus_send_select_frame(L, "12345678244001F7") == 0;
    /* refused ones */
    case 8: return mbus_send_select_frame(L, "12345678244001F") == 0; case 9: return mbus_send_select_frame(L, "1234567X244001F7") == 0; case 10: return mbus_send_select_frame(L, "") == 0; case 11: return mbus_send_ping_frame(L, 256, 1) == 0; case 12: return mbus_send_request_frame(L, -1) == 0; case 13: return mbus_send_application_reset_frame(L, 300, 1) == 0; case 14: return mbus_send_application_reset_frame(L, 5, 0x100) == 0; case 15: return mbus_send_switch_baudrate_frame(L, 5, 9601) == 0; case 16: return mbus_send_switch_baudrate_frame(L, 256, 9600) == 0; case 17: return mbus_send_user_data_frame(L, 5, (const uint8_t *)"", 0) == 0; case 18: return mbus_send_user_data_frame(L, 5, (const uint8_t *)"abc", 300) == 0; case 19: return mbus_send_user_data_frame(L, 5, NULL, 3) == 0; case 20: return mbus_send_user_data_frame(L, 256, (const uint8_t *)"abc", 3) == 0; case 21: return mbus_set_primary_address(L, 5, 251) == 0; case 22: return mbus_set_primary_address(L, 5, 256) == 0; case 23: return mbus_send_select_frame(L, "12345678244001F71") == 0; case 24: return mbus_send_select_frame(L, "FFFFFFFF FFFFFFF") == 0; }
    return 0;
}
static int rq_left; static uint8_t rq_tel[300]; static int rq_n;
static void rq_write(const uint8_t *b, int n) { uint8_t d[40]; (void)b; (void)n; memcpy(d, HB, 12); d[12] = 1; d[13] = 0x13; d[14] = rq_left; d[15] = 0x1F; rq_left--; rq_n = mk_long(rq_tel, 8, 5, 0x72, d, rq_left > 0 ? 16 : 15); rx_bytes(rq_tel, rq_n); }
static int o_request(void) { mbus_frame f, *g; int r; char *x; memset(&f, 0, sizeof f); rq_left = arg & 15; E.on_write = rq_write; r = mbus_sendrecv_request(L, 5, &f, arg >> 4); if (r == 0) for (g = &f; g; g = g->next) sk("frame", mc_hex(g->data, g->data_size)); if (f.next) mbus_frame_free(f.next); (void)x; return r == 0; }
static void bus3(void) { bn = 0; bus_meter(0, "12345678", 0x4024, 1, 7, 5); bus_meter(1, "12345671", 0x4024, 1, 7, 6); bus_meter(2, "52345671", 0x4024, 1, 7, 9); bn = 3; bus_style = 0; bus_dev = 0; bus_link_at = 0; bus_failed = 0; bus_tx = 0; E.on_write = bus_write; }
static void fe(mbus_handle *h, mbus_frame *f) { (void)h; fnd[strlen(fnd) + 1] = 0; snprintf(fnd + strlen(fnd), sizeof fnd - strlen(fnd), "%s ", mc_hex(f->data, 4)); }
static int o_read(void) { mbus_address a; mbus_frame f; int r; static char s[20]; memset(&f, 0, sizeof f); bus3(); a.is_primary = !arg; if (arg) { strcpy(s, "12345678FFFFFFFF"); a.secondary = s; } else a.primary = 6; r = mbus_read_slave(L, &a, &f); if (r == 0) sk("frame", mc_hex(f.data, f.data_size)); return r == 0; }
static int o_select(void) { static const char *m[] = { "12345678FFFFFFFF", "99345678FFFFFFFF", "1234567FFFFFFFFF" }; int r; bus3(); r = mbus_select_secondary_address(L, m[arg]); ski("verdict", r); return r != MBUS_PROBE_ERROR; }
static int o_probe(void) { static const char *m[] = { "12345678FFFFFFFF", "99345678FFFFFFFF", "1234567FFFFFFFFF" }; int r; char a[20] = ""; bus3(); r = mbus_probe_secondary_address(L, m[arg], a); ski("verdict", r); if (r == MBUS_PROBE_SINGLE) sk("address", a); return r != MBUS_PROBE_ERROR; }
static int o_scan(void) { static const char *m[] = { "1234567FFFFFFFFF", "F2345678FFFFFFFF", "FFFFFFFFFFFFFFFF" }; char s[20]; int r; bus3(); fnd[0] = 0; mbus_register_found_event(L, fe); strcpy(s, m[arg]); r = mbus_scan_2nd_address_range(L, 0, s); sk("found", fnd); return r == 0; }
/* answers of every kind; transmissions that fail */
static int ans_kind, wfail_at, wcount;
static int wo(int len) { (void)len; return ++wcount == wfail_at ? W_ERR : W_FULL; }
static void an_write(const uint8_t *b, int n)
{
    uint8_t t[300], d[64]; int m; static const uint8_t fx[16] = { 1, 2, 3, 4, 5, 0, 0x29, 0x29, 1, 0, 0, 0, 5, 0, 0, 0 }; if (n != 5) { rx_bytes("\xE5", 1); return; }
    memcpy(d, HB, 12); memcpy(d + 12, "\x01\x13\x2A\x04\x13\x01\x02", 7);
    switch (ans_kind) {
    case 0: m = mk_long(t, 8, 5, 0x72, d, 15); rx_bytes(t, m); break; case 1: m = mk_long(t, 8, 5, 0x72, d, 19); rx_bytes(t, m); break; case 2: m = mk_long(t, 8, 5, 0x72, d, 5); rx_bytes(t, m); break; case 3: m = mk_long(t, 8, 5, 0x73, fx, 16); rx_bytes(t, m); break;
    case 4: m = mk_long(t, 8, 5, 0x73, fx, 9); rx_bytes(t, m); break; case 5: m = mk_long(t, 8, 5, 0x70, fx, 1); rx_bytes(t, m); break; case 6: m = mk_long(t, 8, 5, 0x99, fx, 3); rx_bytes(t, m); break; case 7: m = mk_long(t, 8, 5, 0x72, d, 0); rx_bytes(t, m); break;
    case 8: rx_bytes("\xE5", 1); break; case 9: rx_bytes("\x33\x44", 2); break; case 10: break; case 11: rx_event(RX_ERR); break; case 12: m = mk_long(t, 8, 5, 0x72, d, 15); rx_bytes(t, m); rx_bytes(t, m); break; case 13: rx_bytes(b, n); m = mk_long(t, 8, 5, 0x72, d, 15); rx_bytes(t, m); break; case 14: d[15] = 0x1F; m = mk_long(t, 8, 5, 0x72, d, 16); rx_bytes(t, m); ans_kind = 1; break;
    case 15: d[15] = 0x1F; m = mk_long(t, 8, 5, 0x72, d, 16); rx_bytes(t, m); ans_kind = 11; break; case 16: d[15] = 0x1F; m = mk_long(t, 8, 5, 0x72, d, 16); rx_bytes(t, m); ans_kind = 10; break; case 17: d[15] = 0x1F; m = mk_long(t, 8, 5, 0x72, d, 16); rx_bytes(t, m); ans_kind = 8; break; }
}
#define NANS 18
static int o_request2(void) { mbus_frame f, *g; int r; memset(&f, 0, sizeof f); ans_kind = arg; E.on_write = an_write; r = mbus_sendrecv_request(L, 5, &f, 0); if (r == 0) for (g = &f; g; g = g->next) sk("frame", mc_hex(g->data, g->data_size)); if (f.next) mbus_frame_free(f.next); return r == 0; }
static int o_read2(void) { mbus_address a; mbus_frame f; int r; static char s[20]; memset(&f, 0, sizeof f); ans_kind = arg; E.on_write = an_write; a.is_primary = 0; strcpy(s, "12345678FFFFFFFF"); a.secondary = s; r = mbus_read_slave(L, &a, &f); if (r == 0) sk("frame", mc_hex(f.data, f.data_size)); return r == 0; }
static int o_probe2(void) { int r; char a[20] = ""; ans_kind = arg; E.on_write = an_write; r = mbus_probe_secondary_address(L, "FFFFFFFFFFFFFFFF", a); ski("verdict", r); if (r == MBUS_PROBE_SINGLE) sk("address", a); return r != MBUS_PROBE_ERROR; }
static int o_scan2(void) { char s[20]; int r; ans_kind = arg; E.on_write = an_write; fnd[0] = 0; mbus_register_found_event(L, fe); strcpy(s, "1234567F24400107"); r = mbus_scan_2nd_address_range(L, 0, s); sk("found", fnd); return r == 0; }
/* ---- one operation with every allocation failing in turn ---- */
static int line_kind; /* -1: none */
static char *txt; static size_t txtn;
static int run(op o, long at, long from, long at2, long *failed, long *count)
{
    int r; FILE *so = sk_out; (void)so; if (txt) free(txt); txt = NULL; env_reset(line_kind > 0); FD = NULL; REC = NULL; mem_begin(0xA5); if (line_kind >= 0) { L = line_open(line_kind, -1); ev_reset(); wcount = 0; E.write_outcome = wfail_at ? wo : NULL; }
    { mbus_frame_data *fd = NULL; int i; mbus_data_record *q; if (o == o_record || o == o_value || o == o_vib || o == o_fd_xml || o == o_fd_norm || o == o_print || o == o_pack) { fd = mbus_frame_data_new(); if (mbus_frame_data_parse(&FR, fd) != 0) { mbus_frame_data_free(fd); *failed = 0; *count = 0; return 0; } FD = fd; if (fd->type == MBUS_DATA_TYPE_VARIABLE) { for (q = fd->data_var.record, i = 0; q && i < arg; i++) q = q->next; REC = q; } if (!REC && (o == o_record || o == o_value || o == o_vib)) { mbus_frame_data_free(fd); *failed = *count = 0; FD = NULL; return -1; } }
      sk_out = open_memstream(&txt, &txtn); M.count = 0; M.failed = 0; M.fail_at = at; M.fail_from = from; M.fail_at2 = at2;
      r = o(); mc_trans(1); fflush(sk_out); *failed = M.failed; *count = M.count; M.fail_at = M.fail_from = -1; M.fail_at2 = 0;
      if (line_kind >= 0) { sk("sent", mc_hex(E.tx, E.tx_n > 900 ? 900 : E.tx_n)); ski("sent", E.tx_n); } fclose(sk_out); sk_out = NULL; if (line_kind >= 0) { line_close(L); L = NULL; } if (fd) mbus_frame_data_free(fd); FD = NULL; }
    MC_CHECK(mem_live() == 0, "memory not released: %s", mem_describe()); MC_CHECK(!M.bad_free, "memory released that was not allocated"); MC_CHECK(E.n_open_now == 0, "%d descriptors left open", E.n_open_now); return r;
}
static void differ(const char *a, const char *b, const char *what) { size_t i = 0, s; while (a[i] && a[i] == b[i]) i++; for (s = i; s > 0 && a[s - 1] != '\n' && i - s < 150; s--) ; mc_fail("%s: \"%.*s\", with memory \"%.*s\"", what, 150, a + s, 150, b + s); }
static long pairs_max;
static int exhaust(op o, const char *name)
{
    long n, k, m, failed, cnt, one; int r0, r; char *base; r0 = run(o, -1, -1, 0, &failed, &n); if (r0 < 0) return 0; base = strdup(txt ? txt : "");
#define VERDICT(tag) do { MC_CHECK(!(r && !r0), "success although the telegram is refused"); if (r && strcmp(txt, base)) differ(txt, base, "a result although memory ran out"); { int s_[4] = { (int)(k < 64 ? k : 64), tag, r, (int)(m < 16 ? m : 16) }; mc_state(s_, sizeof s_); } mc_outcome(r ? "%s: completed" : "%s: failure reported", name); } while (0)
#define AGAIN() do { r = run(o, -1, -1, 0, &failed, &cnt); if (r != r0 || strcmp(txt ? txt : "", base)) differ(txt ? txt : "", base, "after memory was available again"); } while (0)
    for (k = 1; k <= n; k++) {
        m = 0; mc_note("%s: allocation %ld of %ld fails", name, k, n); r = run(o, k, -1, 0, &failed, &one); if (!failed) continue; VERDICT(0); AGAIN();
        mc_note("%s: allocation %ld of %ld and every later one fails", name, k, n); r = run(o, -1, k, 0, &failed, &cnt); VERDICT(1); if (k == 1) AGAIN();
        if (n <= pairs_max) for (m = k + 1; m <= one; m++) { mc_note("%s: allocations %ld and %ld of %ld fail", name, k, m, n); r = run(o, k, -1, m, &failed, &cnt); VERDICT(2); }
    }
    free(base); return 1;
}
static void set_frame(const uint8_t *b, int n) { memset(&FR, 0, sizeof FR); if (mbus_parse(&FR, guard_copy(0, b, n), n) != 0) mc_fail("telegram of the corpus refused: %s", mbus_error_str()); FR.next = NULL; FR.timestamp = 1700000000; }
static void all_of(void)
{
    int k; line_kind = -1; arg = 0; exhaust(o_frame_xml, "frame xml"); exhaust(o_parse, "parse"); exhaust(o_data_xml, "data xml"); exhaust(o_data_norm, "normalised xml"); exhaust(o_secondary, "secondary address"); exhaust(o_fd_xml, "xml of decoded data"); exhaust(o_fd_norm, "normalised xml of decoded data"); exhaust(o_print, "dump"); exhaust(o_pack, "rebuild");
    for (k = 0; k < (mc_thorough ? 100 : 12); k++) { arg = k; if (!exhaust(o_record, "record")) break; exhaust(o_value, "value"); exhaust(o_vib, "unit"); }
}
void mc_main(void)
{
    int i, j, k, n; freopen("/dev/null", "w", stderr); corpus(); pairs_max = mc_thorough ? 1000 : 60;
    mc_section("telegrams of every kind"); for (i = 0; i < NT; i++) if (mc_case()) { mc_input(T[i].b, T[i].n); set_frame(T[i].b, T[i].n); all_of(); }
    mc_section("real telegrams"); for (i = 0; i < N_FRAMES; i++) if (mc_case()) { mbus_frame f; if (mbus_parse(&f, guard_copy(1, FRAMES[i].b, FRAMES[i].n), FRAMES[i].n) != 0) { mc_input_trivial(FRAMES[i].b, FRAMES[i].n); continue; } mc_input(FRAMES[i].b, FRAMES[i].n); set_frame(FRAMES[i].b, FRAMES[i].n); all_of(); }
    mc_section("sequences of telegrams"); for (i = 0; i < NT; i++) for (j = 0; j < NT; j += mc_thorough ? 1 : 3) for (n = 2; n <= (mc_thorough ? 8 : 3); n += n == 3 ? 5 : 1) if (mc_case()) { int q[3] = { i, j, n }; static mbus_frame g[8]; mc_input(q, sizeof q); set_frame(T[i].b, T[i].n); for (k = 1; k < n; k++) { const uint8_t *b = T[(k & 1) ? j : i].b; int l = T[(k & 1) ? j : i].n; memset(&g[k], 0, sizeof g[k]); mbus_parse(&g[k], guard_copy(1, b, l), l); g[k].next = NULL; (k == 1 ? &FR : &g[k - 1])->next = &g[k]; } line_kind = -1; exhaust(o_frame_xml, "frame xml of a sequence"); }
    mc_section("every DIF with a selection of VIFs"); for (i = 0; i < 256; i++) for (j = 0; j < (mc_thorough ? 256 : 12); j++) if (mc_case()) { static const uint8_t V[] = { 0x13, 0x6C, 0x6D, 0xFD, 0xFB, 0x7C, 0xFC, 0xFF, 0x78, 0x6F, 0x93, 0x7B }; uint8_t s[40]; int v = mc_thorough ? j : V[j], q[2] = { i, v }; mc_input(q, sizeof q); k = 0; memcpy(s, HB, 12); k = 12; s[k++] = i; if (i != 15 && i != 31 && i != 47) { if (i & 0x80) s[k++] = 0x15; s[k++] = v; if ((v & 127) == 0x7C) { s[k++] = 2; s[k++] = 'y'; s[k++] = 'z'; } if (v & 0x80) s[k++] = 0x30; if ((i & 15) == 13) s[k++] = 3; } { static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 3, 6, 8 }; n = i == 47 ? 0 : len[i & 15]; } memset(s + k, 0x11, n); k += n; T[NT].n = mk_long(T[NT].b, 8, 5, 0x72, s, k); set_frame(T[NT].b, T[NT].n); line_kind = -1; arg = 0; exhaust(o_data_norm, "normalised xml"); exhaust(o_record, "record"); exhaust(o_value, "value"); exhaust(o_vib, "unit"); }
    mc_section("units"); for (i = 0; i < 0x300; i++) if (mc_case()) { mc_input(&i, sizeof i); line_kind = -1; arg = i; exhaust(o_vif, "unit of a code"); if (i < 256) exhaust(o_fix, "unit of fixed data"); }
    mc_section("fixed counters"); for (i = 0; i < 65536; i += mc_thorough ? 1 : 7) if (mc_case()) { mc_input(&i, sizeof i); line_kind = -1; arg = i; exhaust(o_fixrec, "fixed record"); }
    mc_section("constructors"); for (i = 0; i < 12; i++) if (mc_case()) { mc_input(&i, sizeof i); line_kind = -1; arg = i; if (i < 10) exhaust(o_new, "constructor"); else { arg = i - 10; exhaust(o_connect, "connect"); } }
    mc_section("commands"); for (k = 0; k < 2; k++) for (i = 0; i < 25; i++) for (j = 0; j < 2; j++) if (mc_case()) { int q[3] = { k, i, j }; mc_input(q, sizeof q); line_kind = k; arg = i; wfail_at = j; exhaust(send_op, "command"); wfail_at = 0; }
    mc_section("requests"); for (k = 0; k < 2; k++) for (i = 1; i < 15; i++) for (j = 0; j < 5; j++) if (mc_case()) { int q[3] = { k, i, j }; mc_input(q, sizeof q); line_kind = k; arg = i | j << 4; exhaust(o_request, "request"); }
    mc_section("answers of every kind, failing transmissions"); for (k = 0; k < 2; k++) for (i = 0; i < NANS; i++) for (j = 0; j < 4; j++) for (n = 0; n < 5; n++) if (mc_case()) { int q[4] = { k, i, j, n }; static const op O[] = { o_request2, o_read2, o_probe2, o_scan2 }; static const char *N[] = { "request", "read", "probe", "scan" }; mc_input(q, sizeof q); line_kind = k; arg = i; wfail_at = n; exhaust(O[j], N[j]); wfail_at = 0; }
    mc_section("reading, selecting, probing, scanning"); for (k = 0; k < 2; k++) for (i = 0; i < 3; i++) for (j = 0; j < 4; j++) if (mc_case()) { int q[3] = { k, i, j }; static const op O[] = { o_read, o_select, o_probe, o_scan }; static const char *N[] = { "read", "select", "probe", "scan" }; mc_input(q, sizeof q); line_kind = k; arg = j == 0 ? i & 1 : i; exhaust(O[j], N[j]); }
}
