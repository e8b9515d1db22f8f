/* P08: reported secondary addresses select the meter they came from; malformed masks are refused. */
#include "util.h"
static const int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static mbus_frame *sel; 
static void sel_reset(void) { frame_fill(sel, 0x6B); sel->type = RT_LONG; sel->start1 = sel->start2 = 0x68; sel->stop = 0x16; }
static void check_select(const char *mask, const uint8_t *hd)
{
    int r, n; uint8_t o[64], e[64];
    sel_reset(); r = mbus_frame_select_secondary_pack(sel, (char *)mask);
    MC_CHECK(r == 0, "secondary address %s refused", mask);
    n = mk_long(e, 0x73, 0xFD, 0x52, hd, 8);
    r = mbus_frame_pack(sel, o, sizeof o);
    MC_CHECK(r == n && !memcmp(o, e, n), "address %s selects with %s, the meter's header needs %s", mask, mc_hex(o, r > 0 ? r : 0), mc_hex(e, n));
}
static void one(const uint8_t *hd, int rest)
{
    uint8_t d[64], b[100]; mbus_frame f; char *a; char exp[32], m2[32]; int i, n;
    memcpy(d, hd, 8); memset(d + 8, 0, 4); if (rest) memcpy(d + 12, "\x01\x78\x05", 3);
    mc_input(hd, 8);
    n = mk_long(b, 8, 1, 0x72, d, rest ? 15 : 12); if (parse_fresh(&f, b, n, 0x22)) mc_fail("valid telegram refused");
    a = mbus_frame_get_secondary_address(&f); MC_CHECK(a != NULL, "no secondary address for header %s", mc_hex(hd, 8));
    sprintf(exp, "%02X%02X%02X%02X%02X%02X%02X%02X", hd[3], hd[2], hd[1], hd[0], hd[4], hd[5], hd[6], hd[7]);
    MC_CHECK(!strcmp(a, exp), "header %s reported as secondary address %s, expected %s", mc_hex(hd, 8), a, exp);
    MC_CHECK(mbus_is_secondary_address(a) == 1, "reported address %s is not a valid secondary address", a);
    snprintf(m2, sizeof m2, "%s", a); check_select(m2, hd);
    for (i = 0; m2[i]; i++) if (m2[i] >= 'A') m2[i] |= 0x20;
    check_select(m2, hd); mc_trans(3);
}
void mc_main(void)
{
    uint8_t h[8]; static const uint8_t base[3][8] = { { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07 }, { 0, 0, 0, 0, 0, 0, 0, 0 }, { 0xEF, 0xCD, 0xAB, 0x9A, 0xFF, 0xFF, 0xFF, 0xFF } };
    int i, j, a, b, k, n; char m[64];
    sel = malloc(sizeof *sel);
    mc_section("pairs of identification digits");
    for (k = 0; k < 3; k++) for (i = 0; i < 8; i++) for (j = i + 1; j < 8; j++) for (a = 0; a < 16; a++) for (b = 0; b < 16; b++) {
        if (!mc_case()) continue; memcpy(h, base[k], 8); h[i / 2] = i & 1 ? (h[i / 2] & 0x0F) | a << 4 : (h[i / 2] & 0xF0) | a; h[j / 2] = j & 1 ? (h[j / 2] & 0x0F) | b << 4 : (h[j / 2] & 0xF0) | b; one(h, k & 1); }
    mc_section("pairs of header bytes");
    for (k = 0; k < 3; k++) for (i = 0; i < 8; i++) for (j = i + 1; j < 8; j++) for (a = 0; a < 256; a++) for (b = 0; b < 256; b += (k == 0 && (j == i + 1 || mc_thorough)) ? 1 : 37) { if (!mc_case()) continue; memcpy(h, base[k], 8); h[i] = a; h[j] = b; one(h, k & 1); }
    mc_section("masks: single character mutations");
    for (k = 0; k < 4; k++) for (i = 0; i < 16; i++) for (a = 1; a < 256; a++) {
        static const char *bm[4] = { "1234567824400107", "FFFFFFFFFFFFFFFF", "00F0FFFFffff01ff", "abcdef0123456789" }; int r, ok;
        if (!mc_case()) continue;
        strcpy(m, bm[k]); m[i] = a; mc_input(m, 16); mc_note("mask %s", m); ok = hexv(a) >= 0; sel_reset();
        MC_CHECK(mbus_is_secondary_address(m) == ok, "mask with character %02X at %d judged %s", a, i, ok ? "invalid" : "valid");
        if (ok) { uint8_t v[16]; for (j = 0; j < 16; j++) v[j] = hexv(m[j]); uint8_t hd[8] = { v[6] << 4 | v[7], v[4] << 4 | v[5], v[2] << 4 | v[3], v[0] << 4 | v[1], v[8] << 4 | v[9], v[10] << 4 | v[11], v[12] << 4 | v[13], v[14] << 4 | v[15] }; check_select(m, hd); }
        else { mbus_handle *l; r = mbus_frame_select_secondary_pack(sel, m); MC_CHECK(r != 0, "malformed mask accepted"); l = line_open(k & 1, -1); r = mbus_send_select_frame(l, m); MC_CHECK(r != 0 && E.tx_cnt == 0, "malformed mask sent"); line_close(l); }
        mc_outcome(ok ? "valid mask" : "malformed mask");
    }
    mc_section("wildcards are per position");
    for (a = 0; a < 256; a++) for (k = 0; k < 2; k++) {
        uint8_t hd[8] = { 0x78, 0x56, 0x34, 0x12, 0x11, 0x22, 0x33, 0x44 };
        if (!mc_case()) continue; strcpy(m, "1234567811223344");
        for (i = 0; i < 8; i++) if (a >> i & 1) { m[i] = k ? 'f' : 'F'; hd[3 - i / 2] |= i & 1 ? 0x0F : 0xF0; }
        mc_input(m, 16); check_select(m, hd); { mbus_handle *l = line_open(a & 1, -1); uint8_t e[64]; n = mk_long(e, 0x73, 0xFD, 0x52, hd, 8); MC_CHECK(mbus_send_select_frame(l, m) == 0 && E.tx_n == n && !memcmp(E.tx, e, n), "mask %s transmitted as %s", m, mc_hex(E.tx, E.tx_n)); line_close(l); }
    }
    mc_section("masks: lengths");
    for (i = 0; i < 60; i++) for (k = 0; k < 2; k++) if (i != 16 && mc_case()) { mc_input(&i, 4); memset(m, k ? 'F' : '1', 60); m[i] = 0; sel_reset(); MC_CHECK(mbus_is_secondary_address(m) == 0, "mask of %d characters judged valid", i); MC_CHECK(mbus_frame_select_secondary_pack(sel, m) != 0, "mask of %d characters accepted", i); }
    mc_section("absent arguments");
    if (mc_case()) { mbus_frame f; mc_input("n", 1); MC_CHECK(mbus_is_secondary_address(NULL) == 0, "absent mask valid"); sel_reset(); MC_CHECK(mbus_frame_select_secondary_pack(sel, NULL) != 0 && mbus_frame_select_secondary_pack(NULL, "1234567811223344") != 0, "absent argument accepted"); MC_CHECK(mbus_frame_get_secondary_address(NULL) == NULL, "absent telegram has an address"); }
    mc_section("telegrams without secondary address");
    for (a = 0; a < 256; a++) for (n = 0; n < 20; n++) for (k = 0; k < 6; k++) {
        static const uint8_t ctl[] = { 0x53, 0x73, 0x08, 0x18, 0x28, 0x38 }; uint8_t d[32], b[64]; mbus_frame f; char *s; int c;
        int ok; if (!mc_case()) continue; pat(d, 32, 0); memset(d + 12, 0x2F, 20); c = mk_long(b, ctl[k], 1, a, d, n); mc_input(b, c); parse_fresh(&f, b, c, 0); s = mbus_frame_get_secondary_address(&f); ok = a == 0x72 && n >= 12 && k >= 2;
        MC_CHECK((s != NULL) == ok, "control %02X ci %02X with %d data bytes: secondary address %s", ctl[k], a, n, s ? s : "absent"); }
}
