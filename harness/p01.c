/* P01: a byte sequence is accepted exactly when it is a telegram, and its fields are the telegram's bytes. */
#include "util.h"
static mbus_frame *F;
static void one(const uint8_t *b, int n)
{
    rframe r; int need, loose, rv, k;
    rv = ref_parse(b, n, &r, &need, &loose);
    if (rv == RV_BAD && n > 3) mc_input_trivial(b, n); else mc_input(b, n);
    k = parse_fresh(F, b, n, 0x5A);
    mc_trans(1);
    if (loose) { mc_outcome("loose"); return; }
    if (rv == RV_OK) {
        MC_CHECK(k == 0, "valid telegram not accepted: parser returned %d", k);
        MC_CHECK(F->type == r.type, "telegram type reported %d, is %d", F->type, r.type);
        if (r.type != RT_ACK) {
            MC_CHECK(F->control == r.c, "control field reported %02X, is %02X", F->control, r.c);
            MC_CHECK(F->address == r.a, "address field reported %02X, is %02X", F->address, r.a);
            MC_CHECK(mbus_frame_direction(F) == (r.c & 0x40), "direction reported %d for control %02X", mbus_frame_direction(F), r.c);
        } else MC_CHECK(mbus_frame_direction(F) == 0, "acknowledge is not from slave");
        if (r.type >= RT_CONTROL) {
            MC_CHECK(F->control_information == r.ci, "control information reported %02X, is %02X", F->control_information, r.ci);
            MC_CHECK(F->data_size == (size_t)r.n, "data size reported %zu, is %d", F->data_size, r.n);
            MC_CHECK(!memcmp(F->data, r.d, r.n), "user data differs");
        } else MC_CHECK(F->data_size == 0, "%zu bytes of user data reported for a telegram without", F->data_size);
        MC_CHECK(mbus_frame_type(F) == r.type, "mbus_frame_type");
        MC_CHECK(mbus_frame_verify(F) == 0, "accepted telegram fails verification");
        mc_outcome("accepted type %d", r.type);
    } else if (rv == RV_PART) {
        MC_CHECK(k != 0, "incomplete telegram (%d bytes missing) accepted", need);
        mc_outcome("incomplete");
    } else {
        MC_CHECK(k != 0, "malformed byte sequence accepted as telegram type %d", F->type);
        mc_outcome(k < 0 ? "rejected" : "rejected later");
    }
}
static void all_short(int n, const uint8_t *al, int na)
{
    uint8_t b[8]; int ix[8] = {0}, i;
    for (;;) {
        for (i = 0; i < n; i++) b[i] = al ? al[ix[i]] : ix[i];
        if (mc_case()) one(b, n);
        for (i = n - 1; i >= 0 && ++ix[i] == na; i--) ix[i] = 0;
        if (i < 0) break;
    }
}
void mc_main(void)
{
    static const uint8_t ctl[] = { 0x53, 0x73, 0x08, 0x18, 0x28, 0x38 }, sctl[] = { 0x40, 0x5A, 0x7A, 0x5B, 0x7B };
    static const uint8_t al[] = { 0x10, 0x68, 0xE5, 0x16, 0x00, 0x01, 0x02, 0x03, 0x04, 0x06, 0x40, 0x5B, 0x7B, 0x53, 0x08, 0x9B, 0xFF };
    uint8_t b[600], m[600], d[256]; int i, n, k, p, v, c;
    F = malloc(sizeof *F);
    mc_section("all strings of 1..2 bytes"); all_short(1, NULL, 256); all_short(2, NULL, 256);
    mc_section("strings over the structural alphabet"); for (n = 3; n <= 5 + mc_thorough; n++) all_short(n, al, sizeof al);
    mc_section("all short telegrams: control x checksum x stop");
    for (c = 0; c < 256; c++) for (k = 0; k < 256; k += (mc_thorough ? 1 : 1)) for (v = 0; v < 3; v++) {
        if (!mc_case()) continue;
        b[0] = 0x10; b[1] = c; b[2] = k ^ 0x21; b[3] = c + b[2] + (v == 1); b[4] = v == 2 ? 0x15 : 0x16; one(b, 5);
    }
    mc_section("short telegrams: every checksum value");
    for (i = 0; i < 5; i++) for (k = 0; k < 256; k++) for (v = 0; v < 256; v++) { if (!mc_case()) continue; n = mk_short(b, sctl[i], k); b[3] = v; one(b, n); }
    mc_section("all control codes x lengths");
    for (c = 0; c < 256; c++) for (n = 0; n <= 252; n += (n < 24 || n > 236 || mc_thorough) ? 1 : 7) { if (!mc_case()) continue; pat(d, n, c & 3); k = mk_long(b, c, c ^ 0x5C, 0x72 + (n & 1), d, n); one(b, k); }
    mc_section("all addresses and CI");
    for (c = 0; c < 256; c++) for (i = 0; i < 256; i++) for (n = 0; n < 3; n++) { if (!mc_case()) continue; pat(d, n, 1); k = mk_long(b, 0x08, c, i, d, n); one(b, k); }
    mc_section("header product");
    { static const uint8_t s1[] = { 0x68, 0x10, 0xE5, 0x16, 0x00 }, L[] = { 0, 1, 2, 3, 4, 5, 6, 7, 252, 253, 254, 255 }, st[] = { 0x16, 0x68, 0x17, 0x00 };
      int a, l1, l2, s2, ck, sp, sz;
      for (a = 0; a < 5; a++) for (l1 = 0; l1 < 12; l1++) for (l2 = 0; l2 < 12; l2++) for (s2 = 0; s2 < 5; s2++) for (c = 0; c < 8; c++) for (ck = 0; ck < 4; ck++) for (sp = 0; sp < 4; sp++) for (sz = 7; sz <= 14; sz++) {
        int s = 0;
        if (!mc_thorough && ((a && (s2 || ck)) || (s2 > 1 && ck))) continue;
        if (!mc_case()) continue;
        pat(m, 14, 0); m[0] = s1[a]; m[1] = L[l1]; m[2] = L[l2]; m[3] = s1[s2]; m[4] = c < 6 ? ctl[c] : c == 6 ? 0x40 : 0x54; m[sz - 1] = st[sp];
        for (i = 4; i < sz - 2; i++) s += m[i];
        m[sz - 2] = s + (ck == 1) - (ck == 2) + (ck == 3 ? 0x80 : 0); one(m, sz);
      } }
    mc_section("every length: truncations and extensions");
    for (n = 0; n <= 252; n++) for (k = 0; k < 2; k++) {
        int full, t; pat(d, n, k); full = mk_long(b, ctl[n % 6], n, 0x72, d, n); memset(b + full, 0x16, 8);
        for (t = 1; t <= full + 4; t++) if (mc_case()) one(b, t);
    }
    mc_section("every length: single byte mutations");
    for (n = 0; n <= 252; n++) {
        int full; pat(d, n, n & 3); full = mk_long(b, ctl[n % 6], n * 3, 0x72, d, n);
        for (p = 0; p < full; p++) {
            int edge = p < 7 || p >= full - 2 || n < 12 || mc_thorough;
            for (v = 1; v < 256; v = edge ? v + 1 : v * 2) { if (!mc_case()) continue; memcpy(m, b, full); m[p] ^= v; one(m, full); }
        }
    }
    mc_section("pairs of mutations that keep the checksum");
    for (n = 2; n <= 252; n += mc_thorough ? 1 : 5) for (p = 4; p < 7 + n; p++) for (i = p + 1; i < 7 + n; i += 1 + (n > 20 ? n / 8 : 0)) {
        int full; if (!mc_case()) continue;
        pat(d, n, 0); full = mk_long(b, 0x08, 1, 0x72, d, n); b[p]++; b[i]--; one(b, full);
    }
    mc_section("pairs of mutations in small telegrams");
    for (n = 0; n <= 3; n++) { int full; pat(d, n, 0); full = mk_long(b, 0x18, 9, 0x70, d, n);
        for (p = 0; p < full; p++) for (i = p + 1; i < full; i++) for (v = 1; v < 256; v += mc_thorough ? 1 : 3) for (k = 1; k < 256; k += mc_thorough ? 1 : 5) { if (!mc_case()) continue; memcpy(m, b, full); m[p] += v; m[i] += k; one(m, full); } }
    mc_section("absent arguments");
    if (mc_case()) { mbus_frame f; int r; mc_input("null", 4); r = mbus_parse(NULL, b, 5); MC_CHECK(r != 0, "parsing into no object succeeded"); r = mbus_parse(&f, NULL, 5); MC_CHECK(r != 0, "parsing no data succeeded"); r = mbus_parse(&f, b, 0); MC_CHECK(r != 0, "empty input accepted"); MC_CHECK(mbus_frame_verify(NULL) != 0, "absent telegram verified"); }
    mc_section("verification of tampered telegram objects");
    for (k = 0; k < 4; k++) for (p = 0; p < 9; p++) for (v = 1; v < 256; v++) {
        mbus_frame g; int r, rel;
        if (!mc_case()) continue;
        mc_input((int[]){k, p, v}, 12);
        pat(d, 5, 0); n = k == 0 ? (b[0] = 0xE5, 1) : k == 1 ? mk_short(b, 0x5B, 7) : mk_long(b, 0x08, 7, 0x72, d, k == 2 ? 0 : 5);
        frame_fill(&g, 0); if (mbus_parse(&g, b, n)) mc_fail("valid telegram refused");
        uint8_t *fld[9] = { &g.start1, &g.length1, &g.length2, &g.start2, &g.control, &g.address, &g.control_information, &g.checksum, &g.stop };
        rel = k == 0 ? p == 0 : k == 1 ? (p == 0 || p == 4 || p == 5 || p == 7 || p == 8) : 1;
        *fld[p] ^= v; r = mbus_frame_verify(&g);
        if (rel) MC_CHECK(r != 0, "telegram object of type %d with field %d altered by %02X passes verification", g.type, p, v);
        else MC_CHECK(r == 0, "telegram object of type %d with irrelevant field %d altered by %02X fails verification", g.type, p, v);
    }
}
