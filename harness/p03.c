/* P03: pack gives the standard's bytes, honours the buffer size, and parse inverts it. */
#include "util.h"
static void one(int type, int c, int a, int ci, int n, int kind, int buf /* -1: exact + several smaller */)
{
    rframe r; uint8_t exp[300]; int full, k, sz, i; mbus_frame *f, g; uint8_t *o; int desc[7] = { type, c, a, ci, n, kind, buf };
    mc_input(desc, sizeof desc);
    mc_note("type %d control %02X address %02X ci %02X data %d pattern %d buffer %d", type, c, a, ci, n, kind, buf);
    r.type = type; r.c = c; r.a = a; r.ci = ci; r.n = n; pat(r.d, n, kind);
    if (type == RT_LONG && n == 0) r.type = RT_CONTROL;
    full = ref_pack(&r, exp);
    f = mbus_frame_new(type); if (!f) mc_fail("cannot create a telegram");
    f->control = c; f->address = a; f->control_information = ci;
    if (type == RT_LONG) { f->data_size = n; memcpy(f->data, r.d, n); }
    else { f->data_size = (a * 7 + c) & 0xFF; memset(f->data, 0xC3, sizeof f->data); } /* these formats carry no user data: whatever a used object still holds is none */
    f->length1 = 0x99; f->length2 = 0x77; f->checksum = exp[0] + 1;     /* to be computed by the library */
    for (i = 0; i < 3; i++) {
        sz = i == 0 ? (buf < 0 ? full : buf) : i == 1 ? full : full + 1;
        o = guard_buf(1, sz); k = mbus_frame_pack(f, o, sz); mc_trans(1);
        MC_CHECK(guard_canary_ok(1, sz), "wrote in front of the buffer");
        if (sz < full) { MC_CHECK(k < 0, "telegram of %d bytes packed into %d bytes: returned %d", full, sz, k); continue; }
        MC_CHECK(k == full, "packed size %d, expected %d (buffer %d)", k, full, sz);
        MC_CHECK(!memcmp(o, exp, full), "packed bytes %s, expected %s", mc_hex(o, full), mc_hex(exp, full));
        if (sz > full) MC_CHECK(o[full] == 0xA7, "wrote behind the telegram");
    }
    k = parse_fresh(&g, exp, full, 0x33);
    if ((type == RT_SHORT && !ref_ctl_short(c)) || (type >= RT_CONTROL && !ref_ctl_long(c))) { mbus_frame_free(f); mc_outcome("undefined control"); return; }
    MC_CHECK(k == 0, "packed telegram is not accepted: %d", k);
    MC_CHECK(g.type == r.type, "type changed from %d to %d", r.type, g.type);
    if (type != RT_ACK) MC_CHECK(g.control == c && g.address == a, "control/address changed");
    if (type >= RT_CONTROL) MC_CHECK(g.control_information == ci && g.data_size == (size_t)n && !memcmp(g.data, r.d, n), "ci/data changed");
    o = guard_buf(2, full); k = mbus_frame_pack(&g, o, full);
    MC_CHECK(k == full && !memcmp(o, exp, full), "packing the parsed telegram gives other bytes");
    MC_CHECK(mbus_frame_free(f) == 0, "free");
    mc_outcome("type %d", type); mc_trace(1);
}
void mc_main(void)
{
    static const uint8_t ctl[] = { 0x53, 0x73, 0x08, 0x18, 0x28, 0x38 };
    int c, a, ci, n, k, b;
    mc_section("acknowledge"); for (b = 0; b <= 2; b++) if (mc_case()) one(RT_ACK, 0, 0, 0, 0, 0, b);
    mc_section("short: all controls and addresses"); for (c = 0; c < 256; c++) for (a = 0; a < 256; a++) if (mc_case()) one(RT_SHORT, c, a, 0, 0, 0, a % 6);
    mc_section("control telegrams: all controls, addresses, ci");
    for (c = 0; c < 256; c++) for (a = 0; a < 256; a += mc_thorough ? 1 : 5) for (ci = 0; ci < 256; ci += mc_thorough ? 1 : (c < 0x80 && ref_ctl_long(c)) ? 3 : 51) if (mc_case()) one(RT_CONTROL, c, a, ci, 0, 0, (a + ci) % 10);
    mc_section("long telegrams: every length and every buffer size");
    for (n = 0; n <= 252; n++) for (b = 0; b <= n + 10; b++) if (mc_case()) one(RT_LONG, ctl[n % 6], n, 0x72, n, b & 3, b);
    mc_section("long telegrams: header product");
    for (n = 0; n <= 252; n += (n < 4 || n > 247) ? 1 : 9) for (c = 0; c < 6; c++) for (a = 0; a < 256; a += 15) for (ci = 0; ci < 256; ci += 17) for (k = 0; k < (mc_thorough ? 6 : 2); k++) if (mc_case()) one(RT_LONG, ctl[c], a, ci, n, k, -1);
    mc_section("checksum: single data bytes"); for (n = 1; n <= 3; n++) for (c = 0; c < 256; c++) for (k = 0; k < 256; k += 3) if (mc_case()) { uint8_t o[32], e[32], d[3] = { c, k, c ^ k }; mbus_frame *f = mbus_frame_new(RT_LONG); int m; mc_input((int[]){n, c, k}, 12); f->control = 8; f->address = k; f->control_information = c; f->data_size = n; memcpy(f->data, d, n); m = mbus_frame_pack(f, o, 32); MC_CHECK(m == mk_long(e, 8, k, c, d, n) && !memcmp(o, e, m), "packed %s, expected %s", mc_hex(o, m > 0 ? m : 0), mc_hex(e, n + 9)); mbus_frame_free(f); }
    mc_section("telegrams that do not exist");
    for (k = -2; k < 300; k++) for (b = 0; b < 300; b += 23) {
        mbus_frame f; uint8_t *o; int r;
        if (k >= 1 && k <= 4) continue;
        if (!mc_case()) continue;
        mc_input((int[]){k, b}, 8);
        frame_fill(&f, 0x20); f.type = k; f.data_size = 20; o = guard_buf(1, b); r = mbus_frame_pack(&f, o, b);
        MC_CHECK(r < 0, "telegram of unknown type %d packed: %d", k, r);
        MC_CHECK(guard_canary_ok(1, b), "wrote in front of the buffer");
        MC_CHECK(mbus_frame_verify(&f) != 0, "telegram of unknown type %d verified", k);
    }
    mc_section("more data than a telegram can carry");
    for (n = 253; n < 2000; n += n < 300 ? 1 : 97) for (k = 0; k < 2; k++) {
        mbus_frame *f; uint8_t *o; int r;
        if (!mc_case()) continue;
        mc_input((int[]){n, k}, 8);
        f = mbus_frame_new(RT_LONG); f->control = 8; f->data_size = n; o = guard_buf(1, k ? n + 20 : 261); r = mbus_frame_pack(f, o, k ? n + 20 : 261);
        MC_CHECK(r < 0, "telegram with %d data bytes packed as %d bytes", n, r);
        mbus_frame_free(f);
    }
    mc_section("absent arguments"); if (mc_case()) { uint8_t o[300]; mbus_frame *f = mbus_frame_new(RT_SHORT); mc_input("null", 4); MC_CHECK(mbus_frame_pack(NULL, o, 300) < 0, "absent telegram packed"); MC_CHECK(mbus_frame_pack(f, NULL, 300) < 0, "packed into nothing"); mbus_frame_free(f); }
}
