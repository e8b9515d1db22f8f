/* P28: encoders and decoders are inverse; manufacturer codes follow the three letter rule. */
#include "util.h"
#include <ctype.h>
static void bcd(int n, int v)
{
    uint8_t *b = guard_buf(1, n); long long r; int k, d[3] = { n, v, 1 };
    mc_input(d, sizeof d); k = mbus_data_bcd_encode(b, n, v); mc_trans(1);
    MC_CHECK(k == 0, "BCD encoding of %d in %d bytes refused", v, n); MC_CHECK(guard_canary_ok(1, n), "wrote in front of the buffer");
    r = mbus_data_bcd_decode(b, n); MC_CHECK(r == v, "%d written as BCD %s reads back as %lld", v, mc_hex(b, n), r);
}
static void inte(int n, int v)
{
    uint8_t *b = guard_buf(1, n); int k, d[3] = { n, v, 2 }, iv = 0; long lv = 0; long long lr = 0; int i; unsigned long long s = 0;
    mc_input(d, sizeof d); k = mbus_data_int_encode(b, n, v); mc_trans(1);
    MC_CHECK(k == 0, "integer encoding refused"); MC_CHECK(guard_canary_ok(1, n), "wrote in front of the buffer");
    for (i = 0; i < n; i++) MC_CHECK(b[i] == (uint8_t)((long long)v >> (8 * i)), "%d encoded in %d bytes as %s", v, n, mc_hex(b, n));
    MC_CHECK(mbus_data_long_long_decode(b, n, &lr) == 0 && lr == v, "%d written as %s reads back as %lld", v, mc_hex(b, n), lr);
    MC_CHECK(mbus_data_long_decode(b, n, &lv) == 0 && lv == v, "%d written as %s reads back as %ld", v, mc_hex(b, n), lv);
    if (n <= 4) MC_CHECK(mbus_data_int_decode(b, n, &iv) == 0 && iv == v, "%d written as %s reads back as %d", v, mc_hex(b, n), iv);
}
static int fits(int n, int v) { if (n >= 4) return 1; return v >= -(1 << (8 * n - 1)) && v < (1 << (8 * n - 1)); }
static long long p10(int n) { long long r = 1; while (n--) r *= 10; return r; }
static int bfits(int n, long long v) { return v >= 0 ? v < p10(2 * n) : -v < p10(2 * n - 1); }
void mc_main(void)
{
    static const uint8_t al[] = { 'A', 'B', 'M', 'Z', 'a', 'm', 'z', '@', '[', '`', '{', '0', ' ', 0x80, 0xC1, 0xE1 };
    int i, j, k, n, v; char s[8]; long long x;
    mc_section("all three letter codes");
    for (i = 0; i < 26; i++) for (j = 0; j < 26; j++) for (k = 0; k < 26; k++) for (n = 0; n < 3; n++) if (mc_case()) {
        unsigned id; uint8_t b[2]; const char *d; char u[4] = { 'A' + i, 'A' + j, 'A' + k, 0 };
        sprintf(s, "%c%c%c%s", u[0] | (n == 1 ? 0x20 : 0), u[1] | (n ? 0x20 : 0), u[2], n == 2 ? "x" : ""); mc_input(s, 4); mc_note("%s", s);
        id = mbus_manufacturer_id(s); MC_CHECK(id == (unsigned)((i + 1) * 1024 + (j + 1) * 32 + k + 1), "manufacturer code %s is %04X", s, id);
        d = mbus_decode_manufacturer(id & 0xFF, id >> 8); MC_CHECK(!strcmp(d, u), "code %s (%04X) decodes as %s", u, id, d);
        MC_CHECK(mbus_data_manufacturer_encode(b, (uint8_t *)u) == 0 && b[0] == (id & 0xFF) && b[1] == id >> 8, "code %s encoded as %02X%02X", u, b[0], b[1]); mc_trans(3); }
    mc_section("codes outside the rule");
    for (n = 0; n <= 4; n++) { int ix[4] = {0}; for (;;) {
        if (mc_case()) { unsigned id, e = 0; for (i = 0; i < n; i++) s[i] = al[ix[i]]; s[n] = 0; mc_input(s, n + 1);
            if (n >= 3) { for (e = 0, i = 0; i < 3; i++) { int c = (uint8_t)s[i]; if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))) { e = 0; break; } e = e * 32 + (c & 0x1F); } }
            id = mbus_manufacturer_id(s); mc_trans(1); MC_CHECK(id == e, "\"%s\" gives manufacturer code %04X, expected %04X", s, id, e); mc_outcome(e ? "code" : "no code"); }
        for (i = n - 1; i >= 0 && ++ix[i] == (int)sizeof al; i--) ix[i] = 0; if (i < 0) break; } }
    if (mc_case()) { mc_input("n", 1); MC_CHECK(mbus_manufacturer_id(NULL) == 0, "absent code"); }
    mc_section("all 16-bit manufacturer fields");
    for (v = 0; v < 65536; v++) if (mc_case()) { const char *d = mbus_decode_manufacturer(v & 0xFF, v >> 8); char e[4] = { 64 + (v >> 10 & 31), 64 + (v >> 5 & 31), 64 + (v & 31), 0 }; mc_input(&v, 4); mc_trans(1); MC_CHECK(!strcmp(d, e), "manufacturer field %04X decodes as %s", v, d); }
    mc_section("BCD: all values of 1..3 bytes");
    for (n = 1; n <= 3; n++) for (x = -p10(2 * n - 1) + 1; x < p10(2 * n); x += (n == 3 && !mc_thorough) ? 1 : 1) if (mc_case()) bcd(n, x);
    mc_section("BCD: boundary values");
    for (n = 1; n <= 7; n++) for (i = 0; i <= 10; i++) for (j = -12; j <= 12; j++) for (k = 1; k < 10; k++) for (v = -1; v <= 1; v += 2) { x = v * (p10(i) * k + j); if (x >= -2147483648LL && x <= 2147483647LL && bfits(n, x) && mc_case()) bcd(n, x); }
    for (n = 5; n <= 8; n++) { if (mc_case()) bcd(n, 2147483647); if (n > 5 && mc_case()) bcd(n, -2147483647 - 1); }
    mc_section("integers: all values of 1..2 bytes in every width");
    for (n = 1; n <= 8; n++) for (v = -32768; v < 32768; v++) if (fits(n, v) && mc_case()) inte(n, v);
    mc_section("integers: boundary values");
    for (n = 1; n <= 8; n++) for (i = 0; i < 32; i++) for (j = 0; j < 32; j++) for (k = -2; k <= 2; k++) for (v = 0; v < 2; v++) { int y = (int)((1u << i) ^ (1u << j)) + 0; y = (int)((unsigned)y + (unsigned)k); if (v) y = (int)~(unsigned)y; if (fits(n, y) && mc_case()) inte(n, y); }
    if (mc_thorough > 1) { mc_section("integers: all 32-bit values"); for (long w = -(1L << 31); w < 1L << 31; w++) if (mc_case()) inte(4, w); }
    if (mc_thorough) { mc_section("integers: all 24-bit values"); for (v = -(1 << 23); v < 1 << 23; v++) if (mc_case()) inte(3, v); }
    mc_section("absent arguments"); if (mc_case()) { uint8_t b[4]; int iv; long lv; long long llv; mc_input("a", 1); MC_CHECK(mbus_data_bcd_encode(NULL, 4, 1) != 0 && mbus_data_int_encode(NULL, 4, 1) != 0 && mbus_data_manufacturer_encode(NULL, b) != 0 && mbus_data_manufacturer_encode(b, NULL) != 0, "absent buffer accepted"); MC_CHECK(mbus_data_int_decode(NULL, 4, &iv) != 0 && mbus_data_long_decode(NULL, 4, &lv) != 0 && mbus_data_long_long_decode(NULL, 4, &llv) != 0, "absent data decoded"); }
}
