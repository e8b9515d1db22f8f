/* P22: no byte sequence makes the parser, a decoder or a printer leave its memory, loop, lose memory or compute undefined results. */
#include "sinks.h"
#include "frames.h"
static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD }; static int dbg;
static void clean(void) { MC_CHECK(mem_live() == 0, "memory not released: %s", mem_describe()); MC_CHECK(!M.bad_free, "memory released twice"); }
/* parse exactly these bytes, then do everything with the result */
static void bytes(const uint8_t *b, int n, int deep)
{
    mbus_frame *f; int r, s[3]; mem_begin(0xCB); f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); memset(f, 0xA5, sizeof *f); f->next = NULL; f->timestamp = 1700000000; r = mbus_parse(f, guard_copy(0, b, n), n); mc_trans(1); s[0] = r < 0 ? -1 : r > 0; mc_outcome(r ? r < 0 ? "refused" : "incomplete" : f->type == MBUS_FRAME_TYPE_LONG ? "long" : "other telegram");
    if (r == 0) { sk_frame(f, deep); mc_trans(1); s[1] = f->type; s[2] = f->type == MBUS_FRAME_TYPE_LONG ? f->control_information : 0; } else { s[1] = 0; s[2] = b && n ? b[0] : -1; mbus_frame_direction(f); } mc_state(s, sizeof s); mbus_frame_free(f); clean();
}
static void user(int c, int ci, const uint8_t *d, int n) { uint8_t s[300]; int l = n ? mk_long(s, c, 5, ci, d, n) : 9; if (!n) { s[0] = s[3] = 0x68; s[1] = s[2] = 3; s[4] = c; s[5] = 5; s[6] = ci; s[7] = c + 5 + ci; s[8] = 0x16; } bytes(s, l, 1); }
static void var(const uint8_t *b, int n) { uint8_t s[256]; if (n > 240) n = 240; mc_input(b, n); memcpy(s, HB, 12); memcpy(s + 12, b, n); user(8, 0x72, s, n + 12); }
static const uint8_t CL[] = { 0x68, 0x16, 0x10, 0xE5, 0x00, 0x01, 0x03, 0x04, 0x05, 0xFF, 0x72, 0x73, 0x70, 0x53, 0x08 };
static const uint8_t ST[] = { 0x00, 0x01, 0x04, 0x0D, 0x0F, 0x1F, 0x2F, 0x80, 0x8D, 0xFF, 0x7C, 0xFC, 0xFD, 0xFB, 0x6D, 0x3D, 0x03, 0xF5, 0xEF, 0xC3 };
static void every(const uint8_t *al, int na, int depth, void (*f)(const uint8_t *, int)) { int n; uint8_t s[16]; for (n = 0; n <= depth; n++) { int ix[16] = {0}, i; for (;;) { if (mc_case()) { for (i = 0; i < n; i++) s[i] = al[ix[i]]; f(s, n); } for (i = n - 1; i >= 0 && ++ix[i] == na; i--) ix[i] = 0; if (i < 0) break; } } }
static void raw_bytes(const uint8_t *b, int n) { mc_input(b, n); bytes(b, n, 1); }
static void framed(const uint8_t *b, int n) { uint8_t s[32]; mc_input(b, n); s[0] = s[3] = 0x68; s[1] = s[2] = n; memcpy(s + 4, b, n); { int i, c = 0; for (i = 0; i < n; i++) c += b[i]; s[4 + n] = c; } s[5 + n] = 0x16; bytes(s, n + 6, 1); }
static void lvar(int c, int l, int fill, int more) { uint8_t s[256]; int k = 0, i; s[k++] = 0x0D; s[k++] = 0x13; s[k++] = c; for (i = 0; i < l && k < 240; i++) s[k++] = fill == 256 ? i * 37 : fill; while (more-- > 0 && k < 240) s[k++] = 0x2F; var(s, k); }
static int lvlen(int c) { return c <= 0xBF ? c : c <= 0xC9 && c >= 0xC0 ? c - 0xC0 : c >= 0xD0 && c <= 0xD9 ? c - 0xD0 : c >= 0xE0 && c <= 0xEF ? c - 0xE0 : c >= 0xF0 && c <= 0xF4 ? (c - 0xEC) * 4 : c == 0xF5 ? 48 : c == 0xF6 ? 64 : 0; }
static void both_debug(const uint8_t *b, int n) { bytes(b, n, 1); mbus_parse_set_debug(1); bytes(b, n, 1); mbus_parse_set_debug(0); }
void mc_main(void)
{
    int a, b, c, i, j, k, l, n; uint8_t s[512]; static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
    mc_section("byte strings"); every(CL, sizeof CL, mc_thorough ? 6 : 5, raw_bytes); if (mc_case()) { mc_input("null", 4); bytes(NULL, 0, 0); MC_CHECK(mbus_parse(NULL, s, 5) < 0 && mbus_parse(NULL, NULL, 0) < 0, "accepted without a telegram"); }
    mc_section("complete telegrams of few bytes"); every(CL, sizeof CL, mc_thorough ? 6 : 5, framed);
    mc_section("record structures"); every(ST, sizeof ST, mc_thorough ? 5 : 4, var);
    mc_section("user data without header"); for (k = 0; k < 3; k++) for (a = 0; a < 256; a++) for (n = 0; n <= 246; n++) if (n < 20 || n > 240 || mc_thorough || (n + a) % 7 == 0 || a == 0x72 || a == 0x73) if (mc_case()) { if (k < 2) memset(s, k ? 0xFF : 0x00, n); else for (i = 0; i < n; i++) s[i] = i * 29 + a; { uint8_t q[3] = { k, a, n }; mc_input(q, 3); } user(a & 1 && k == 2 ? 0x53 : 8, a, s, n); }
    mc_section("all controls"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b += (a & 7) == 0 || mc_thorough ? 1 : 5) if (mc_case()) { uint8_t q[2] = { a, b }; mc_input(q, 2); memcpy(s, HB, 12); memcpy(s + 12, "\x01\x13\x2A\x02\x6C", 5); s[17] = a; s[18] = b; user(a, b, s, 16 + b % 4); }
    mc_section("every value byte of every DIF x VIF"); for (a = 0; a < 256; a++) if (a & 15 && (a & 15) != 15 && (a & 15) != 13 && (a & 15) != 8) for (b = 0; b < 128; b++) for (k = 0; k < 3; k++) if (mc_thorough || ((a & 0xC0) == 0 && (b == 0x13 || b >= 0x6C && b < 0x70 || b == 0x78 || b == 0x2B || (a & 0x30) == 0)) || (a * 3 + b) % 5 == k) if (mc_case()) { uint8_t q[3] = { a, b, k }; int L = len[a & 15]; mem_begin(0); mc_input(q, 3);
        for (i = 0; i < L; i++) for (c = 0; c < 256; c += (b & 3) == 0 || b == 0x6D ? 1 : 17) { mbus_frame f; mbus_frame_data *fd; n = 12; memcpy(f.data, HB, 12); f.data[n++] = a; if (a & 0x80) f.data[n++] = 0x31; f.data[n++] = b; if (b == 0x7C) { f.data[n++] = 1; f.data[n++] = 'k'; } for (j = 0; j < L; j++) f.data[n++] = j == i ? c : k == 0 ? 0 : k == 1 ? 0xFF : 0x7F + 0x21 * j; f.type = MBUS_FRAME_TYPE_LONG; f.control = 8; f.control_information = 0x72; f.data_size = n; f.next = NULL; f.timestamp = 5; fd = mbus_frame_data_new(); if (mbus_frame_data_parse(&f, fd)) mc_fail("refused"); mbus_data_record *r = fd->data_var.record; if (!r) mc_fail("no record"); sk_record(r); mbus_frame_data_free(fd); mc_eval(1); } mc_trans(1); clean(); mc_outcome("value bytes"); }
    mc_section("variable length: every code, every number of bytes present"); for (c = 0; c < 256; c++) { l = lvlen(c); for (k = 0; k < 4; k++) { static const int fl[] = { 0, 0xFF, '<', 256 }; for (n = l > 6 && !mc_thorough ? l - 6 : 0; n <= l + 2 && n <= 236; n++) if (mc_case()) lvar(c, n, fl[k], 0); if (mc_case()) lvar(c, l, fl[k], 300); } }
    mc_section("text units: every length, every number of bytes present"); for (a = 0; a < 2; a++) for (l = 0; l < 256; l++) for (n = 0; n <= l + 3 && n < 236; n++) if (n + 6 >= l || n < 3 || mc_thorough) if (mc_case()) { k = 0; s[k++] = 0x01; s[k++] = a ? 0xFC : 0x7C; s[k++] = l; for (i = 0; i < n; i++) s[k++] = 0x41 + i; var(s, k); }
    mc_section("manufacturer data: every length and byte"); for (a = 0; a < 2; a++) for (n = 0; n <= 239; n++) for (k = 0; k < 4; k++) if (mc_case()) { s[0] = a ? 0x1F : 0x0F; for (i = 0; i < n; i++) s[1 + i] = k == 0 ? 0 : k == 1 ? 0xFF : k == 2 ? 0x0F : i * 7; var(s, n + 1); }
    mc_section("extension chains"); for (i = 0; i <= 12; i++) for (j = 0; j <= 12; j++) for (a = 0; a < 16; a++) for (b = 0; b < 4; b++) for (c = -4; c <= 1; c++) if (c == 0 || mc_thorough || (i >= 9 && j >= 9) || i == 0 || j == 0) if (mc_case()) { static const uint8_t vf[] = { 0x13, 0x7D, 0x7B, 0x6D }; k = 0; s[k++] = a | (i ? 0x80 : 0); for (l = 0; l < i; l++) s[k++] = (l + 1 < i ? 0x80 : 0) | 0x3F; s[k++] = vf[b] | (j ? 0x80 : 0); for (l = 0; l < j; l++) s[k++] = (l + 1 < j ? 0x80 : 0) | (0x10 * a + l); if (a == 13) s[k++] = 2; for (l = 0; l < (a == 13 ? 2 : len[a]); l++) s[k++] = 0x99; k += c; if (k > 0) var(s, k); }
    mc_section("fixed telegrams"); for (i = 0; i < 16; i++) for (j = i; j < 16; j++) for (a = 0; a < 256; a += j == i || mc_thorough ? 1 : 15) for (b = 0; b < 256; b += j == i ? 256 : 17) if (mc_case()) { for (k = 0; k < 16; k++) s[k] = 0x12 + k; s[i] = a; if (j > i) s[j] = b; mc_input(s, 16); user(8, 0x73, s, 16); }
    mc_section("real telegrams, every byte changed and every prefix"); for (i = 0; i < N_FRAMES; i++) for (j = 0; j < FRAMES[i].n; j++) if (mc_case()) { static const int dl[] = { 1, 2, 4, 8, 16, 32, 64, 128, 255, 127, 0x0F, 0xF0 }; uint8_t q[4] = { 'F', i, j & 255, j >> 8 }; mc_input(q, 4); n = FRAMES[i].n; bytes(FRAMES[i].b, j, 0); if (n < (int)sizeof s) for (k = 0; k < (mc_thorough ? 255 : 12); k++) { memcpy(s, FRAMES[i].b, n); s[j] ^= mc_thorough ? k + 1 : dl[k]; if (n > 6 && s[0] == 0x68 && j > 3 && j < n - 2) { s[n - 2] = 0; for (l = 4; l < n - 2; l++) s[n - 2] += s[l]; } bytes(s, n, 0); mc_eval(1); } }
    mc_section("real telegrams with debugging output"); for (i = 0; i < N_FRAMES; i++) if (mc_case()) { uint8_t q[2] = { 'D', i }; mc_input(q, 2); both_debug(FRAMES[i].b, FRAMES[i].n); }
    mc_section("debugging output"); for (a = 0; a < 256; a++) for (n = 0; n <= 246; n += 13) if (mc_case()) { uint8_t q[3] = { 'd', a, n }; for (i = 0; i < n; i++) s[i] = i * 29 + a; mc_input(q, 3); mbus_parse_set_debug(1); user(8, n & 1 ? 0x72 : 0x73, s, n); mbus_parse_set_debug(0); }
    mc_section("decoders: every size"); for (n = 0; n <= 9; n++) for (a = 0; a < 256; a++) if (mc_case()) { int iv; long lv; long long ll; struct tm tm; uint8_t q[3] = { 'n', n, a }; mc_input(q, 3); for (i = 0; i < n; i++) for (k = 0; k < 3; k++) { memset(s, k == 0 ? 0 : k == 1 ? 0xFF : 0x7A, n); s[i] = a; { uint8_t *g = guard_copy(0, s, n); mbus_data_bcd_decode(g, n); mbus_data_bcd_decode_hex(g, n > 7 ? 7 : n); if (n <= 4) mbus_data_int_decode(g, n, &iv); if (n <= 8) { mbus_data_long_decode(g, n, &lv); mbus_data_long_long_decode(g, n, &ll); mbus_data_tm_decode(&tm, g, n); } if (n == 4) mbus_data_float_decode(g); } } mc_trans(1); mc_outcome("decoder"); }
    mc_section("text and binary decoders: every size and buffer"); for (n = 0; n <= 255; n++) if (mc_case()) { uint8_t *o, *g; uint8_t q[3] = { 't', n, 0 }; mc_input(q, 3); memset(s, 0x9C, n); g = guard_copy(1, s, n); o = guard_buf(0, n + 1); mbus_data_str_decode(o, g, n); MC_CHECK(guard_canary_ok(0, n + 1) && o[n] == 0, "text of %d bytes", n); for (k = 0; k <= 3 * n + 2; k++) { o = guard_buf(0, k ? k : 1); memset(o, 'Q', k ? k : 1); mbus_data_bin_decode(o, g, n, k); MC_CHECK(guard_canary_ok(0, k ? k : 1), "binary data of %d bytes in a buffer of %d", n, k); if (k) MC_CHECK(memchr(o, 0, k) != NULL, "binary data of %d bytes in a buffer of %d not terminated", n, k); mc_eval(1); } mc_trans(1); }
    mc_section("tables"); for (a = 0; a < 65536; a++) if (mc_case()) { mbus_data_variable_header h; uint8_t q[3] = { 'h', a & 255, a >> 8 }; mc_input(q, 3); memset(&h, 0, sizeof h); h.manufacturer[0] = a; h.manufacturer[1] = a >> 8; for (b = 0; b < 256; b += a == 0 || mc_thorough ? 1 : 15) { h.version = b; sk("p", mbus_data_product_name(&h)); } mbus_decode_manufacturer(a, a >> 8); sk("v", mbus_vif_unit_lookup(a)); ski("l", mbus_dif_datalength_lookup(a)); sk("u", mbus_unit_prefix((int16_t)a)); sk("e", mbus_data_error_lookup((int16_t)a)); sk("m", mbus_data_variable_medium_lookup(a)); sk("f", mbus_data_fixed_unit((int16_t)a)); sk("s", mbus_data_fixed_function((int16_t)a)); { mbus_value_information_block v; memset(&v, 0, sizeof v); v.vif = a; v.nvife = 2; v.vife[0] = a >> 8; v.vife[1] = a; sk("b", mbus_vib_unit_lookup(&v)); v.nvife = 0; sk("b", mbus_vib_unit_lookup(&v)); } mc_outcome("tables"); }
    mc_section("manufacturer codes"); { static const uint8_t al[] = { 'A', 'Z', 'a', 'z', '@', '[', '`', '{', '0', ' ', 0x80, 0xFF, 0x01 }; for (n = 0; n <= 4; n++) { int ix[5] = {0}; for (;;) { if (mc_case()) { uint8_t m[2]; for (i = 0; i < n; i++) s[i] = al[ix[i]]; s[n] = 0; mc_input(s, n + 1); mbus_manufacturer_id((char *)guard_copy(0, s, n + 1)); if (n == 3) mbus_data_manufacturer_encode(m, guard_copy(0, s, 3)); mc_outcome("code"); } for (i = n - 1; i >= 0 && ++ix[i] == sizeof al; i--) ix[i] = 0; if (i < 0) break; } } }
    mc_section("nothing at all"); if (mc_case()) { double d; char *cp = NULL; int z; mc_input("0", 1); mem_begin(0); mbus_frame_print(NULL); mbus_frame_data_print(NULL); mbus_data_variable_print(NULL); mbus_data_fixed_print(NULL); mbus_data_variable_header_print(NULL); mbus_frame_data_parse(NULL, NULL); mbus_data_variable_parse(NULL, NULL); mbus_data_fixed_parse(NULL, NULL); mbus_frame_pack(NULL, NULL, 0); mbus_frame_verify(NULL); mbus_frame_internal_pack(NULL, NULL); mbus_frame_type(NULL); mbus_frame_direction(NULL); mbus_frame_free(NULL); mbus_frame_data_free(NULL); mbus_data_record_free(NULL); mbus_frame_xml(NULL); mbus_frame_get_secondary_address(NULL); mbus_frame_calc_checksum(NULL); mbus_frame_calc_length(NULL); mbus_data_record_function(NULL); mbus_data_record_unit(NULL); mbus_data_record_value(NULL); mbus_data_record_storage_number(NULL); mbus_data_record_tariff(NULL); mbus_data_record_device(NULL); mbus_data_product_name(NULL); mbus_data_fixed_medium(NULL); mbus_vib_unit_lookup(NULL); mbus_manufacturer_id(NULL); mbus_hex_dump(NULL, NULL, 5); mbus_parse_variable_record(NULL); mbus_record_free(NULL); mbus_variable_value_decode(NULL, &d, &cp, &z); mbus_data_bcd_decode(NULL, 4); mbus_data_bcd_decode_hex(NULL, 4); mbus_data_int_decode(NULL, 4, &z); mbus_data_tm_decode(NULL, NULL, 4); mbus_data_str_decode(NULL, NULL, 4); mbus_data_bin_decode(NULL, NULL, 4, 4); mbus_data_variable_header_xml(NULL); mbus_is_secondary_address(NULL); mbus_data_manufacturer_encode(NULL, NULL); mbus_data_bcd_encode(NULL, 4, 1); mbus_data_int_encode(NULL, 4, 1); { char big[2000]; memset(big, 0x62, 1999); big[1999] = 0; mbus_error_str_set("x"); mbus_error_str_set(NULL); MC_CHECK(!strcmp(mbus_error_str(), "x"), "message changed by none"); mbus_error_str_set(big); MC_CHECK(strlen(mbus_error_str()) > 99 && strlen(mbus_error_str()) < 1999 && !strncmp(mbus_error_str(), big, strlen(mbus_error_str())), "long message"); mbus_error_str_set("100%s%n"); MC_CHECK(!strcmp(mbus_error_str(), "100%s%n"), "message with format characters"); } mbus_error_str_set("x"); mbus_error_reset(); for (z = 0; z < 300; z++) { mbus_slave_data *q = mbus_slave_data_get(z), *b = mbus_slave_data_get(0); MC_CHECK(z < MBUS_MAX_PRIMARY_SLAVES ? q == b + z : !q, "slave register %d", z); if (q) memset(q, z, sizeof *q); } MC_CHECK(!mbus_slave_data_get((size_t)-1), "slave register of -1"); for (z = 0; z < MBUS_MAX_PRIMARY_SLAVES; z++) memset(mbus_slave_data_get(z), 0, sizeof(mbus_slave_data)); clean(); mc_outcome("refused"); }
}
