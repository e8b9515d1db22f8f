/* P15: integers, reals and packed BCD numbers, raw and normalised view. */
#include "util.h"
#include <math.h>
static mbus_frame F; static int n_old;
static const int LEN[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
/* reference decoders, written from the standard */
static long long ref_int(const uint8_t *b, int n) { unsigned long long u = 0; int i; for (i = n - 1; i >= 0; i--) u = u << 8 | b[i]; if (n < 8 && (b[n - 1] & 0x80)) u |= ~0ull << (8 * n); return (long long)u; }
static double ref_float(const uint8_t *b) { int s = b[3] >> 7, e = (b[3] & 127) << 1 | b[2] >> 7; long m = (b[2] & 127L) << 16 | b[1] << 8 | b[0]; double v; if (e == 255) v = m ? NAN : INFINITY; else if (!e) v = ldexp((double)m, -149); else v = ldexp((double)(m | 0x800000), e - 150); return s ? -v : v; }
/* 1 = number in *v; 0 = has digits the number format does not define */
static int ref_bcd(const uint8_t *b, int n, long long *v) { int i, d, neg = 0; *v = 0; for (i = 2 * n - 1; i >= 0; i--) { d = i & 1 ? b[i / 2] >> 4 : b[i / 2] & 15; if (i == 2 * n - 1 && d == 15) { neg = 1; d = 0; } if (d > 9) return 0; *v = *v * 10 + d; } if (neg) *v = -*v; return 1; }
static void hexdigits(char *o, const uint8_t *b, int n) { char t[40]; int i, k = 0; for (i = n - 1; i >= 0; i--) k += sprintf(t + k, "%02X", b[i]); for (i = 0; t[i] == '0' && t[i + 1]; i++); strcpy(o, t + i); }
static int same(double a, double b) { return isnan(a) ? isnan(b) : a == b; }
static void one(const uint8_t *head, int nh, const uint8_t *b, int norm)
{
    int dif = head[0], t = dif & 15, n = LEN[t], k = 12, def = 1, r; long long v = 0; double real = 0; char want[512], got[800]; mbus_frame_data *fd; mbus_data_record *rec; mbus_record *nr;
    memcpy(F.data + k, head, nh); k += nh; memcpy(F.data + k, b, n); k += n; F.data[k++] = 0x01; F.data[k++] = 0x16; F.data[k++] = 0x5A; memset(F.data + k, 0xEE, n_old > k ? n_old - k : 0); n_old = k; F.data_size = k; F.length1 = F.length2 = k + 3;
    fd = mbus_frame_data_new(); r = mbus_frame_data_parse(&F, fd); MC_CHECK(r == 0, "refused"); rec = fd->data_var.record; MC_CHECK(rec && rec->next, "record lost");
    if (t == 5) { real = ref_float(b); snprintf(want, sizeof want, "%f", real); }
    else if (t < 8) { v = ref_int(b, n); real = (double)v; snprintf(want, sizeof want, "%lld", v); }
    else { def = ref_bcd(b, n, &v); real = (double)v; if ((dif & 0x30) == 0x30) { hexdigits(want, b, n); if (def && v < 0) def = 2; } else snprintf(want, sizeof want, "%lld", v); }
    if (def || (dif & 0x30) == 0x30) {
        snprintf(got, sizeof got, "%s", mbus_data_record_value(rec)); mc_trans(1);
        if (isnan(real)) MC_CHECK(strstr(got, "nan") != NULL, "not-a-number shown as %s", got); else MC_CHECK(!strcmp(got, want), "DIF %02X: raw view shows %s, expected %s", dif, got, want);
    }
    if (norm) {
        double d; char *s = NULL; int sz = 0; r = mbus_variable_value_decode(rec, &d, &s, &sz); mc_trans(1); MC_CHECK(r == 0 && !s, "DIF %02X: decoding fails or gives text", dif);
        if (def == 1) MC_CHECK(same(d, real), "DIF %02X: decoded value %.17g, expected %.17g", dif, d, real);
        nr = mbus_parse_variable_record(rec); MC_CHECK(nr && nr->is_numeric, "DIF %02X: no numeric normalised value", dif);
        if (def == 1) MC_CHECK(same(nr->value.real_val, real), "DIF %02X: normalised value %.17g, expected %.17g", dif, nr->value.real_val, real);
        mbus_record_free(nr);
    }
    mc_outcome("type %d%s%s", t, !def ? " undefined digits" : v < 0 ? " negative" : "", t == 5 ? isnan(real) ? " nan" : isinf(real) ? " inf" : "" : "");
    { int st[4] = { t, def, v < 0, (dif >> 4) & 3 }; mc_state(st, sizeof st); }
    mbus_frame_data_free(fd);
}
static void val(int dif, const uint8_t *b, int norm) { uint8_t h[2] = { dif, 0x16 }, in[12]; in[0] = dif; memcpy(in + 1, b, LEN[dif & 15]); mc_input(in, 1 + LEN[dif & 15]); one(h, 2, b, norm); }
static const int types[] = { 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14 };
static void direct(const uint8_t *b, int n)
{
    long long w = ref_int(b, n), ll = 77; long l = 77; int i = 77, r; uint8_t *g = guard_copy(0, b, n);
    r = mbus_data_long_long_decode(g, n, &ll); MC_CHECK(r == 0 && ll == w, "%d byte integer decoded to %lld, expected %lld", n, ll, w);
    r = mbus_data_long_decode(g, n, &l); MC_CHECK(r == 0 && l == w, "%d byte integer decoded to %ld, expected %lld", n, l, w);
    if (n <= 4) { r = mbus_data_int_decode(g, n, &i); MC_CHECK(r == 0 && i == w, "%d byte integer decoded to %d, expected %lld", n, i, w); }
    mc_trans(2);
}
void mc_main(void)
{
    int a, b, c, d, e, i, j, n, t; uint8_t x[8], h[16];
    memset(&F, 0, sizeof F); F.start1 = F.start2 = 0x68; F.stop = 0x16; F.type = MBUS_FRAME_TYPE_LONG; F.control = 8; F.address = 1; F.control_information = 0x72; memcpy(F.data, "\x78\x56\x34\x12\x24\x40\1\7\x55\0\0\0", 12);
    mc_section("all one and two byte values of every type and function");
    for (i = 0; i < 12; i++) if (LEN[t = types[i]] <= 2) for (d = 0; d < 8; d++) for (a = 0; a < 256; a++) for (b = 0; b < (LEN[t] == 2 ? 256 : 1); b++) if (mc_case()) { x[0] = a; x[1] = b; val(t | d << 4, x, !(d & 4)); }
    mc_section("every pair of bytes at every pair of positions, over five backgrounds");
    { static const uint8_t bg[] = { 0x00, 0xFF, 0x99, 0x12, 0x80, 0x7F }; for (i = 0; i < 12; i++) if ((n = LEN[t = types[i]]) > 2) for (c = 0; c < n; c++) for (d = c + 1; d < n; d++) for (e = 0; e < (mc_thorough ? 6 : 3); e++) for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_thorough || (a & 15) == 0 || (b & 15) == 0 || (a & 15) == 15 || (b & 15) == 15 || a == b) if (mc_case()) { memset(x, bg[e], 8); x[c] = a; x[d] = b; val(t | (a & 3) << 4, x, 1); } }
    mc_section("three byte values"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) for (c = 0; c < 256; c++) if (mc_thorough || (c & 15) == (b & 15) || (c >> 4) == (a >> 4)) if (mc_case()) { x[0] = a; x[1] = b; x[2] = c; val(3, x, !(a & 7)); val(11, x, !(a & 7)); }
    mc_section("reals: every sign and exponent x mantissa bits"); for (a = 0; a < 512; a++) for (b = -1; b < 23; b++) for (c = -1; c <= b; c++) for (d = 0; d < 2; d++) if (mc_case()) { uint32_t m = 0, u; if (b >= 0) m |= 1u << b; if (c >= 0) m |= 1u << c; if (d) m = ~m & 0x7FFFFF; u = (uint32_t)a << 23 | m; x[0] = u; x[1] = u >> 8; x[2] = u >> 16; x[3] = u >> 24; val(5, x, 1); }
    mc_section("every pair of decimal digits and sign at every pair of digit positions"); for (i = 7; i < 12; i++) { t = types[i]; n = 2 * LEN[t]; for (c = 0; c < n; c++) for (d = 0; d < c; d++) for (a = 0; a < 16; a++) for (b = 0; b < 16; b++) for (e = 0; e < 6; e++) if (mc_case()) { static const uint8_t bg[] = { 0, 9, 5, 1, 8, 4 }; uint8_t q[12]; memset(q, bg[e], 12); q[c] = a; q[d] = b; for (j = 0; j < n / 2; j++) x[j] = q[2 * j] | q[2 * j + 1] << 4; val(t, x, 1); val(t | 0x30, x, 1); } }
    mc_section("independent of value information, storage, tariff"); for (i = 0; i < 12; i++) for (a = 0; a < 256; a++) for (b = 0; b < 4; b++) for (c = 0; c < 4; c++) if ((a & 127) != 0x7C && (types[i] != 2 || (a & 127) != 0x6C) && ((types[i] != 4 && types[i] != 6) || (a & 127) != 0x6D)) if (mc_case()) {
        static const uint8_t v[4][8] = { { 1, 2, 3, 4, 5, 6, 7, 8 }, { 0x98, 0x76, 0x54, 0x32, 0x10, 0x29, 0x38, 0x47 }, { 0x93, 0x62, 0x81, 0xF7, 0x36, 0xF4, 0x12, 0x80 }, { 0 } }; int k = 0; t = types[i]; h[k++] = t | (b ? 0xC0 : 0) | (c == 1) << 4; for (j = 0; j < b; j++) h[k++] = 0x35 | (j + 1 < b) << 7; h[k++] = a; if (a & 128) { h[k++] = b == 1 ? 0x84 : 0x20; if (b == 1) h[k++] = 0x74; } { uint8_t in[20]; memcpy(in, h, k); memcpy(in + k, v[c], LEN[t]); mc_input(in, k + LEN[t]); } one(h, k, v[c], 0); }
    mc_section("time-like codes with other widths are numbers"); for (i = 0; i < 12; i++) for (a = 0; a < 8; a++) if (mc_case()) { static const uint8_t hv[8][2] = { { 0x6C }, { 0x6D }, { 0xEC, 0x10 }, { 0xED, 0x10 }, { 0xFD, 0x30 }, { 0xFD, 0x70 }, { 0xFB, 0x30 }, { 0xFB, 0x70 } }; int k = 0; t = types[i]; b = a & 1 || a == 4; c = (hv[a][0] & 127) == 0x6C; if (a < 6 && (c ? t == 2 : (t == 4 || t == 6))) continue; h[k++] = t; h[k++] = hv[a][0]; if (a > 1) h[k++] = hv[a][1]; { uint8_t in[4] = { t, a, 9, 9 }; mc_input(in, 4); } for (d = 0; d < 8; d++) x[d] = 0x91 - 17 * d; if (t >= 9) for (d = 0; d < 8; d++) x[d] = 0x12 + d; one(h, k, x, 0); }
    mc_section("integer decoders, all sizes"); for (n = 1; n <= 8; n++) for (c = 0; c < n; c++) for (d = c; d < n; d++) for (e = 0; e < 4; e++) for (a = 0; a < 256; a += (mc_thorough ? 1 : 3)) for (b = 0; b < 256; b += (c == d ? 256 : mc_thorough ? 1 : 5)) if (mc_case()) { static const uint8_t bg[] = { 0x00, 0xFF, 0x80, 0x7F }; memset(x, bg[e], 8); x[c] = a; if (c != d) x[d] = b; mc_input(x, n); direct(x, n); }
    mc_section("absent data"); if (mc_case()) { int v; long l; long long ll; mc_input("n", 1); MC_CHECK(mbus_data_int_decode(NULL, 1, &v) && mbus_data_long_decode(NULL, 1, &l) && mbus_data_long_long_decode(NULL, 1, &ll) && mbus_data_int_decode(x, 0, &v) && mbus_data_long_decode(x, 0, &l) && mbus_data_long_long_decode(x, 0, &ll), "absent data decoded"); }
}
