/* P16: dates and times of type F (4 bytes), G (2 bytes) and I (6 bytes). */
#include "util.h"
#include <time.h>
typedef struct { int y, mo, d, h, mi, s, dst, valid; } st;
static inline void ref_tm(st *o, const uint8_t *b, int n)
{
    int y, c; memset(o, 0, sizeof *o);
    if (n == 2) { o->valid = 1; o->d = b[0] % 32; y = b[0] / 32 + 8 * (b[1] / 16); o->mo = b[1] % 16; o->y = 2000 + y; return; }
    if (n == 4) { if (b[0] >= 128) return; o->valid = 1; o->mi = b[0] % 64; o->h = b[1] % 32; c = b[1] / 32 % 4; o->dst = b[1] / 128; o->d = b[2] % 32; y = b[2] / 32 + 8 * (b[3] / 16); o->mo = b[3] % 16; o->y = 1900 + 100 * c + y; if (c == 0 && y <= 80) o->y = 2000 + y; return; }
    if (b[1] >= 128) return; o->valid = 1; o->s = b[0] % 64; o->dst = b[0] / 64 % 2; o->mi = b[1] % 64; o->h = b[2] % 32; o->d = b[3] % 32; y = b[3] / 32 + 8 * (b[4] / 16); o->mo = b[4] % 16; o->y = 2000 + y;
}
static inline int real_date(int y, int mo, int d) { static const int l[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; if (mo < 1 || mo > 12 || d < 1) return 0; return d <= l[mo - 1] + (mo == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); }
static void direct(const uint8_t *b, int n)
{
    st r; struct tm t; memset(&t, 0x5A, sizeof t); ref_tm(&r, b, n); mbus_data_tm_decode(&t, (unsigned char *)b, n);
    if (!r.valid) { if (real_date(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday)) mc_fail("stamp %02X %02X %02X %02X marked invalid decoded to a valid date", b[0], b[1], b[2], b[3]); return; }
    if (t.tm_year + 1900 != r.y || t.tm_mon + 1 != r.mo || t.tm_mday != r.d || t.tm_hour != r.h || t.tm_min != r.mi || t.tm_sec != r.s || t.tm_isdst != r.dst)
        mc_fail("stamp of %d bytes %02X %02X.. decoded to %d-%d-%d %d:%d:%d dst %d, expected %d-%d-%d %d:%d:%d dst %d", n, b[0], b[1], t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_isdst, r.y, r.mo, r.d, r.h, r.mi, r.s, r.dst);
}
static mbus_frame F; static int n_old;
static const int LEN[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
static int looks_like_date(const char *s) { int y, m, d, n = 0; return sscanf(s, "%4d-%2d-%2d%n", &y, &m, &d, &n) == 3 && n == 10 && real_date(y, m, d); }
/* head = DIF chain and VIF chain; kind 1: must be a time stamp, 0: must not */
static void view(const uint8_t *head, int nh, const uint8_t *b, int kind)
{
    int t = head[0] & 15, n = LEN[t], k = 12, r; st w; char want[64]; const char *raw; mbus_frame_data *fd; mbus_data_record *rec; mbus_record *nr; uint8_t in[32]; memcpy(in, head, nh); memcpy(in + nh, b, n); mc_input(in, nh + n);
    memcpy(F.data + k, head, nh); k += nh; memcpy(F.data + k, b, n); k += n; memset(F.data + k, 0xEE, n_old > k ? n_old - k : 8); n_old = k; F.data_size = k; F.length1 = F.length2 = k + 3;
    fd = mbus_frame_data_new(); r = mbus_frame_data_parse(&F, fd); MC_CHECK(r == 0, "refused"); rec = fd->data_var.record; raw = mbus_data_record_value(rec); mc_trans(1);
    nr = mbus_parse_variable_record(rec); mc_trans(1);
    if (kind) {
        ref_tm(&w, b, n);
        if (w.valid) {
            snprintf(want, sizeof want, n == 2 ? "%04d-%02d-%02d" : "%04d-%02d-%02dT%02d:%02d:%02d", w.y, w.mo, w.d, w.h, w.mi, w.s);
            MC_CHECK(!strcmp(raw, want), "raw view shows %s, expected %s", raw, want);
            MC_CHECK(nr && !nr->is_numeric && nr->value.str_val.value, "no normalised time stamp"); if (n > 2) strcat(want, "Z");
            MC_CHECK(!strcmp(nr->value.str_val.value, want), "normalised view shows %s, expected %s", nr->value.str_val.value, want);
            MC_CHECK(nr->value.str_val.size == (int)strlen(want), "length of the normalised text is %d", nr->value.str_val.size);
        } else { MC_CHECK(!looks_like_date(raw), "stamp marked invalid shown as %s", raw); if (nr) MC_CHECK(nr->is_numeric ? 0 : !looks_like_date(nr->value.str_val.value), "stamp marked invalid: normalised view is a valid value"); }
        mc_outcome("type %c %s", n == 2 ? 'G' : n == 4 ? 'F' : 'I', !w.valid ? "invalid" : real_date(w.y, w.mo, w.d) ? "calendar date" : "no calendar date");
        { int s[3] = { n, w.valid, w.y }; mc_state(s, sizeof s); }
    } else { MC_CHECK(!looks_like_date(raw), "data that are no time stamp shown as date %s", raw); if (nr && !nr->is_numeric) MC_CHECK(!looks_like_date(nr->value.str_val.value), "data that are no time stamp normalised to date %s", nr->value.str_val.value); mc_outcome("no time stamp"); }
    if (nr) mbus_record_free(nr);
    mbus_frame_data_free(fd);
}
void mc_main(void)
{
    static const uint8_t g[2][3] = { { 0x02, 0x6C }, { 0x42, 0xEC, 0x7E } }; static const uint8_t H[6][3] = { { 0x6D }, { 0xED, 0x7E }, { 0xFD, 0x30 }, { 0xFD, 0x70 }, { 0xFD, 0xB0, 0x10 }, { 0xFD, 0xF0, 0x10 } }; static const int hl[6] = { 1, 2, 2, 2, 3, 3 };
    int a, b, c, d, e, i, j, k; uint8_t x[8], h[16];
    memset(&F, 0, sizeof F); F.start1 = F.start2 = 0x68; F.stop = 0x16; F.type = MBUS_FRAME_TYPE_LONG; F.control = 8; F.address = 1; F.control_information = 0x72; memcpy(F.data, "\x78\x56\x34\x12\x24\x40\1\7\x55\0\0\0", 12);
    mc_section("every date of type G, both views"); for (i = 0; i < 2; i++) for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { x[0] = a; x[1] = b; direct(x, 2); view(g[i], 2 + i, x, 1); }
    mc_section("type F, every pair of bytes over backgrounds, both views"); for (e = 0; e < (mc_thorough ? 8 : 4); e++) for (c = 0; c < 4; c++) for (d = c + 1; d < 4; d++) for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_thorough || (a + b + e) % 2 == 0) if (mc_case()) { static const uint8_t bg[8][4] = { { 0x1E, 0x0C, 0x95, 0x2A }, { 0, 0, 0, 0 }, { 0x7F, 0xFF, 0xFF, 0xFF }, { 0x3B, 0x37, 0xFF, 0x9C }, { 0x05, 0x41, 0x21, 0xF1 }, { 0x00, 0x80, 0x01, 0xA1 }, { 0x40, 0x5F, 0x1F, 0x0F }, { 0x80, 0x17, 0x1F, 0x1C } }; memcpy(x, bg[e], 4); x[c] = a; x[d] = b; h[0] = 4; j = (a + b) % 6; memcpy(h + 1, H[j], hl[j]); view(h, 1 + hl[j], x, 1); }
    mc_section("type I, every pair of bytes over backgrounds, both views"); for (e = 0; e < (mc_thorough ? 4 : 2); e++) for (c = 0; c < 6; c++) for (d = c + 1; d < 6; d++) for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_thorough || (a + b + e) % 4 == 0) if (mc_case()) { static const uint8_t bg[4][6] = { { 0x1E, 0x0C, 0x15, 0x2A, 0x1A, 0x07 }, { 0, 0, 0, 0, 0, 0 }, { 0xFF, 0x7F, 0xFF, 0xFF, 0xFF, 0xFF }, { 0x3B, 0x7B, 0x37, 0xFF, 0x9C, 0x80 } }; memcpy(x, bg[e], 6); x[c] = a; x[d] = b; h[0] = 6; j = (a / 4 + b) % 6; memcpy(h + 1, H[j], hl[j]); view(h, 1 + hl[j], x, 1); }
    mc_section("what is a time stamp and what is not"); for (i = 0; i < 15; i++) if (i != 8 && i != 13) for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if ((a & 127) != 0x7C && ((a & 128) || b == 0)) for (c = 0; c < 3; c++) if (mc_case()) {
        static const uint8_t v[3][8] = { { 0x1E, 0x0C, 0x95, 0x2A, 0x1A, 0x07, 1, 1 }, { 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21 }, { 0x01, 0x11, 0x01, 0x11, 0x01, 0x11, 0x01, 0x11 } };
        k = 0; h[k++] = i | (c ? 0x40 : 0); h[k++] = a; if (a & 128) { h[k++] = b; if (b & 128) h[k++] = 0x05; } d = i == 2 ? (a & 127) == 0x6C : i == 4 || i == 6 ? (a & 127) == 0x6D || (a == 0xFD && ((b & 127) == 0x30 || (b & 127) == 0x70)) : 0; view(h, k, v[c], d); }
    mc_section("decoder: sizes that are no time stamp"); for (i = 0; i <= 8; i++) if (i != 2 && i != 4 && i != 6) for (a = 0; a < 256; a++) if (mc_case()) { struct tm t; memset(x, a, 8); mc_input(x, 2); memset(&t, 0x5A, sizeof t); mbus_data_tm_decode(&t, x, i); MC_CHECK(!real_date(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday), "%d bytes decoded to a valid date", i); }
    mc_section("decoder: every type F stamp"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { x[0] = a; x[1] = b; mc_input(x, 2); mc_trans(65536); for (c = 0; c < 256; c++) for (d = 0; d < 256; d++) { x[2] = c; x[3] = d; direct(x, 4); } }
    mc_section("decoder: type I, every byte triple"); for (e = 0; e < (mc_thorough ? 4 : 2); e++) for (i = 0; i < 6; i++) for (j = i + 1; j < 6; j++) for (k = j + 1; k < 6; k++) for (a = 0; a < 256; a++) if (mc_case()) { static const uint8_t bg[4] = { 0x00, 0x7F, 0x31, 0x0C }; memset(x, bg[e], 6); x[i] = a; mc_input(x, 6); mc_trans(65536); for (b = 0; b < 256; b++) for (c = 0; c < 256; c++) { x[j] = b; x[k] = c; direct(x, 6); } }
    if (mc_case()) { mc_input("n", 1); mbus_data_tm_decode(NULL, x, 4); { struct tm t; memset(&t, 0x5A, sizeof t); mbus_data_tm_decode(&t, NULL, 4); MC_CHECK(!real_date(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday), "absent data decoded to a valid date"); } }
}
