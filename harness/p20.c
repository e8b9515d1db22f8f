/* P20: every document is well formed and says what the telegram says. */
#include "docs.h"
static mbus_frame F; static int n_old; static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
static void doc(const char *what, char *xml, mbus_frame_data *fd, const uint8_t *h, int norm)
{
    xdoc d; int i; (void)what; mc_trans(1); i = doc_open(&d, xml, &fd->data_var.header, h); i = doc_all(&d, i, &fd->data_var, 0, -1, norm); MC_CHECK(xml_next(&d, 0, i) < 0, "%s: more elements than records", what); { int s[3] = { norm, d.cnt, fd->data_var.nrecords }; mc_state(s, sizeof s); } xml_free(&d); free(xml);
}
static void one_h(const uint8_t *h, const uint8_t *body, int n)
{
    mbus_frame_data *fd = mbus_frame_data_new(); int k = 12 + n; F.control_information = 0x72; memcpy(F.data, h, 12); memcpy(F.data + 12, body, n); memset(F.data + k, '<', n_old > k ? n_old - k : 4 < 252 - k ? 4 : 252 - k); n_old = k; F.data_size = k; F.length1 = F.length2 = k + 3; F.next = NULL;
    if (mbus_frame_data_parse(&F, fd)) { mc_outcome("refused"); MC_CHECK(!mbus_frame_xml(&F), "document for a refused telegram"); mbus_frame_data_free(fd); return; }
    mc_outcome("%d records", (int)fd->data_var.nrecords > 8 ? 9 : (int)fd->data_var.nrecords);
    doc("raw", mbus_frame_data_xml(fd), fd, h, 0); doc("normalised", mbus_frame_data_xml_normalized(fd), fd, h, 1); doc("telegram", mbus_frame_xml(&F), fd, h, 0); mbus_frame_data_free(fd);
}
static void one(const uint8_t *b, int n) { mc_input(b, n); one_h(HB, b, n); }
static const char SP[] = { '&', '<', '>', '"', '\'', ']', ';', 'a', 0x01, 0x0A, 0x1F, 0x7F, (char)0x80, (char)0xFF, ' ', '/', 0x00 };
static const char *const TOK[] = { "&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#60;", "&#x3C;", "&", "lt;", "<![CDATA[", "]]>", "<!--", "-->", "<?xml?>", "</Value>", "%s%n%x", "\\", "\xC2\xB0", "a" };
#define NTOK ((int)(sizeof TOK / sizeof *TOK))
static int put_text(uint8_t *o, const uint8_t *t, int l) { int i, k = 0; o[k++] = 0x0D; o[k++] = 0x78; o[k++] = l; for (i = 0; i < l; i++) o[k++] = t[l - 1 - i]; return k; }
static int put_unit(uint8_t *o, const uint8_t *t, int l, int vife) { int i, k = 0; o[k++] = 0x01; o[k++] = vife < 0 ? 0x7C : 0xFC; o[k++] = l; for (i = 0; i < l; i++) o[k++] = t[l - 1 - i]; if (vife >= 0) o[k++] = vife; o[k++] = 0x2A; return k; }
static int rec_kind(uint8_t *o, int kind)
{
    static const struct { int n; uint8_t b[16]; } r[] = { { 3, { 0x01, 0x13, 0x2A } }, { 5, { 0x82, 0x55, 0x06, 0x34, 0x12 } }, { 4, { 0x02, 0x6C, 0x95, 0x2A } }, { 6, { 0x04, 0x6D, 0x1E, 0x0C, 0x95, 0x2A } }, { 2, { 0x00, 0x13 } }, { 2, { 0x08, 0x13 } }, { 6, { 0x0D, 0x78, 3, '<', '&', '"' } }, { 6, { 0x0D, 0x13, 0xE3, '<', 0, '>' } }, { 7, { 0x01, 0x7C, 3, '>', '<', '&', 5 } }, { 3, { 0x01, 0x6F, 1 } }, { 4, { 0x01, 0xFD, 0x7A, 1 } }, { 4, { 0x01, 0xFB, 0x52, 1 } }, { 3, { 0x31, 0x13, 7 } }, { 6, { 0x05, 0x2B, 0, 0, 0x80, 0x7F } }, { 4, { 0x2F, 0x01, 0x7B, 9 } }, { 3, { 0x0F, '<', 0x80 } }, { 3, { 0x1F, '&', 0 } }, { 1, { 0x0F } } };
    memcpy(o, r[kind].b, r[kind].n); return r[kind].n;
}
#define NK 18
void mc_main(void)
{
    int a, b, c, i, j, k, l, n; uint8_t s[256], t[256]; setenv("TZ", "XST-5:30XDT,M3.2.0,M11.1.0", 1); tzset(); /* time stamps are in UTC wherever the program runs */ memset(&F, 0, sizeof F); F.start1 = F.start2 = 0x68; F.stop = 0x16; F.type = MBUS_FRAME_TYPE_LONG; F.control = 8; F.address = 1;
    mc_section("texts over special characters"); for (n = 0; n <= 3 + mc_thorough; n++) { int ix[8] = {0}; for (;;) { for (k = 0; k < 2; k++) if (mc_case()) { for (i = 0; i < n; i++) t[i] = SP[ix[i]]; l = k ? put_unit(s, t, n, -1) : put_text(s, t, n); one(s, l); } for (i = n - 1; i >= 0 && ++ix[i] == (int)sizeof SP; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("texts of markup tokens"); for (n = 1; n <= 3 + mc_thorough; n++) { int ix[8] = {0}; for (;;) { for (k = 0; k < 3; k++) if (mc_case()) { for (i = l = 0; i < n; i++) { const char *q = TOK[ix[i]]; memcpy(t + l, q, strlen(q)); l += strlen(q); } if (k == 2) { int o1, o2; o1 = put_text(s, t, l); o2 = put_unit(s + o1, t, l, 0x74); one(s, o1 + o2); } else { l = k ? put_unit(s, t, l, -1) : put_text(s, t, l); one(s, l); } } for (i = n - 1; i >= 0 && ++ix[i] == NTOK; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("every pair of bytes in a text, a unit and binary data"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) for (k = 0; k < 4; k++) if (k < 2 || mc_thorough || (a + b) % 3 == k % 3) if (mc_case()) { t[0] = a; t[1] = b; t[2] = 'z'; if (k == 2) { s[0] = 0x0D; s[1] = 0x13; s[2] = 0xE2; s[3] = a; s[4] = b; l = 5; } else l = k == 1 ? put_unit(s, t, 3, -1) : k == 0 ? put_text(s, t, 3) : put_unit(s, t, 2, 0x70 | (a & 7)); one(s, l); }
    mc_section("one special character at every position of every length"); for (n = 1; n <= 191; n++) for (i = 0; i < n; i++) for (a = 0; a < 6; a++) if (n < 12 || i < 3 || i > n - 3 || (i + n) % 7 == 0) if (mc_case()) { for (j = 0; j < n; j++) t[j] = 'a' + j % 23; t[i] = SP[a == 5 ? 9 : a]; l = put_text(s, t, n); one(s, l); if (n < 128) { l = put_unit(s, t, n, a & 1 ? 0x73 : -1); one(s, l); } }
    mc_section("data of every length"); for (n = 0; n <= 237; n++) for (k = 0; k < 5; k++) for (a = 0; a < 8; a++) if (mc_case()) { for (i = 0; i < n; i++) t[i] = a == 7 ? i : a < 3 ? "<&\""[a] : 0x30 + a * 29 + i * (2 * a + 1); l = 0; if (k < 4) { s[l++] = 0x0D | (k & 1) << 6; s[l++] = 0x13 + k; s[l++] = k == 0 ? n : k == 1 ? (n & 15) | 0xC0 : k == 2 ? (n & 15) | 0xD0 : (n & 15) | 0xE0; if (k && n > 31) continue; } else s[l++] = a & 1 ? 0x1F : 0x0F; if (l + n > 240) continue; memcpy(s + l, t, n); l += n; one(s, l); }
    mc_section("every header byte and pair"); for (i = 0; i < 12; i++) for (j = i; j < 12; j++) for (a = 0; a < 256; a += (j == i || j == i + 1 || mc_thorough ? 1 : 7)) for (b = 0; b < 256; b += (j == i ? 256 : j == i + 1 ? (i == 4 ? 1 : 3) : 37)) if (mc_case()) { uint8_t h[12]; memcpy(h, HB, 12); h[i] = a; if (j > i) h[j] = b; mc_input(h, 12); one_h(h, (const uint8_t *)"\x01\x13\x05", 3); }
    mc_section("every DIF x VIF"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 }; k = 0; s[k++] = a; if (a != 15 && a != 31 && a != 47) { if (a & 0x80) s[k++] = 0x15; s[k++] = b; if ((b & 127) == 0x7C) { s[k++] = 2; s[k++] = '<'; s[k++] = '&'; } if (b & 0x80) s[k++] = 0x22 + (a >> 4); if ((a & 15) == 13) { s[k++] = 3; l = 3; } else l = len[a & 15]; for (i = 0; i < l; i++) s[k++] = 0x3A + i; } k += rec_kind(s + k, 6); one(s, k); }
    mc_section("sequences of records"); for (n = 0; n <= 3 + mc_thorough; n++) { int ix[8] = {0}; for (;;) { if (mc_case()) { for (i = l = 0; i < n; i++) l += rec_kind(s + l, ix[i]); one(s, l); } for (i = n - 1; i >= 0 && ++ix[i] == NK; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("extension chains"); for (i = 0; i <= 10; i++) for (j = 0; j <= 10; j++) for (a = 0; a < 128; a += 3) if (mc_case()) { k = 0; s[k++] = 0x02 | (i ? 0x80 : 0) | (a & 7) << 4; for (l = 0; l < i; l++) s[k++] = (l + 1 < i ? 0x80 : 0) | ((a + 11 * l) & 0x7F); s[k++] = 0x13 | (j ? 0x80 : 0); for (l = 0; l < j; l++) s[k++] = (l + 1 < j ? 0x80 : 0) | ((a + 5 * l) & 0x7F); s[k++] = 0x33; s[k++] = 0x44; one(s, k); }
    mc_section("times of reception"); for (i = 0; i < 40; i++) for (j = -2; j < 3; j++) if (mc_case()) { F.timestamp = ((time_t)1 << i) / 4 + j; if (F.timestamp < 0) F.timestamp = 0; if (F.timestamp > 253402300799LL) F.timestamp = 253402300799LL - j - 2; { long long ts = F.timestamp; mc_input(&ts, 8); } one_h(HB, (const uint8_t *)"\x01\x13\x05\x0D\x13\x01\x41\x0F", 8); F.timestamp = 0; }
    mc_section("application errors"); for (a = -1; a < 256; a++) for (i = 0; i < 3; i++) if (mc_case()) {
        xdoc d; const char *e; char *x; char want[300]; mbus_frame_data *fd = mbus_frame_data_new(); mc_input(&a, 4); F.control_information = 0x70; F.data_size = a < 0 ? 0 : 1 + i; memset(F.data, 0x55, 8); if (a >= 0) F.data[0] = a; F.length1 = F.length2 = 3 + F.data_size; n_old = 20; F.next = NULL; MC_CHECK(!mbus_frame_data_parse(&F, fd) && fd->type == MBUS_DATA_TYPE_ERROR, "error telegram refused"); x = i & 1 ? mbus_frame_xml(&F) : mbus_frame_data_xml(fd); mc_trans(1); MC_CHECK(x != NULL, "no document"); e = xml_parse(&d, x); MC_CHECK(!e, "document not well formed: %s at %zu", e, d.errpos); doc_ctl(want, mbus_data_error_lookup(a < 0 ? 0 : a), sizeof want);
        { const char *const k1[][2] = { { "Error", want }, { 0 } }; int h = xml_next(&d, 0, -1); MC_CHECK(!strcmp(d.n[0].name, "MBusData") && h > 0 && !strcmp(d.n[h].name, "SlaveInformation") && xml_next(&d, 0, h) < 0, "unexpected structure"); e = xml_kids(&d, h, k1); MC_CHECK(!e, "%s", e); } xml_free(&d); free(x); mbus_frame_data_free(fd); mc_outcome("error telegram"); }
    mc_section("encoder: strings x buffer sizes"); for (n = 0; n <= 4; n++) { int ix[5] = {0}; for (;;) { if (mc_case()) {
        char in[8], want[64], *o; int m, w; for (i = 0; i < n; i++) in[i] = SP[ix[i]]; in[n] = 0; mc_input(in, n); for (m = 1; m <= 40; m++) { o = (char *)guard_buf(0, m); memset(o, 'Q', m); MC_CHECK(mbus_str_xml_encode((uint8_t *)o, guard_copy(1, in, n + 1), m) == 0, "refused"); MC_CHECK(memchr(o, 0, m) && guard_canary_ok(0, m), "not terminated inside the buffer of %d bytes", m);
            for (w = i = 0; in[i]; i++) { const char *p = in[i] == '&' ? "&amp;" : in[i] == '<' ? "&lt;" : in[i] == '>' ? "&gt;" : in[i] == '"' ? "&quot;" : NULL; char one1[2] = { (unsigned char)in[i] < 32 || in[i] == 127 ? ' ' : in[i], 0 }; const char *q = p ? p : one1; int ol = strlen(o); if (ol == w) break; MC_CHECK(!strncmp(o + w, q, strlen(q)) || (in[i] == '\'' && !strncmp(o + w, "&apos;", 6)), "buffer %d: encoded to \"%s\"", m, o); w += (in[i] == '\'' && o[w] == '&') ? 6 : strlen(q); } MC_CHECK((int)strlen(o) == w, "buffer %d: encoded to \"%s\"", m, o); if (m > 6 * n + 6) MC_CHECK(!in[i], "encoding stops early in a buffer of %d bytes", m); (void)want; } mc_trans(40); }
        for (i = n - 1; i >= 0 && ++ix[i] == (int)sizeof SP - 1; i--) ix[i] = 0; if (i < 0) break; } }
    if (mc_case()) { char o[8] = "zzz"; mc_input("n", 1); MC_CHECK(mbus_str_xml_encode(NULL, (const uint8_t *)"a", 8) != 0 && mbus_str_xml_encode((uint8_t *)o, NULL, 8) != 0 && !o[0], "absent string"); MC_CHECK(!mbus_frame_xml(NULL) && !mbus_frame_data_xml(NULL) && !mbus_frame_data_xml_normalized(NULL) && !mbus_data_variable_xml(NULL) && !mbus_data_variable_xml_normalized(NULL), "document for nothing"); }
}
