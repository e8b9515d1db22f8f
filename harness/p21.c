/* P21: however many records and telegrams, however long their texts: nothing is missing, cut or numbered wrongly. */
#include "docs.h"
void env_free(void *p);
#define MAXT 300
static mbus_frame FR[MAXT]; static int NF; static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
static mbus_frame *fresh(int ci, const uint8_t *b, int n)
{
    mbus_frame *f = &FR[NF++]; int k = n; memset(f, '<', sizeof *f); f->start1 = f->start2 = 0x68; f->stop = 0x16; f->type = MBUS_FRAME_TYPE_LONG; f->control = 8; f->address = 1; f->timestamp = NF % 5 == 4 ? 0 : 1700000000 + NF * 3671; f->next = NULL;
    f->control_information = ci; if (ci == 0x72) { memcpy(f->data, HB, 12); memcpy(f->data + 12, b, n); f->data[6] = NF; k += 12; } else memcpy(f->data, b, n); f->data_size = k; f->length1 = f->length2 = k + 3; if (NF > 1) FR[NF - 2].next = f; return f;
}
static void doc(char *xml, int first, int last, int norm)
{
    xdoc d; int i, k, id = 0; mbus_frame_data *fd = mbus_frame_data_new(); uint8_t h[12]; mbus_frame *sv; mc_trans(1); memcpy(h, HB, 12); h[6] = FR[first].data[6];
    for (k = first; k <= last; k++) {
        sv = FR[k].next; FR[k].next = NULL; MC_CHECK(!mbus_frame_data_parse(&FR[k], fd), "telegram %d refused", k); FR[k].next = sv;
        if (k == first) i = doc_open(&d, xml, &fd->data_var.header, h); i = doc_all(&d, i, &fd->data_var, id, first < last ? k - first : -1, norm); id += fd->data_var.nrecords; mbus_data_record_free(fd->data_var.record); fd->data_var.record = NULL;
    }
    MC_CHECK(xml_next(&d, 0, i) < 0, "more elements than records"); { int s[4] = { norm, last - first, d.cnt, (int)strlen(xml) >> 8 }; mc_state(s, sizeof s); } xml_free(&d); mbus_frame_data_free(fd); mc_outcome("%s, grown %d times", norm < 0 ? "" : norm ? "normalised" : first < last ? "chain" : "single", strlen(xml) < 8192 ? 0 : strlen(xml) < 16384 ? 1 : strlen(xml) < 32768 ? 2 : strlen(xml) < 65536 ? 3 : 4); env_free(xml);
}
static void no_leak(void) { MC_CHECK(mem_live() == 0, "memory not released: %s", mem_describe()); MC_CHECK(!M.bad_free, "memory released twice"); }
static void all_docs(int each)
{
    int k; mem_begin(0xA5); doc(mbus_frame_xml(&FR[0]), 0, NF - 1, 0);
    for (k = 0; k < (each ? NF : 1); k++) { mbus_frame_data *fd = mbus_frame_data_new(); MC_CHECK(!mbus_frame_data_parse(&FR[k], fd), "telegram refused"); doc(mbus_frame_data_xml(fd), k, k, 0); doc(mbus_frame_data_xml_normalized(fd), k, k, 1); mbus_frame_data_free(fd); }
    no_leak(); NF = 0;
}
static int rep(uint8_t *o, const char *b, int n, int cnt) { int i; for (i = 0; i < cnt; i++) memcpy(o + i * n, b, n); return n * cnt; }
static int text(uint8_t *o, int l, int c, int alt) { int i; o[0] = 0x0D; o[1] = 0x78; o[2] = l; for (i = 0; i < l; i++) o[3 + i] = i % 2 ? alt : c; return 3 + l; }
static int unit(uint8_t *o, int l, int c, int vife) { int i, k = 0; o[k++] = 0x01; o[k++] = vife < 0 ? 0x7C : 0xFC; o[k++] = l; for (i = 0; i < l; i++) o[k++] = c; if (vife >= 0) o[k++] = vife; o[k++] = 9; return k; }
static int both(uint8_t *o, int lu, int cu, int vife, int lt, int ct, int dife) { int i, k = 0, q; o[k++] = 0x0D | (dife ? 0x80 : 0); for (q = 0; q < dife; q++) o[k++] = q + 1 < dife ? 0xFF : 0x7F; o[k++] = 0xFC; o[k++] = lu; for (i = 0; i < lu; i++) o[k++] = cu; o[k++] = vife; o[k++] = lt; for (i = 0; i < lt; i++) o[k++] = ct; return k; }
static const struct { int n; const char *b; } TINY[] = { { 2, "\x00\x13" }, { 3, "\x01\x13\x2A" }, { 5, "\x82\x40\x2B\x01\x02" }, { 4, "\x0D\x78\x01&" }, { 5, "\x31\x7C\x01<\x05" }, { 4, "\x01\xFD\x17\x01" }, { 3, "\x0D\x78\x00" } };
static int KIND(uint8_t *o, int k)
{
    int n = 0; switch (k) {
    case 0: return rep(o, "\x01\x13\x2A", 3, 1); case 1: return 0; case 2: return rep(o, "\x2F", 1, 20); case 3: return rep(o, "\x0F<>&", 4, 1); case 4: n = rep(o, "\x00\x13", 2, 100); return n + rep(o + n, "\x1F", 1, 1); case 5: return text(o, 191, '"', '"');
    case 6: return rep(o, "\x31\x13\x07", 3, 70); case 7: return both(o, 105, '"', 0x74, 120, '"', 3); case 8: n = text(o, 100, '&', '<'); return n + text(o + n, 100, '"', '"'); case 9: n = unit(o, 30, '"', 0x70); n += rep(o + n, "\x02\x6C\x95\x2A", 4, 20); return n; case 10: o[0] = 0x0F; memset(o + 1, 0x80, 230); return 231; default: n = rep(o, "\x01\x13\x2A", 3, 5); o[n++] = 0x0D; o[n++] = 0x13; o[n++] = 0xF5; memset(o + n, 0xEE, 48); return n + 48; }
}
#define NKIND 12
/* a telegram that has no records to show: a = how it is bad */
static void bad(int a)
{
    uint8_t s[256]; int n; switch (a) { case 0: fresh(0x72, (const uint8_t *)"\x01\x13\x2A\x04\x13\x01", 6); break; case 1: fresh(0x72, (const uint8_t *)"\x01", 1); break; case 2: fresh(0x70, (const uint8_t *)"\x05", 1); break; case 3: fresh(0x73, (const uint8_t *)"\x78\x56\x34\x12\x0A\x00\xE9\x7E\x01\x00\x00\x00\x35\x01\x00\x00", 16); break;
    case 4: fresh(0x73, (const uint8_t *)"\x78", 1); break; case 5: fresh(0x99, (const uint8_t *)"\x78", 1); break; case 6: fresh(0x72, NULL, 0); FR[NF - 1].data_size = 5; break; case 7: fresh(0x72, (const uint8_t *)"\x01\x13\x2A", 3); FR[NF - 1].control = 0x73; break; case 8: n = rep(s, "\x01\x13\x2A", 3, 60); s[n] = 4; fresh(0x72, s, n + 1); break; default: fresh(0x70, NULL, 0); break; }
}
static void key(int kind, int a, int b, int c, int d) { int k[5] = { kind, a, b, c, d }; mc_input(k, sizeof k); }
void mc_main(void)
{
    uint8_t s[600]; int a, b, c, i, k, l, n;
    mc_section("small records, then a text of every length"); for (a = 0; a < 7; a++) for (k = 0; TINY[a].n * k <= 236; k++) for (l = 0; l <= 191 && TINY[a].n * k + 3 + l <= 238; l++) for (c = 0; c < 3; c++) {
        int full = TINY[a].n * k + 3 + l >= 232 || l == 0 || l == 191; if (c && l < 10) continue; if (!full && !mc_thorough && (k * 3 + l + c) % 5) continue; if (!full && mc_thorough && (k + l + c) % 2) continue; if (!mc_case()) continue;
        n = rep(s, TINY[a].b, TINY[a].n, k); n += text(s + n, l, "x\"&"[c], "x\"<"[c]); while (n < 240 && l % 3 == 2) n += rep(s + n, "\x2F", 1, 1); if (n > 240) n = 240; key(1, a, k, l, c); fresh(0x72, s, n); all_docs(0); }
    mc_section("unit text x value text"); for (a = 0; a <= 127; a += mc_thorough ? 1 : (a > 118 || a < 3) ? 1 : 4) for (l = 0; l <= 191; l++) for (c = 0; c < 4; c++) for (b = 0; b < 3; b++) if (a + l + 5 + 5 * b <= 240 && (a > 124 || l > 188 || a + l + 5 * b > 230 || mc_thorough || (a + l) % 6 == 0)) if (mc_case()) {
        n = both(s, a, "\"x\"x"[c], 0x70 | (a & 7), l, "\"\"xx"[c], b * 5); if (!b && n <= 237) n += rep(s + n, "\x01\x13\x2A", 3, 1); key(2, a, l, c, b); fresh(0x72, s, n); all_docs(0); }
    mc_section("as many records as fit, every kind and count"); for (a = 0; a < 7; a++) for (b = 0; b < 7; b++) for (k = 0; k <= 118; k++) if (mc_case()) { for (n = i = 0; i < k && n + TINY[i & 1 ? a : b].n <= 237; i++) n += rep(s + n, TINY[i & 1 ? a : b].b, TINY[i & 1 ? a : b].n, 1); key(3, a, b, k, 0); fresh(0x72, s, n); all_docs(0); }
    mc_section("every chain of telegrams"); for (n = 1; n <= (mc_thorough ? 5 : 4); n++) { int ix[6] = {0}; for (;;) { if (mc_case()) { uint8_t ky[8] = {4}; for (i = 0; i < n; i++) { l = KIND(s, ix[i]); fresh(0x72, s, l); ky[i + 1] = ix[i] + 1; } mc_input(ky, 8); all_docs(0); } for (i = n - 1; i >= 0 && ++ix[i] == (n == 5 ? 8 : NKIND); i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("long chains"); for (n = 5; n <= (mc_thorough ? 128 : 48); n++) for (a = 0; a < NKIND; a++) for (b = 0; b < NKIND; b += (n % 6 ? 5 : 1)) if (mc_case()) { key(5, n, a, b, 0); for (i = 0; i < n; i++) { l = KIND(s, i % 3 == n % 3 ? b : a); fresh(0x72, s, l); } all_docs(0); }
    mc_section("length of a chain before a long text"); for (k = 0; k < 79; k++) for (l = 0; l <= 191; l += mc_thorough ? 1 : 3) for (a = 0; a < 3; a++) if (mc_case()) { key(6, k, l, a, 0); n = rep(s, "\x01\x13\x2A", 3, k); fresh(0x72, s, n); if (a) { n = text(s, 100, 'x', 'x'); fresh(0x72, s, n); } n = text(s, l, '"', '"'); if (a == 2) n = unit(s, l > 127 ? 127 : l, '"', 0x71); fresh(0x72, s, n); all_docs(0); }
    mc_section("a telegram without records in a chain"); for (n = 1; n <= 4; n++) for (k = 0; k < n; k++) for (a = 0; a < 10; a++) for (b = 0; b < NKIND; b++) for (c = 0; c < NKIND; c++) if (mc_case()) {
        char *x; int one = 0; key(7, n, k, a, b * 16 + c); for (i = 0; i < n; i++) if (i == k) bad(a); else { l = KIND(s, i < k ? b : c); fresh(0x72, s, l); }
        mem_begin(0xA5); if (k == 0 && (a == 2 || a == 3 || a == 9)) one = 1; x = mbus_frame_xml(&FR[0]); if (one) { MC_CHECK(x != NULL, "no document"); env_free(x); } else MC_CHECK(!x, "a document although telegram %d of %d cannot be shown:\n%s", k + 1, n, x); no_leak(); mc_outcome(one ? "first telegram alone" : "refused"); mc_trans(1);
        /* afterwards all is as before */ NF = 0; l = KIND(s, c); fresh(0x72, s, l); all_docs(0); }
}
