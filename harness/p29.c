/* P29: packing the decoded form gives back the user data it was decoded from. */
#include "util.h"
#include "refvar.h"
#include "frames.h"
static rvar R; static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
static int rebuild(const rvar *v, uint8_t *o, int *nul)
{
    int k = 12, i, j; memcpy(o, v->h, 12); *nul = 0; for (i = 0; i < v->n; i++) { const rrec *r = &v->r[i]; o[k++] = r->dif; if (!r->special) { memcpy(o + k, r->dife, r->ndife); k += r->ndife; o[k++] = r->vif; if ((r->vif & 127) == 0x7C) { o[k++] = r->clen; for (j = 0; j < r->clen; j++) { o[k++] = r->cust[r->clen - 1 - j]; if (!r->cust[j]) *nul = 1; } } memcpy(o + k, r->vife, r->nvife); k += r->nvife; } memcpy(o + k, r->data, r->dlen); k += r->dlen; } return k;
}
/* the frame to pack into: filled, between guards */
static mbus_frame *target(int fill) { mbus_frame *g = (mbus_frame *)guard_buf(0, sizeof *g); memset(g, fill, sizeof *g); g->next = NULL; return g; }
static void pack_is(mbus_frame_data *fd, const uint8_t *want, int n, int key)
{
    int k, r; for (k = 0; k < 2; k++) { mbus_frame *g = target(k ? 0xFF : 0x00), c; memcpy(&c, g, sizeof c); r = mbus_frame_internal_pack(g, fd); mc_trans(1); if (!key || r == 0) MC_CHECK(r == 0, "not packed: %d", r);
        if (r || (int)g->data_size != n || memcmp(g->data, want, n)) { int i; for (i = 0; i < n && i < (int)g->data_size && g->data[i] == want[i]; i++) ; if (key) { mc_fail_key("nul-in-unit-text", "%d bytes instead of %d, first difference at %d: the text of the unit contains a NUL", r ? r : (int)g->data_size, n, i); return; } mc_fail("packed %d bytes instead of %d, first difference at %d: %s, expected %s", (int)g->data_size, n, i, mc_hex(g->data, g->data_size < 252 ? g->data_size : 252), mc_hex(want, n)); }
        { int i; for (i = n; i < 252; i++) MC_CHECK(g->data[i] == c.data[i], "byte %d behind the data written", i); } MC_CHECK(guard_canary_ok(0, sizeof *g) && g->type == c.type && g->next == c.next && g->address == c.address, "other fields of the telegram written"); }
}
static void tele(int ci, const uint8_t *d, int n, int ctl)
{
    static mbus_frame f; mbus_frame_data *fd = mbus_frame_data_new(), cp; uint8_t w[600]; int e, k, nul = 0, i; memset(f.data, 0xEE, sizeof f.data); f.start1 = f.start2 = 0x68; f.stop = 0x16; f.type = MBUS_FRAME_TYPE_LONG; f.control = ctl; f.address = 1; f.control_information = ci; memcpy(f.data, d, n); f.data_size = n; f.length1 = f.length2 = n + 3; f.next = NULL; f.timestamp = 77;
    if (mbus_frame_data_parse(&f, fd)) { mc_outcome("not accepted"); mbus_frame_data_free(fd); return; }
    if (ci == 0x72) { e = ref_var(d, n, &R); if (e == -2) { mc_outcome("reserved length"); mbus_frame_data_free(fd); return; } MC_CHECK(e == 0, "accepted against the grammar"); k = rebuild(&R, w, &nul); }
    else { memcpy(w, d, n); k = n; }
    memcpy(&cp, fd, sizeof cp); pack_is(fd, w, k, nul); MC_CHECK(!memcmp(&cp, fd, sizeof cp), "the decoded form was changed");
    { int s[3] = { fd->type, ci == 0x72 ? R.n : 0, k }; mc_state(s, sizeof s); } mc_outcome("%s%s", ci == 0x72 ? "variable" : ci == 0x73 ? "fixed" : "error", nul ? " (NUL in a unit text)" : k < n ? " without fillers" : "");
    /* packed into the telegram it was decoded from */ if (!nul) { MC_CHECK(mbus_frame_internal_pack(&f, fd) == 0 && (int)f.data_size == k && !memcmp(f.data, w, k), "packing into the same telegram differs"); }
    /* and decoded again */ if (!nul) { mbus_frame_data *f2 = mbus_frame_data_new(); MC_CHECK(!mbus_frame_data_parse(&f, f2), "what was packed is not accepted"); pack_is(f2, w, k, 0); mbus_frame_data_free(f2); }
    (void)i; mbus_frame_data_free(fd);
}
static void var(const uint8_t *b, int n) { uint8_t s[256]; if (n > 240) n = 240; mc_input(b, n); memcpy(s, HB, 12); memcpy(s + 12, b, n); tele(0x72, s, n + 12, 8); }
static const uint8_t ST[] = { 0x00, 0x01, 0x04, 0x0D, 0x0F, 0x1F, 0x2F, 0x80, 0x8D, 0xFF, 0x7C, 0xFC, 0xFD, 0x6D, 0x03, 0xF5, 0xEF, 0xC3, 0x02, 0x41 };
static const struct { int n; const char *b; } K[] = { { 3, "\x01\x13\x2A" }, { 2, "\x00\x13" }, { 1, "\x2F" }, { 8, "\x8D\x81\x01\x78\x03" "abc" }, { 7, "\x01\x7C\x03" "def\x05" }, { 7, "\x02\xFC\x01g\x74\x01\x02" }, { 5, "\x82\x40\x13\x01\x02" }, { 7, "\x04\xFD\x17\x01\x02\x03\x04" }, { 6, "\x84\x90\x20\x13\x00\x00" "" }, { 5, "\x0D\x13\xC2\x12\x34" }, { 3, "\x0F\x13\x2F" }, { 2, "\x1F\x2F" }, { 4, "\x01\x7C\x00\x09" }, { 1, "\x0F" }, { 4, "\x0D\x78\x01" "x" }, { 5, "\x01\xFF\x80\x12\x07" } };
#define NK ((int)(sizeof K / sizeof *K))
static mbus_data_record *rec(int dif, int nd, int vif, int cl, int nv, int dl, int seed)
{
    mbus_data_record *r = mbus_data_record_new(); int i; r->drh.dib.dif = dif; if (dif == 0x0F || dif == 0x1F) nd = nv = 0; else { r->drh.vib.vif = vif; if ((vif & 127) == 0x7C) { for (i = 0; i < cl; i++) r->drh.vib.custom_vif[i] = 'a' + (seed + i) % 26; r->drh.vib.custom_vif[cl] = 0; } } r->drh.dib.ndife = nd; r->drh.vib.nvife = nv; for (i = 0; i < nd; i++) r->drh.dib.dife[i] = (i + 1 < nd ? 0x80 : 0) | (seed + i & 0x7F); for (i = 0; i < nv; i++) r->drh.vib.vife[i] = (i + 1 < nv ? 0x80 : 0) | (seed * 3 + i & 0x7F); r->data_len = dl; for (i = 0; i < dl; i++) r->data[i] = seed * 7 + i; return r;
}
static int rec_bytes(mbus_data_record *r, uint8_t *o) { int k = 0, i, l; o[k++] = r->drh.dib.dif; if (r->drh.dib.dif != 0x0F && r->drh.dib.dif != 0x1F) { for (i = 0; i < (int)r->drh.dib.ndife; i++) o[k++] = r->drh.dib.dife[i]; o[k++] = r->drh.vib.vif; if ((r->drh.vib.vif & 127) == 0x7C) { l = strlen((char *)r->drh.vib.custom_vif); o[k++] = l; for (i = l; i > 0; i--) o[k++] = r->drh.vib.custom_vif[i - 1]; } for (i = 0; i < (int)r->drh.vib.nvife; i++) o[k++] = r->drh.vib.vife[i]; } for (i = 0; i < (int)r->data_len; i++) o[k++] = r->data[i]; return k; }
void mc_main(void)
{
    int a, b, c, i, j, k, l, n; uint8_t s[2000]; static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
    mc_section("record structures"); for (n = 0; n <= 4 + mc_thorough; n++) { int ix[8] = {0}; for (;;) { if (mc_case()) { for (i = 0; i < n; i++) s[i] = ST[ix[i]]; var(s, n); } for (i = n - 1; i >= 0 && ++ix[i] == (int)sizeof ST; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("sequences of records"); for (n = 0; n <= 4 + mc_thorough; n++) { int ix[8] = {0}; for (;;) { if (mc_case()) { for (i = k = 0; i < n; i++) { memcpy(s + k, K[ix[i]].b, K[ix[i]].n); k += K[ix[i]].n; } var(s, k); } for (i = n - 1; i >= 0 && ++ix[i] == NK; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("every DIF x VIF"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) for (c = 0; c < 2; c++) if (mc_case()) { k = 0; if (c) { memcpy(s, K[4].b, K[4].n); k = K[4].n; } s[k++] = a; if (a != 15 && a != 31 && a != 47) { if (a & 0x80) { s[k++] = 0x95; s[k++] = 0x31; } s[k++] = b; if ((b & 127) == 0x7C) { s[k++] = 2; s[k++] = 'y'; s[k++] = 'z'; } if (b & 0x80) { s[k++] = 0xA2 + (a >> 5); s[k++] = 0x0C; } if ((a & 15) == 13) { s[k++] = 3; l = 3; } else l = len[a & 15]; for (i = 0; i < l; i++) s[k++] = 0x2F + i; } if (c) { memcpy(s + k, K[0].b, 3); k += 3; } var(s, k); }
    mc_section("extension chains"); for (i = 0; i <= 10; i++) for (j = 0; j <= 10; j++) for (a = 0; a < 16; a++) for (b = 0; b < 3; b++) if (mc_case()) { static const uint8_t vf[] = { 0x13, 0x7D, 0x7C }; k = 0; s[k++] = a | (i ? 0x80 : 0); for (l = 0; l < i; l++) s[k++] = (l + 1 < i ? 0x80 : 0) | (0x2F + l); s[k++] = vf[b] | (j ? 0x80 : 0); if (b == 2) { s[k++] = i; for (l = 0; l < i; l++) s[k++] = 'a' + l; } for (l = 0; l < j; l++) s[k++] = (l + 1 < j ? 0x80 : 0) | (7 * a + l & 127); if (a == 13) s[k++] = 2; for (l = 0; l < (a == 13 ? 2 : len[a]); l++) s[k++] = 0x99 + l; memcpy(s + k, K[3].b, 8); var(s, k + 8); }
    mc_section("unit texts"); for (l = 0; l <= 127; l++) for (a = 0; a < 256; a += l < 12 || l > 125 || mc_thorough ? 1 : 11) for (b = 0; b < 2; b++) if (mc_case()) { k = 0; s[k++] = 0x01; s[k++] = b ? 0xFC : 0x7C; s[k++] = l; for (i = 0; i < l; i++) s[k++] = i == l / 2 ? a : 0x41 + i % 60; if (b) s[k++] = 0x22; s[k++] = a; if (l < 90) { s[k++] = 0x2F; memcpy(s + k, K[6].b, 5); k += 5; } var(s, k); }
    mc_section("variable length"); for (c = 0; c < 256; c++) for (a = 0; a < 256; a += mc_thorough ? 1 : 15) if (ref_lvar(c) >= 0) if (mc_case()) { l = ref_lvar(c); k = 0; s[k++] = 0x0D; s[k++] = 0x78; s[k++] = c; for (i = 0; i < l; i++) s[k++] = i == 0 ? a : i * a; if (k < 230) { memcpy(s + k, K[0].b, 3); k += 3; } var(s, k); }
    mc_section("manufacturer data"); for (a = 0; a < 2; a++) for (n = 0; n <= 239; n++) for (c = 0; c < 4; c++) for (b = 0; b < 3; b++) if (mc_case()) { k = 0; if (b) { memcpy(s, K[b + 3].b, K[b + 3].n); k = K[b + 3].n; } s[k++] = a ? 0x1F : 0x0F; for (i = 0; i < n && k < 240; i++) s[k++] = c == 0 ? 0x2F : c == 1 ? 0x0F : c == 2 ? 0xFF : i; var(s, k); }
    mc_section("telegrams up to the maximum size"); for (i = 0; i < NK; i++) for (j = 0; j < NK; j++) for (n = 1; n <= 240; n++) if (mc_case()) { for (k = c = 0;; c++) { int q = c & 1 ? j : i; if (k + K[q].n > n) break; memcpy(s + k, K[q].b, K[q].n); k += K[q].n; } while (k < n) s[k++] = 0x2F; var(s, k); }
    mc_section("headers"); for (i = 0; i < 12; i++) for (a = 0; a < 256; a++) if (mc_case()) { memcpy(s, HB, 12); s[i] = a; memcpy(s + 12, K[0].b, 3); mc_input(s, 12); tele(0x72, s, 15, 8); tele(0x72, s, 12, 0x18); }
    mc_section("fixed telegrams"); for (i = 0; i < 16; i++) for (j = i; j < 16; j++) for (a = 0; a < 256; a += j == i || mc_thorough ? 1 : 5) for (b = 0; b < 256; b += j == i ? 256 : 15) if (mc_case()) { for (k = 0; k < 16; k++) s[k] = 0xB2 + k; s[i] = a; if (j > i) s[j] = b; mc_input(s, 16); tele(0x73, s, 16, 8); }
    mc_section("application errors"); for (a = 0; a < 256; a++) for (b = 0; b < 2; b++) if (mc_case()) { s[0] = a; { uint8_t q[2] = { 'E', a }; mc_input(q, 2); } tele(0x70, s, 1, b ? 0x28 : 8); }
    mc_section("real telegrams"); for (i = 0; i < N_FRAMES; i++) if (mc_case()) { mbus_frame f; mc_input(FRAMES[i].b, FRAMES[i].n); if (FRAMES[i].n > 300 || parse_fresh(&f, FRAMES[i].b, FRAMES[i].n, 0) || f.type != MBUS_FRAME_TYPE_LONG) { mc_outcome("no telegram"); continue; } if (f.control_information == 0x70 && f.data_size != 1) continue; if (f.control_information == 0x72 || f.control_information == 0x73 || f.control_information == 0x70) tele(f.control_information, f.data, f.data_size, f.control); }
    mc_section("decoded forms around the maximum size"); for (a = 0; a < 5; a++) for (i = 0; i < 12; i++) for (n = 1; n <= 40; n++) for (l = 0; l <= 234; l++) { static const int sh[12][4] = { { 0, 0, 0, 1 }, { 0, 0, 0, 0 }, { 3, 0, 2, 4 }, { 10, 0, 10, 8 }, { 0, 20, 0, 2 }, { 1, 127, 1, 0 }, { 0, 0, 0, 100 }, { 0, 5, 10, 0 }, { 10, 0, 0, 1 }, { 0, 0, 10, 1 }, { 2, 60, 3, 60 }, { 0, 0, 0, 233 } }; int one = 2 + sh[i][0] + sh[i][1] + (sh[i][1] ? 1 : 0) + sh[i][2] + sh[i][3], last = l + (a == 0 ? 2 : a < 3 ? 1 : a == 3 ? 22 : 133), tot = 12 + n * one + last; if (tot < 240 || tot > 270 || !mc_case()) continue;
        { mbus_frame_data *fd = mbus_frame_data_new(); mbus_data_record *r; uint8_t w[2000]; int q[4] = { a, i, n, l }; mc_input(q, sizeof q); fd->type = MBUS_DATA_TYPE_VARIABLE; memcpy(&fd->data_var.header, HB, 0); memcpy(fd->data_var.header.id_bcd, HB, 4); memcpy(fd->data_var.header.manufacturer, HB + 4, 2); fd->data_var.header.version = HB[6]; fd->data_var.header.medium = HB[7]; fd->data_var.header.access_no = HB[8]; fd->data_var.header.status = HB[9]; memcpy(fd->data_var.header.signature, HB + 10, 2); fd->data_var.record = NULL; memcpy(w, HB, 12); k = 12;
        for (j = 0; j < n; j++) { r = rec(0x01 | (sh[i][0] ? 0x80 : 0), sh[i][0], (sh[i][1] ? 0x7C : 0x13) | (sh[i][2] ? 0x80 : 0), sh[i][1], sh[i][2], sh[i][3], j); mbus_data_record_append(&fd->data_var, r); k += rec_bytes(r, w + k); } r = a == 0 ? rec(0x0D, 0, 0x13, 0, 0, l, 99) : a < 3 ? rec(a == 1 ? 0x0F : 0x1F, 0, 0, 0, 0, l, 98) : a == 3 ? rec(0x8D, 10, 0x93, 0, 10, l, 97) : rec(0x8D, 1, 0xFC, 127, 2, l, 96); mbus_data_record_append(&fd->data_var, r); k += rec_bytes(r, w + k);
        if (k <= 252) { pack_is(fd, w, k, 0); mc_outcome("fits"); } else { mbus_frame *g = target(0xEE); int t; g->type = 77; MC_CHECK((t = mbus_frame_internal_pack(g, fd)) < 0, "%d bytes packed into a telegram of 252 (%d)", k, t); MC_CHECK(guard_canary_ok(0, sizeof *g) && g->type == 77 && !g->next, "fields behind the data overwritten"); mc_outcome("refused"); } mbus_frame_data_free(fd); } }
    mc_section("nothing to pack"); for (a = -3; a < 12; a++) if (mc_case()) { mbus_frame_data *fd = mbus_frame_data_new(); mbus_frame *g = target(0xEE); mc_input(&a, 4); MC_CHECK(mbus_frame_internal_pack(NULL, fd) < 0 && mbus_frame_internal_pack(g, NULL) < 0 && mbus_frame_internal_pack(NULL, NULL) < 0, "packed nothing"); fd->type = a; fd->data_var.record = NULL; if (a != MBUS_DATA_TYPE_ERROR && a != MBUS_DATA_TYPE_FIXED && a != MBUS_DATA_TYPE_VARIABLE) MC_CHECK(mbus_frame_internal_pack(g, fd) < 0, "unknown kind of data %d packed", a); mbus_frame_data_free(fd); mc_outcome("refused"); }
}
