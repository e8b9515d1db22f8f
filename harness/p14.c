/* P14: decomposition of variable telegrams, against the reference grammar. */
#include "util.h"
#include "refvar.h"
static rvar R; static uint8_t H[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
static void judge(mbus_frame_data *fd, int r, int e, const uint8_t *d, int n)
{
    mbus_data_variable *v = &fd->data_var; mbus_data_record *rec; int i;
    if (e == -2) { mc_outcome("reserved length"); return; }
    if (e) { MC_CHECK(r != 0, "accepted although it breaks the record grammar"); mc_outcome("rejected"); return; }
    MC_CHECK(r == 0, "rejected although it follows the record grammar (%s)", mbus_error_str());
    MC_CHECK(fd->type == MBUS_DATA_TYPE_VARIABLE, "type %d", fd->type);
    MC_CHECK(!memcmp(v->header.id_bcd, d, 4) && !memcmp(v->header.manufacturer, d + 4, 2) && v->header.version == d[6] && v->header.medium == d[7] && v->header.access_no == d[8] && v->header.status == d[9] && !memcmp(v->header.signature, d + 10, 2), "header fields differ");
    MC_CHECK((int)v->nrecords == R.n, "%d records, expected %d", (int)v->nrecords, R.n);
    MC_CHECK(!!v->more_records_follow == R.more, "more-records flag %d", v->more_records_follow);
    for (i = 0, rec = v->record; rec; rec = rec->next, i++) {
        rrec *x = &R.r[i]; MC_CHECK(i < R.n, "more records in the list than counted");
        MC_CHECK(rec->drh.dib.dif == x->dif, "record %d: DIF %02X, expected %02X", i, rec->drh.dib.dif, x->dif);
        MC_CHECK((int)rec->data_len == x->dlen, "record %d: %d data bytes, expected %d", i, (int)rec->data_len, x->dlen);
        MC_CHECK(!memcmp(rec->data, x->data, x->dlen), "record %d: data differ", i);
        MC_CHECK(rec->timestamp == 12345, "record %d: time of reception lost", i);
        if (x->special) continue;
        MC_CHECK((int)rec->drh.dib.ndife == x->ndife && !memcmp(rec->drh.dib.dife, x->dife, x->ndife), "record %d: DIFE chain differs", i);
        MC_CHECK(rec->drh.vib.vif == x->vif, "record %d: VIF %02X, expected %02X", i, rec->drh.vib.vif, x->vif);
        MC_CHECK((int)rec->drh.vib.nvife == x->nvife && !memcmp(rec->drh.vib.vife, x->vife, x->nvife), "record %d: VIFE chain differs", i);
        if ((x->vif & 0x7F) == 0x7C) MC_CHECK(!strcmp((char *)rec->drh.vib.custom_vif, (char *)x->cust), "record %d: unit text \"%s\", expected \"%s\"", i, rec->drh.vib.custom_vif, x->cust);
    }
    MC_CHECK(i == R.n, "record list has %d entries, counted %d", i, R.n);
    mc_outcome("%d records%s", R.n > 6 ? 7 : R.n, R.more ? ", more follow" : "");
}
static mbus_frame F; static int n_prev;
static void tryd(const uint8_t *d, int n, int fill)
{
    mbus_frame_data *fd = mbus_frame_data_new(); int e = ref_var(d, n, &R), r;
    F.start1 = F.start2 = 0x68; F.stop = 0x16; F.type = n ? MBUS_FRAME_TYPE_LONG : MBUS_FRAME_TYPE_CONTROL; F.control = 0x08; F.address = 1; F.control_information = 0x72; F.length1 = F.length2 = n + 3; F.timestamp = 12345;
    memset(F.data + n, fill, n_prev > n ? n_prev - n : 4 < 252 - n ? 4 : 252 - n); n_prev = n; memcpy(F.data, d, n); F.data_size = n;
    r = mbus_frame_data_parse(&F, fd); mc_trans(1); judge(fd, r, e, d, n);
    { int st[4] = { e, R.n, R.more, R.n && !e ? R.r[R.n - 1].dif : 0 }; mc_state(st, sizeof st); }
    mbus_frame_data_free(fd);
}
static void one(const uint8_t *body, int n) { uint8_t d[256]; static const int fl[] = { 0x00, 0xFF, 0x7C }; memcpy(d, H, 12); memcpy(d + 12, body, n); mc_input(body, n); tryd(d, n + 12, fl[mc_cur->idx % 3]); }
/* through the link layer, too */
static void link1(const uint8_t *body, int n) { uint8_t d[256], t[300]; mbus_frame f; mbus_frame_data *fd; int k, r, e; memcpy(d, H, 12); memcpy(d + 12, body, n); mc_input(body, n); k = mk_long(t, 0x08, 1, 0x72, d, n + 12); if (parse_fresh(&f, t, k, 0xA5)) mc_fail("telegram refused"); f.timestamp = 12345; fd = mbus_frame_data_new(); e = ref_var(d, n + 12, &R); r = mbus_frame_data_parse(&f, fd); judge(fd, r, e, d, n + 12); mbus_frame_data_free(fd); }
static int mkrec(uint8_t *o, int dif, int nd, int vif, int nv, int cl, int lv, int dl)
{
    int k = 0, i; o[k++] = nd ? dif | 0x80 : dif & 0x7F; for (i = 0; i < nd; i++) o[k++] = (i + 1 < nd ? 0x80 : 0) | (0x11 * i & 0x7F);
    o[k++] = nv ? vif | 0x80 : vif & 0x7F; if ((vif & 0x7F) == 0x7C) { o[k++] = cl; for (i = 0; i < cl; i++) o[k++] = 'A' + i % 26; }
    for (i = 0; i < nv; i++) o[k++] = (i + 1 < nv ? 0x80 : 0) | (0x0F + i);
    if ((dif & 15) == 13) o[k++] = lv;
    for (i = 0; i < dl; i++) o[k++] = 0x41 + i * 3; return k;
}
void mc_main(void)
{
    static const uint8_t al[] = { 0x00, 0x01, 0x02, 0x04, 0x0D, 0x0F, 0x1F, 0x2F, 0x13, 0x7C, 0x80, 0x81, 0x8D, 0x93, 0xFC, 0xFF, 0xC1, 0x03 };
    static const int lens[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 }; int n, i, j, k, l, a, b, c; uint8_t s[256], x[300];
    memset(&F, 0, sizeof F);
    mc_section("every short body");
    for (n = 0; n <= 5 + mc_thorough; n++) { int ix[8] = {0}; for (;;) { if (mc_case()) { for (i = 0; i < n; i++) s[i] = al[ix[i]]; one(s, n); } for (i = n - 1; i >= 0 && ++ix[i] == (int)sizeof al; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("every header size"); for (n = 0; n <= 14; n++) for (a = 0; a < 256; a++) if (mc_case()) { memset(x, a, 20); mc_input(&n, 4); tryd(x, n, 0x2F); }
    mc_section("every DIF x VIF"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) for (c = -1; c < 1; c++) if (mc_case()) { k = 0; s[k++] = a; if (a == 15 || a == 31 || a == 47) {} else { if (a & 0x80) s[k++] = 0x05; s[k++] = b; if ((b & 127) == 0x7C) { s[k++] = 2; s[k++] = 'x'; s[k++] = 'y'; } if (b & 0x80) s[k++] = 0x22; if ((a & 15) == 13) { s[k++] = 3; l = 3; } else l = lens[a & 15]; for (i = 0; i < l; i++) s[k++] = 0x91 + i; } s[k++] = 1; s[k++] = 0x13; s[k++] = 0x77; one(s, k + c); }
    mc_section("every pair of bytes after an extended DIF"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { s[0] = 0x81; s[1] = a; s[2] = b; s[3] = 0x13; s[4] = 1; s[5] = 1; s[6] = 0x13; s[7] = 2; one(s, 8); }
    mc_section("chain lengths x every truncation"); for (i = 0; i <= 12; i++) for (j = 0; j <= 12; j++) for (a = 0; a < 16; a++) for (c = 0; c < 2; c++) { n = mkrec(s, a == 15 ? 0x4F : a, i, c ? 0x7C : 0x13, j, 3, 5, (a == 13) ? 5 : lens[a]); for (l = c || a == 4 || a == 13 ? 0 : n - 1; l <= n; l++) if (mc_case()) one(s, l); }
    mc_section("all variable lengths x available bytes"); for (a = 0; a < 256; a++) for (l = 0; l <= 232; l++) if (l < 4 || l > 226 || abs(l - (ref_lvar(a) < 0 ? 0 : ref_lvar(a))) < 3 || l % 16 == 0) if (mc_case()) { n = mkrec(s, 0x0D, 0, 0x13, 0, 0, a, l); one(s, n); }
    mc_section("all unit text lengths x available bytes"); for (a = 0; a < 256; a++) for (b = 0; b < 2; b++) for (l = 0; l <= 236; l++) if (l < 3 || abs(l - a) < 6 || l > 232) if (mc_case()) { s[0] = 1; s[1] = b ? 0xFC : 0x7C; s[2] = a; for (i = 0; i < l; i++) s[3 + i] = i == a ? 0x22 : 'a' + i % 26; one(s, 3 + l); }
    mc_section("manufacturer blocks of every size"); for (a = 0; a < 2; a++) for (b = 0; b < 3; b++) for (l = 0; l <= 239 - (b ? 3 : 0); l++) if (mc_case()) { k = 0; if (b) { s[k++] = 1; s[k++] = 0x13; s[k++] = 9; } s[k++] = a ? 0x1F : 0x0F; for (i = 0; i < l; i++) s[k++] = b == 2 ? 0x2F : 0x1F - i; one(s, k); }
    mc_section("many records"); for (a = 0; a < 8; a++) for (l = 0; l <= 240; l++) if (mc_case()) { for (k = 0; k < l; k++) { static const uint8_t p[8][4] = { { 0x00, 0x13 }, { 0x2F }, { 0x01, 0x13, 0x55 }, { 0x02, 0x13, 0x2F, 0x0F }, { 0x0D, 0x13, 0x01, 0x41 }, { 0x08, 0x13 }, { 0x00, 0x7C, 0x00 }, { 0x80, 0x00, 0x93, 0x00 } }; static const int pl[8] = { 2, 1, 3, 4, 4, 2, 3, 4 }; s[k] = p[a][k % pl[a]]; } one(s, k); }
    mc_section("fillers at every position"); { static const uint8_t base[] = { 0x01, 0x13, 0x07, 0x82, 0x11, 0x93, 0x22, 0x33, 0x44, 0x0D, 0x13, 0x02, 0x41, 0x42 }; for (a = 0; a <= 14; a++) for (b = 0; b <= 14; b++) for (l = 1; l < 4; l++) if (mc_case()) { for (k = i = 0; i <= 14; i++) { if (i == a) for (j = 0; j < l; j++) s[k++] = 0x2F; if (i == b) s[k++] = 0x2F; if (i < 14) s[k++] = base[i]; } one(s, k); } }
    mc_section("longest telegrams"); for (a = 0; a < 256; a++) for (l = 236; l <= 240; l++) for (b = 0; b < 4; b++) if (mc_case()) { memset(s, b == 0 ? 0x2F : b == 1 ? 0x00 : b == 2 ? 0x80 : 0x0D, l); if (b == 1) for (i = 0; i < l; i += 2) s[i + 1] = 0x13; if (b == 3) { for (i = 0; i + 2 < l; i += 3) s[i + 1] = 0x13, s[i + 2] = 0; } s[l - 1] = a; one(s, l); s[l - 1] = 0x13; s[l - 2] = a; one(s, l); link1(s, l); }
    mc_section("other kinds"); for (a = 0; a < 256; a++) for (b = 0; b < 8; b++) if (mc_case()) { static const uint8_t ct[] = { 0x08, 0x18, 0x28, 0x38, 0x53, 0x73 }; mbus_frame_data *fd = mbus_frame_data_new(); int r; memcpy(F.data, H, 12); F.data[12] = 1; F.data[13] = 0x13; F.data[14] = 2; F.data_size = b == 6 ? 0 : b == 7 ? 16 : 15; F.data[15] = 0x2F; F.control = b < 6 ? ct[b] : 0x08; F.control_information = a; { int d[2] = { a, b }; mc_input(d, sizeof d); } r = mbus_frame_data_parse(&F, fd); mc_trans(1);
        i = (F.control & 0x40) ? -1 : a == 0x72 ? (F.data_size ? MBUS_DATA_TYPE_VARIABLE : -1) : a == 0x73 ? (F.data_size == 16 ? MBUS_DATA_TYPE_FIXED : -1) : a == 0x70 ? MBUS_DATA_TYPE_ERROR : -1;
        MC_CHECK((r == 0) == (i >= 0), "control %02X CI %02X with %d bytes: result %d", F.control, a, (int)F.data_size, r); if (!r) MC_CHECK(fd->type == i, "CI %02X taken as type %d", a, fd->type); mbus_frame_data_free(fd); }
    if (mc_case()) { mbus_frame_data fd; mc_input("n", 1); MC_CHECK(mbus_frame_data_parse(NULL, &fd) != 0 && mbus_frame_data_parse(&F, NULL) != 0, "absent argument accepted"); }
}
