/* P35: dumps show what was received. */
#include "util.h"
#include <stdarg.h>
#include <ctype.h>
#include "refvar.h"
#include "frames.h"
static rvar R; static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
static FILE *so, *se, *cf; static char *out; static size_t outn;
static void cap(int err) { if (out) free(out); out = NULL; cf = open_memstream(&out, &outn); if (err) { se = stderr; stderr = cf; so = NULL; } else { so = stdout; stdout = cf; } }
static void uncap(void) { if (so) stdout = so; else stderr = se; so = NULL; fclose(cf); }
/* next line with this label at or after p; value in v; NULL = none */
static const char *field(const char *p, const char *label, char *v, size_t vn)
{
    while (*p) { const char *e = strchr(p, '\n'), *q, *eq; char l[200]; int n, k; if (!e) e = p + strlen(p); for (eq = NULL, q = p; q + 1 < e; q++) if (q[0] == ' ' && q[1] == '=') { eq = q; break; }
        if (eq) { n = eq - p; if (n > 199) n = 199; memcpy(l, p, n); l[n] = 0; q = strstr(l, ": "); q = q ? q + 2 : l; k = strlen(q); while (k && q[k - 1] == ' ') k--; if ((int)strlen(label) == k && !strncmp(q, label, k)) { q = eq + 2; while (q < e && *q == ' ') q++; n = e - q; while (n && q[n - 1] == ' ') n--; if (n >= (int)vn) n = vn - 1; memcpy(v, q, n); v[n] = 0; return *e ? e + 1 : e; } } p = *e ? e + 1 : e; }
    return NULL;
}
static const char *P;
static void expect(const char *label, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void expect(const char *label, const char *fmt, ...) { char w[2000], v[2000]; const char *p; va_list ap; va_start(ap, fmt); vsnprintf(w, sizeof w, fmt, ap); va_end(ap); p = field(P, label, v, sizeof v); MC_CHECK(p != NULL, "\"%s\" is not shown in <<%.1500s>>", label, P); MC_CHECK(!strcmp(v, w), "%s shown as \"%s\", expected \"%s\"", label, v, w); P = p; }
static int times(const char *label) { const char *p = out; char v[2000]; int n = 0; while ((p = field(p, label, v, sizeof v))) n++; return n; }
static int bytes_of(const char *s, uint8_t *o, const char **end) { int n = 0; for (;;) { while (*s == ' ') s++; if (!isxdigit((unsigned char)s[0]) || !isxdigit((unsigned char)s[1]) || isalnum((unsigned char)s[2])) break; sscanf(s, "%2hhx", &o[n++]); s += 2; } *end = s; return n; }
/* telegram dump */
static void frame_dump(mbus_frame *f)
{
    mbus_frame *i, c; const char *p; uint8_t b[300], w[300]; int n, k, q, ln = 0; for (i = f; i; i = i->next) ln++; memcpy(&c, f, sizeof c); cap(0); q = mbus_frame_print(f); uncap(); mc_trans(1); MC_CHECK(q == 0, "not printed: %d", q); MC_CHECK(!memcmp(&c, f, sizeof c), "the telegram was changed"); p = out;
    for (i = f; i; i = i->next) { const char *e; char *br; int said = -1; MC_CHECK(*p, "a telegram of the chain is missing"); if (i->type == MBUS_FRAME_TYPE_ACK) { n = 1; w[0] = 0xE5; } else if (i->type == MBUS_FRAME_TYPE_SHORT) n = mk_short(w, i->control, i->address); else n = mk_long(w, i->control, i->address, i->control_information, i->data, i->data_size);
        e = strchr(p, '\n'); MC_CHECK(e, "no end of line"); br = strstr(p, "bytes]"); MC_CHECK(br && br < e, "no length"); { const char *z = br - 1; while (z > p && !isdigit((unsigned char)*z)) z--; while (z > p && isdigit((unsigned char)z[-1])) z--; said = atoi(z); } MC_CHECK(said == n, "%d bytes announced instead of %d", said, n);
        p = br + 6; if (*p == ':') p++; k = bytes_of(p, b, &e); MC_CHECK(k == n && !memcmp(b, w, n), "telegram of %d bytes shown as %d: %.900s", n, k, p); MC_CHECK(*e == '\n', "further text: %.40s", e); p = e + 1; }
    MC_CHECK(!*p, "further text: %.80s", p); mc_outcome("telegram dump"); (void)ln;
}
static void fill(mbus_frame *f, int type, int c, int a, int ci, const uint8_t *d, int n) { uint8_t s[300]; int k; memset(f, 0, sizeof *f); if (type == MBUS_FRAME_TYPE_ACK) { s[0] = 0xE5; k = 1; } else if (type == MBUS_FRAME_TYPE_SHORT) k = mk_short(s, c, a); else k = mk_long(s, c, a, ci, d, n); if (mbus_parse(f, s, k)) mc_fail("telegram refused"); }
static void header_of(const uint8_t *b)
{
    int m = b[4] | b[5] << 8; expect("ID", "%X", b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24); expect("Manufacturer", "0x%02X%02X", b[5], b[4]); expect("Manufacturer", "%c%c%c", 64 + (m >> 10 & 31), 64 + (m >> 5 & 31), 64 + (m & 31)); expect("Version", "0x%02X", b[6]); expect("Medium", "%s (0x%02X)", mbus_data_variable_medium_lookup(b[7]), b[7]); expect("Access #", "0x%02X", b[8]); expect("Status", "0x%02X", b[9]); expect("Signature", "0x%02X%02X", b[11], b[10]);
}
static const char *FN[4] = { "Instantaneous value", "Maximum value", "Minimum value", "Value during error state" };
static void data_dump(mbus_frame *f)
{
    mbus_frame_data *fd = mbus_frame_data_new(), cp; int i, j, k; char l[40]; const uint8_t *d = f->data;
    if (mbus_frame_data_parse(f, fd)) { mc_outcome("not accepted"); mbus_frame_data_free(fd); return; }
    if (fd->type == MBUS_DATA_TYPE_VARIABLE && ref_var(d, f->data_size, &R)) { mc_outcome("reserved length"); mbus_frame_data_free(fd); return; }
    memcpy(&cp, fd, sizeof cp); cap(0); mbus_frame_data_print(fd); uncap(); mc_trans(1); MC_CHECK(!memcmp(&cp, fd, sizeof cp), "the data were changed"); P = out;
    if (fd->type == MBUS_DATA_TYPE_ERROR) { expect("Error", "%d", f->data_size ? d[0] : 0); mc_outcome("error"); }
    else if (fd->type == MBUS_DATA_TYPE_FIXED) {
        int bcd = !(d[5] & 0x80); expect("ID", "%X", d[0] | d[1] << 8 | d[2] << 16 | (unsigned)d[3] << 24); expect("Access #", "0x%02X", d[4]); expect("Status", "0x%02X", d[5]); expect("Function", "%s", d[5] & 0x40 ? "Stored value" : "Actual value");
        for (i = 0; i < 2; i++) { const uint8_t *c = d + 8 + 4 * i; uint32_t v = c[0] | c[1] << 8 | c[2] << 16 | (uint32_t)c[3] << 24; sprintf(l, "Medium%d", i + 1); expect(l, "%s", mbus_data_fixed_medium(&fd->data_fix)); sprintf(l, "Unit%d", i + 1); { char u[200]; snprintf(u, sizeof u, "%s", mbus_data_fixed_unit(d[6 + i])); expect(l, "%s", u); } sprintf(l, "Counter%d", i + 1); if (bcd) expect(l, "%X", v); else expect(l, "%d", (int32_t)v); }
        mc_outcome("fixed");
    } else {
        header_of(d); MC_CHECK(times("Record ID") == R.n, "%d records shown, %d received", times("Record ID"), R.n);
        for (i = 0; i < R.n; i++) { rrec *r = &R.r[i]; expect("Record ID", "%d", i); expect("DIF", "%02X", r->dif); expect("DIF.Extension", "%s", r->dif & 0x80 ? "Yes" : "No"); expect("DIF.StorageNumber", "%d", r->dif >> 6 & 1); if (!r->special) expect("DIF.Function", "%s", FN[r->dif >> 4 & 3]); expect("DIF.Data", "%02X", r->dif & 15);
            if (r->special) { char w[800] = "", lab[60]; for (j = k = 0; j < r->dlen; j++) k += sprintf(w + k, j ? " %02X" : "%02X", r->data[j]); sprintf(lab, "VENDOR DATA [size=%d]", r->dlen); expect(lab, "%s", w); if (r->dif == 0x1F) MC_CHECK(strstr(P, "ore records follow"), "further records are not announced"); continue; }
            expect("DATA LENGTH", "%d", r->dlen);
            for (j = 0; j < r->ndife; j++) { int e = r->dife[j]; sprintf(l, "DIFE[%d]", j); expect(l, "%02X", e); sprintf(l, "DIFE[%d].Extension", j); expect(l, "%s", e & 0x80 ? "Yes" : "No"); sprintf(l, "DIFE[%d].Device", j); expect(l, "%d", e >> 6 & 1); sprintf(l, "DIFE[%d].Tariff", j); expect(l, "%d", e >> 4 & 3); sprintf(l, "DIFE[%d].StorageNumber", j); expect(l, "%02X", e & 15); }
            expect("VIF", "%02X", r->vif); expect("VIF.Extension", "%s", r->vif & 0x80 ? "Yes" : "No"); expect("VIF.Value", "%02X", r->vif & 127);
            for (j = 0; j < r->nvife; j++) { int e = r->vife[j]; sprintf(l, "VIFE[%d]", j); expect(l, "%02X", e); sprintf(l, "VIFE[%d].Extension", j); expect(l, "%s", e & 0x80 ? "Yes" : "No"); sprintf(l, "VIFE[%d].Value", j); expect(l, "%02X", e & 127); }
            if (i + 1 < R.n || 1) { char v[40]; const char *nx = strstr(P, "Record ID"); const char *x = field(P, "DIF", v, 40), *y; (void)x; sprintf(l, "DIFE[%d]", r->ndife); y = field(P, l, v, 40); MC_CHECK(!y || (nx && y > nx), "an extension is shown that is not there"); sprintf(l, "VIFE[%d]", r->nvife); y = field(P, l, v, 40); MC_CHECK(!y || (nx && y > nx), "an extension is shown that is not there"); } }
        mc_outcome("%d records", R.n > 5 ? 6 : R.n);
    }
    { int s[3] = { fd->type, fd->type == MBUS_DATA_TYPE_VARIABLE ? R.n : 0, f->data_size }; mc_state(s, sizeof s); } mbus_frame_data_free(fd);
}
static void var(const uint8_t *b, int n) { mbus_frame f; uint8_t s[256]; if (n > 240) n = 240; mc_input(b, n); memcpy(s, HB, 12); memcpy(s + 12, b, n); fill(&f, MBUS_FRAME_TYPE_LONG, 8, 1, 0x72, s, n + 12); data_dump(&f); }
static void trace(int which, const uint8_t *b, int n)
{
    uint8_t g[700]; const char *p, *e; int k; char lab[40]; cap(1); if (which == 0) mbus_dump_recv_event(0, (const char *)guard_copy(0, b, n), n); else if (which == 1) mbus_dump_send_event(0, (const char *)guard_copy(0, b, n), n); else mbus_hex_dump("a label", (const char *)guard_copy(0, b, n), n); uncap(); mc_trans(1); p = strstr(out, which == 0 ? "RECV" : which == 1 ? "SEND" : "a label"); MC_CHECK(p, "no label"); sprintf(lab, "(%03d)", n); p = strstr(p, lab); MC_CHECK(p, "length %d not shown in <<%.80s>>", n, out); p = strchr(p, ':'); MC_CHECK(p, "no bytes"); k = bytes_of(p + 1, g, &e); MC_CHECK(k == n && !memcmp(g, b, n), "%d bytes shown as %d", n, k); MC_CHECK(*e == '\n' && !e[1], "further text: %.40s", e); mc_outcome("line trace");
}
static const uint8_t ST[] = { 0x00, 0x01, 0x04, 0x0D, 0x0F, 0x1F, 0x2F, 0x80, 0x8D, 0xFF, 0x7C, 0xFC, 0x6D, 0x31, 0xEF, 0x02 };
void mc_main(void)
{
    int a, b, c, i, j, k, l, n; uint8_t s[700]; mbus_frame f[4]; static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
    mc_section("telegram dump: every size"); for (n = 0; n <= 252; n++) for (k = 0; k < 6; k++) for (a = 0; a < 256; a += mc_thorough ? 5 : 51) if (mc_case()) { uint8_t q[3] = { n, k, a }; mc_input(q, 3); pat(s, n, k); if (n) s[n - 1] = a; fill(&f[0], MBUS_FRAME_TYPE_LONG, 0x08 | (k & 1) << 5, a, 0x72 + k, s, n); frame_dump(&f[0]); }
    mc_section("telegram dump: every field"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b += a % 8 ? 17 : 1) if (mc_case()) { uint8_t q[2] = { a, b }; mc_input(q, 2); s[0] = a ^ b; fill(&f[0], MBUS_FRAME_TYPE_LONG, 0x08, a, b, s, 1); frame_dump(&f[0]); fill(&f[0], MBUS_FRAME_TYPE_LONG, 0x08, a, b, s, 0); frame_dump(&f[0]); fill(&f[0], MBUS_FRAME_TYPE_SHORT, 0x5B, a, 0, NULL, 0); frame_dump(&f[0]); fill(&f[0], MBUS_FRAME_TYPE_ACK, 0, 0, 0, NULL, 0); frame_dump(&f[0]); }
    mc_section("telegram dump: chains"); for (n = 2; n <= 4; n++) for (a = 0; a < 4096; a++) { if (a >> 3 * n || !mc_case()) continue; { int q[2] = { n, a }; mc_input(q, sizeof q); } for (i = 0; i < n; i++) { static const int sz[] = { 0, 1, 15, 100, 247, 248, 252, -1 }; int z = sz[a >> 3 * i & 7]; pat(s, z < 0 ? 0 : z, i); if (z < 0) fill(&f[i], i & 1 ? MBUS_FRAME_TYPE_ACK : MBUS_FRAME_TYPE_SHORT, 0x40, i, 0, NULL, 0); else fill(&f[i], MBUS_FRAME_TYPE_LONG, 8, i, 0x72, s, z); if (i) f[i - 1].next = &f[i]; } frame_dump(&f[0]); }
    mc_section("telegram dump: what is no telegram"); for (a = 0; a < 300; a++) for (k = 0; k < 3; k++) if (mc_case()) { mc_input(&a, 4); fill(&f[0], MBUS_FRAME_TYPE_LONG, 8, 1, 0x72, s, 5); if (k == 0) f[0].data_size = 253 + a; else if (k == 1) f[0].type = 10 + a; else f[0].type = -1 - a; cap(0); n = mbus_frame_print(k == 2 && a == 0 ? NULL : &f[0]); uncap(); MC_CHECK(n != 0, "printed"); MC_CHECK(!outn, "something printed: <<%.200s>>", out); mc_outcome("refused"); }
    mc_section("line trace"); for (n = 0; n <= 300; n++) for (k = 0; k < 3; k++) for (a = 0; a < 5; a++) if (mc_case()) { uint8_t q[4] = { n, n >> 8, k, a }; mc_input(q, 4); for (i = 0; i < n; i++) s[i] = a == 0 ? 0 : a == 1 ? 0xFF : a == 2 ? i : a == 3 ? 0x7F + i : 0x20; trace(k, s, n); } for (a = 0; a < 65536; a++) if (mc_case()) { s[0] = a; s[1] = a >> 8; mc_input(s, 2); trace(a % 3, s, 2); }
    mc_section("record structures"); for (n = 0; n <= (mc_thorough ? 5 : 4); n++) { int ix[8] = {0}; for (;;) { if (mc_case()) { for (i = 0; i < n; i++) s[i] = ST[ix[i]]; var(s, n); } for (i = n - 1; i >= 0 && ++ix[i] == (int)sizeof ST; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("every DIF x VIF"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { k = 0; s[k++] = a; if (a != 15 && a != 31 && a != 47) { if (a & 0x80) { s[k++] = 0x95; s[k++] = 0x31; } s[k++] = b; if ((b & 127) == 0x7C) { s[k++] = 2; s[k++] = 'y'; s[k++] = 'z'; } if (b & 0x80) { s[k++] = 0xA2 + (a >> 5); s[k++] = 0x0C; } if ((a & 15) == 13) { s[k++] = 3; l = 3; } else l = len[a & 15]; for (i = 0; i < l; i++) s[k++] = 0x2F + i; } memcpy(s + k, "\x01\x13\x2A", 3); var(s, k + 3); }
    mc_section("every extension byte"); for (i = 0; i < 10; i++) for (a = 0; a < 256; a++) for (c = 0; c < 2; c++) if (mc_case()) { n = c ? (a & 0x80 ? i + 2 : i + 1) : 1; if (n > 10) continue; k = 0; s[k++] = c ? 0x01 : 0x81; if (!c) { for (l = 0; l < i; l++) s[k++] = 0x80 | l; s[k++] = a; if (a & 0x80) { if (i == 9) continue; s[k++] = 0x11; } s[k++] = 0x13; } else { s[k++] = 0x93; for (l = 0; l < i; l++) s[k++] = 0x80 | l; s[k++] = a; if (a & 0x80) s[k++] = 0x11; } s[k++] = 0x77; var(s, k); }
    mc_section("extension chains"); for (i = 0; i <= 10; i++) for (j = 0; j <= 10; j++) for (a = 0; a < 15; a++) if (mc_case()) { k = 0; s[k++] = a | (i ? 0x80 : 0); for (l = 0; l < i; l++) s[k++] = (l + 1 < i ? 0x80 : 0) | (0x2F + l); s[k++] = 0x13 | (j ? 0x80 : 0); for (l = 0; l < j; l++) s[k++] = (l + 1 < j ? 0x80 : 0) | (7 * a + l & 127); if (a == 13) s[k++] = 2; for (l = 0; l < (a == 13 ? 2 : len[a]); l++) s[k++] = 0x99 + l; var(s, k); }
    mc_section("manufacturer data"); for (a = 0; a < 2; a++) for (n = 0; n <= 239; n++) for (c = 0; c < 4; c++) if (mc_case()) { k = 0; if (c & 1) { memcpy(s, "\x01\x13\x2A", 3); k = 3; } s[k++] = a ? 0x1F : 0x0F; for (i = 0; i < n && k < 240; i++) s[k++] = c < 2 ? i : 0xFF - i; var(s, k); }
    mc_section("many records"); for (n = 1; n <= 80; n++) for (a = 0; a < 6; a++) if (mc_case()) { for (i = k = 0; i < n && k < 232; i++) { static const char *const q[] = { "\x01\x13\x2A", "\x00\x13", "\x82\x40\x6C\x95\x2A", "\x01\x93\x22\x05", "\x0D\x78\x02xy", "\x31\x7C\x02zz\x01" }; static const int ql[] = { 3, 2, 5, 4, 5, 6 }; int x = (i * (a + 1) + a) % 6; memcpy(s + k, q[x], ql[x]); k += ql[x]; } var(s, k); }
    mc_section("headers"); for (i = 0; i < 12; i++) for (j = i; j < 12; j++) for (a = 0; a < 256; a += i == j ? 1 : 15) for (b = 0; b < 256; b += i == j ? 256 : 5) if (mc_case()) { memcpy(s, HB, 12); s[i] = a; if (j > i) s[j] = b; memcpy(s + 12, "\x01\x13\x2A", 3); mc_input(s, 12); fill(&f[0], MBUS_FRAME_TYPE_LONG, 8, 1, 0x72, s, 15); data_dump(&f[0]); }
    mc_section("fixed telegrams"); for (i = 0; i < 16; i++) for (j = i; j < 16; j++) for (a = 0; a < 256; a += i == j ? 1 : 15) for (b = 0; b < 256; b += i == j ? 256 : 5) for (c = 0; c < 2; c++) if (mc_case()) { for (k = 0; k < 16; k++) s[k] = 0x32 + k; if (c) s[5] |= 0x80; s[i] = a; if (j > i) s[j] = b; mc_input(s, 16); fill(&f[0], MBUS_FRAME_TYPE_LONG, 8, 1, 0x73, s, 16); data_dump(&f[0]); }
    mc_section("application errors"); for (a = 0; a < 256; a++) for (n = 0; n < 3; n++) if (mc_case()) { mc_input(&a, 4); s[0] = a; s[1] = 7; fill(&f[0], MBUS_FRAME_TYPE_LONG, 8, 1, 0x70, s, n); data_dump(&f[0]); }
    mc_section("real telegrams"); for (i = 0; i < N_FRAMES; i++) if (mc_case()) { mc_input(FRAMES[i].b, FRAMES[i].n); memset(&f[0], 0, sizeof f[0]); if (mbus_parse(&f[0], (uint8_t *)FRAMES[i].b, FRAMES[i].n) == 0) { frame_dump(&f[0]); data_dump(&f[0]); } }
}
