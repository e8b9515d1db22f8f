/* P19: fixed-format telegrams. */
#include "util.h"
#include "xml.h"
#include <math.h>
#define DEG "\xC2\xB0"
static const char *MED[16] = { "Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved" };
typedef struct { char raw[32], q[24], u[24]; double f; int num; } unit;
static void ref_unit(int c, unit *o)
{
    static const struct { int first; const char *u[3]; int e; const char *q, *b; } s[] = { { 0x02, { "Wh", "kWh", "MWh" }, 0, "Energy", "Wh" }, { 0x0B, { "kJ", "MJ", "GJ" }, 3, "Energy", "J" }, { 0x14, { "W", "kW", "MW" }, 0, "Power", "W" }, { 0x1D, { "kJ/h", "MJ/h", "GJ/h" }, 3, "Power", "J/h" }, { 0x26, { "ml", "l", "m^3" }, -6, "Volume", "m^3" }, { 0x2F, { "ml/h", "l/h", "m^3/h" }, -6, "Volume flow", "m^3/h" } };
    static const char *p[] = { "", "10 ", "100 " }; int i; c &= 0x3F; memset(o, 0, sizeof *o); o->num = 1; o->f = 1;
    for (i = 0; i < 6; i++) if (c >= s[i].first && c < s[i].first + 9) { int k = c - s[i].first; sprintf(o->raw, "%s%s", p[k % 3], s[i].u[k / 3]); strcpy(o->q, s[i].q); strcpy(o->u, s[i].b); o->f = pow(10, s[i].e + k); return; }
    switch (c) { case 0: strcpy(o->raw, "h,m,s"); o->num = 0; break; case 1: strcpy(o->raw, "D,M,Y"); o->num = 0; break; case 0x38: strcpy(o->raw, "1e-3 " DEG "C"); strcpy(o->q, "Temperature"); strcpy(o->u, DEG "C"); o->f = 1e-3; break; case 0x39: strcpy(o->raw, "units for HCA"); strcpy(o->q, "H.C.A."); strcpy(o->u, "Units for H.C.A."); break;
    case 0x3E: strcpy(o->raw, "?historic"); strcpy(o->q, "historic"); break; case 0x3F: strcpy(o->raw, "without units"); strcpy(o->q, "No units"); break; default: strcpy(o->raw, "reserved"); strcpy(o->q, "Reserved"); o->num = -1; }
}
static int raw_ok(const char *g, const unit *u) { return u->raw[0] == '?' ? strstr(g, u->raw + 1) != NULL : !strcasecmp(g, u->raw); }
static int dec_ok(const uint8_t *b) { int i; for (i = 0; i < 4; i++) if ((b[i] & 15) > 9 || b[i] >> 4 > 9) return 0; return 1; }
static long ref_bin(const uint8_t *b) { return (int32_t)((uint32_t)b[0] | (uint32_t)b[1] << 8 | (uint32_t)b[2] << 16 | (uint32_t)b[3] << 24); }
static void shown(char *o, const uint8_t *b, int bin) { if (bin) sprintf(o, "%ld", ref_bin(b)); else sprintf(o, "%lX", (unsigned long)(uint32_t)ref_bin(b)); }
static void record(const uint8_t *b, int st, int un, const char *fn)
{
    mbus_record *r; unit u; double v; long d; int i, bin = st >> 7; ref_unit(un, &u);
    r = mbus_parse_fixed_record((char)st, (char)un, guard_copy(0, b, 4)); mc_trans(1);
    if (u.num == 0) { if (r) mbus_record_free(r); return; }
    if (u.num < 0) { if (r) { MC_CHECK(r->quantity && !strcasecmp(r->quantity, "Reserved"), "reserved unit %02X normalised as \"%s\"", un & 63, r->quantity); mbus_record_free(r); } return; }
    MC_CHECK(r && r->is_numeric && r->unit && r->quantity && r->function_medium, "unit %02X: no normalised value", un & 63);
    MC_CHECK(!strcmp(r->function_medium, fn), "function \"%s\", expected \"%s\"", r->function_medium, fn); MC_CHECK(!strcasecmp(r->quantity, u.q) && !strcasecmp(r->unit, u.u), "unit %02X: normalised \"%s\" in \"%s\", expected %s in %s", un & 63, r->quantity, r->unit, u.q, u.u);
    if (bin) d = ref_bin(b); else { for (d = 0, i = 3; i >= 0; i--) d = d * 100 + (b[i] >> 4) * 10 + (b[i] & 15); if (!dec_ok(b)) { mbus_record_free(r); return; } }
    v = d * u.f; MC_CHECK(r->value.real_val == v || fabs(r->value.real_val - v) <= 1e-11 * fabs(v), "unit %02X: normalised value %.15g, expected %.15g", un & 63, r->value.real_val, v); mbus_record_free(r);
}
static void one(const uint8_t *d)
{
    uint8_t t[32]; mbus_frame f; mbus_frame_data *fd; mbus_data_fixed *x; char *xml, id[16], ac[8], sts[8], v1[16], v2[16], u1[64], u2[64]; xdoc doc; const char *e, *fn = d[5] & 0x40 ? "Stored value" : "Actual value", *med = MED[d[6] >> 6 | d[7] >> 6 << 2]; unit un; int i, k, pass;
    mc_input(d, 16); k = mk_long(t, 0x08, 1, 0x73, d, 16); MC_CHECK(!parse_fresh(&f, t, k, d[0]), "telegram refused"); fd = mbus_frame_data_new(); MC_CHECK(mbus_frame_data_parse(&f, fd) == 0 && fd->type == MBUS_DATA_TYPE_FIXED, "fixed data refused"); x = &fd->data_fix; mc_trans(1);
    MC_CHECK(!memcmp(x->id_bcd, d, 4) && x->tx_cnt == d[4] && x->status == d[5] && x->cnt1_type == d[6] && x->cnt2_type == d[7] && !memcmp(x->cnt1_val, d + 8, 4) && !memcmp(x->cnt2_val, d + 12, 4), "fields differ");
    MC_CHECK(!strcmp(mbus_data_fixed_medium(x), med), "medium \"%s\", expected \"%s\"", mbus_data_fixed_medium(x), med); MC_CHECK(!strcmp(mbus_data_fixed_function(d[5]), fn), "function \"%s\"", mbus_data_fixed_function(d[5]));
    ref_unit(d[6], &un); snprintf(u1, sizeof u1, "%s", mbus_data_fixed_unit(d[6])); MC_CHECK(raw_ok(u1, &un), "unit %02X shown as \"%s\", expected \"%s\"", d[6] & 63, u1, un.raw);
    ref_unit(d[7], &un); snprintf(u2, sizeof u2, "%s", mbus_data_fixed_unit(d[7])); MC_CHECK(raw_ok(u2, &un), "unit %02X shown as \"%s\", expected \"%s\"", d[7] & 63, u2, un.raw);
    sprintf(id, "%X", d[0] | d[1] << 8 | d[2] << 16 | (unsigned)d[3] << 24); sprintf(ac, "%d", d[4]); sprintf(sts, "%02X", d[5]); shown(v1, d + 8, d[5] >> 7); shown(v2, d + 12, d[5] >> 7);
    for (pass = 0; pass < 3; pass++) {
        xml = pass == 0 ? mbus_frame_data_xml(fd) : pass == 1 ? mbus_frame_data_xml_normalized(fd) : mbus_frame_xml(&f); mc_trans(1); MC_CHECK(xml != NULL, "no document"); e = xml_parse(&doc, xml); MC_CHECK(!e, "document not well formed: %s at %zu", e, doc.errpos);
        { const char *const si[][2] = { { "Id", id }, { "Medium", med }, { "AccessNumber", ac }, { "Status", sts }, { 0 } }, *const r1[][2] = { { "Function", fn }, { "Unit", u1 }, { "Value", v1 }, { 0 } }, *const r2[][2] = { { "Function", fn }, { "Unit", u2 }, { "Value", v2 }, { 0 } };
          MC_CHECK(!strcmp(doc.n[0].name, "MBusData"), "root element <%s>", doc.n[0].name); i = xml_next(&doc, 0, -1); MC_CHECK(i > 0 && !strcmp(doc.n[i].name, "SlaveInformation"), "no slave information"); e = xml_kids(&doc, i, si); MC_CHECK(!e, "%s", e);
          i = xml_next(&doc, 0, i); MC_CHECK(i > 0 && !strcmp(doc.n[i].name, "DataRecord") && xml_attr(&doc, i, "id") && !strcmp(xml_attr(&doc, i, "id"), "0"), "first record missing"); e = xml_kids(&doc, i, r1); MC_CHECK(!e, "counter 1: %s", e);
          i = xml_next(&doc, 0, i); MC_CHECK(i > 0 && !strcmp(doc.n[i].name, "DataRecord") && xml_attr(&doc, i, "id") && !strcmp(xml_attr(&doc, i, "id"), "1"), "second record missing"); e = xml_kids(&doc, i, r2); MC_CHECK(!e, "counter 2: %s", e); MC_CHECK(xml_next(&doc, 0, i) < 0, "more than two records"); }
        xml_free(&doc); free(xml);
    }
    record(d + 8, d[5], d[6], fn); record(d + 12, d[5], d[7], fn);
    { int s[4] = { d[6] & 63, d[7] & 63, d[5] >> 6, dec_ok(d + 8) }; mc_state(s, sizeof s); } mc_outcome("%s%s", d[5] & 0x80 ? "binary" : dec_ok(d + 8) && dec_ok(d + 12) ? "BCD" : "BCD with undefined digits", d[5] & 0x40 ? " stored" : " actual");
    mbus_frame_data_free(fd);
}
void mc_main(void)
{
    static const uint8_t B[16] = { 0x78, 0x56, 0x34, 0x12, 0x0A, 0x00, 0xE9, 0x7E, 0x01, 0, 0, 0, 0x35, 0x01, 0, 0 }; uint8_t d[256]; int a, b, c, i, j;
    mc_section("every pair of units, coding and function"); for (a = 0; a < 64; a++) for (b = 0; b < 64; b++) for (c = 0; c < 4; c++) for (i = 0; i < (mc_thorough ? 3 : 1); i++) if (mc_case()) { memcpy(d, B, 16); d[5] = c << 6; d[6] = a | (a & 3) << 6; d[7] = b | (b & 12) << 4; if (i) memset(d + 8, i == 1 ? 0x97 : 0x42, 8); one(d); }
    mc_section("every value of every pair of bytes"); for (i = 0; i < 16; i++) for (j = i + 1; j < 16; j++) for (a = 0; a < 256; a += (mc_thorough ? 1 : 5)) for (b = 0; b < 256; b += (mc_thorough ? 3 : 17)) if (mc_case()) { memcpy(d, B, 16); d[i] = a; d[j] = b; one(d); }
    mc_section("every value of every byte, both codings"); for (i = 0; i < 16; i++) for (a = 0; a < 256; a++) for (c = 0; c < 2; c++) if (mc_case()) { memcpy(d, B, 16); d[5] = c << 7; d[i] = a; one(d); }
    mc_section("media"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { memcpy(d, B, 16); d[6] = a; d[7] = b; one(d); }
    mc_section("counters: every pair of bytes, both codings, decimal and binary"); for (c = 0; c < 2; c++) for (i = 0; i < 4; i++) for (j = i + 1; j < 4; j++) for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_thorough || ((a * 7 + b) & 3) == 0) if (mc_case()) { uint8_t v[4] = { 0x12, 0x34, 0x56, 0x78 }; static const char *fn[] = { "Actual value", "Stored value" }; v[i] = a; v[j] = b; memcpy(d, v, 4); d[4] = c; mc_input(d, 5); record(v, c << 7 | (a & 1) << 6, 0x05 + (b % 0x35), fn[a & 1]); }
    mc_section("every size of the data"); for (a = 0; a <= 249; a++) for (b = 0; b < 2; b++) if (mc_case()) { uint8_t t[300]; mbus_frame f; mbus_frame_data *fd; mc_input(&a, 4); for (i = 0; i < 252; i++) d[i] = B[i % 16]; i = mk_long(t, 0x08, 1, b ? 0x77 : 0x73, d, a); MC_CHECK(!parse_fresh(&f, t, i, 0x5A), "telegram refused"); fd = mbus_frame_data_new(); i = mbus_frame_data_parse(&f, fd); mc_trans(1); if (b) { if (i == 0 && fd->type == MBUS_DATA_TYPE_FIXED) MC_CHECK(a == 16, "fixed data of %d bytes accepted", a); } else MC_CHECK((i == 0) == (a == 16), "fixed data of %d bytes %s", a, i ? "refused" : "accepted"); { char *x = mbus_frame_xml(&f); if (!b) MC_CHECK((x != NULL) == (a == 16), "document for fixed data of %d bytes", a); free(x); } mbus_frame_data_free(fd); }
    mc_section("absent arguments"); if (mc_case()) { mbus_frame f; mbus_data_fixed x; double v; char *u; mc_input("n", 1); memset(&f, 0, sizeof f); MC_CHECK(mbus_data_fixed_parse(NULL, &x) != 0 && mbus_data_fixed_parse(&f, NULL) != 0 && mbus_fixed_normalize(5, 1, NULL, &v, &u) != 0 && mbus_fixed_normalize(5, 1, &u, NULL, &u) != 0 && mbus_data_fixed_xml(NULL) == NULL && mbus_data_fixed_medium(NULL) == NULL, "absent argument accepted"); }
}
