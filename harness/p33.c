/* P33: meter header and application errors are reported as received. */
#include "docs.h"
#include "products.h"
#define DEG "\xC2\xB0"
static const char *const MED[256] = { [0x00] = "Other", [0x01] = "Oil", [0x02] = "Electricity", [0x03] = "Gas", [0x04] = "Heat: Outlet", [0x05] = "Steam", [0x06] = "Warm water (30-90" DEG "C)", [0x07] = "Water", [0x08] = "Heat Cost Allocator", [0x09] = "Compressed Air", [0x0A] = "Cooling load meter: Outlet", [0x0B] = "Cooling load meter: Inlet", [0x0C] = "Heat: Inlet", [0x0D] = "Heat / Cooling load meter", [0x0E] = "Bus/System", [0x0F] = "Unknown Medium", [0x10] = "Irrigation Water", [0x11] = "Water Logger", [0x12] = "Gas Logger", [0x13] = "Gas Converter", [0x14] = "Calorific value", [0x15] = "Hot water (>90" DEG "C)", [0x16] = "Cold water", [0x17] = "Dual water", [0x18] = "Pressure", [0x19] = "A/D Converter", [0x1A] = "Smoke Detector", [0x1B] = "Ambient Sensor", [0x1C] = "Gas Detector", [0x20] = "Breaker: Electricity", [0x21] = "Valve: Gas or Water", [0x25] = "Customer Unit: Display Device", [0x28] = "Waste Water", [0x29] = "Garbage", [0x30] = "Service Unit", [0x36] = "Radio Converter: System", [0x37] = "Radio Converter: Meter" };
static const char *const ERR[] = { "Unspecified error", "Unimplemented CI-Field", "Buffer too long, truncated", "Too many records", "Premature end of record", "More than 10 DIFE", "More than 10 VIFE", "Reserved", "Application busy", "Too many readouts" };
static int has_hex(const char *s, int v) { char a[8], b[8]; sprintf(a, "%02x)", v); sprintf(b, "%02X)", v); return strstr(s, a) || strstr(s, b); }
static int med_ok(const char *g, int m) { if (MED[m]) return !strcmp(g, MED[m]); return !strcmp(g, "Reserved") || (has_hex(g, m) && strstr(g, "nknown")); }
static int err_ok(const char *g, int e) { if (e < 10) return e == 5 || e == 6 ? !strncmp(g, ERR[e], strlen(ERR[e])) && strlen(g) < 22 : !strcmp(g, ERR[e]); return has_hex(g, e) && strstr(g, "nknown"); }
static mbus_frame F; static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
static void set(int ci, const uint8_t *b, int n) { F.start1 = F.start2 = 0x68; F.stop = 0x16; F.type = MBUS_FRAME_TYPE_LONG; F.control = 8; F.address = 3; F.control_information = ci; memcpy(F.data, b, n); memset(F.data + n, 0xD7, 8); F.data_size = n; F.length1 = F.length2 = n + 3; F.next = NULL; }
#define NP (sizeof PRODUCTS / sizeof *PRODUCTS)
static int pman(int i) { const char *m = PRODUCTS[i].man; return (m[0] - 64) << 10 | (m[1] - 64) << 5 | (m[2] - 64); }
static const char *product(const uint8_t *h) { unsigned i; for (i = 0; i < NP; i++) if ((h[4] | h[5] << 8) == pman(i) && (PRODUCTS[i].med < 0 || PRODUCTS[i].med == h[7])) { int v = PRODUCTS[i].id ? h[3] : h[6]; if (v >= PRODUCTS[i].lo && v <= PRODUCTS[i].hi) return PRODUCTS[i].name; } return NULL; }
/* a listed product has its name, and nothing else gets the name of a listed product */
static void prod(const char *g, const uint8_t *h) { const char *w = product(h); unsigned i; MC_CHECK(g != NULL, "no product name"); if (w) { MC_CHECK(!strcmp(g, w), "the meter is a \"%s\", named \"%s\"", w, g); return; } if (*g) for (i = 0; i < NP; i++) MC_CHECK(strcmp(g, PRODUCTS[i].name), "a meter that is none is named \"%s\"", g); }
static void names(mbus_data_variable_header *h, const uint8_t *b)
{
    char want[8]; int m = b[4] | b[5] << 8; const char *g = mbus_decode_manufacturer(b[4], b[5]); want[0] = 64 + (m >> 10 & 31); want[1] = 64 + (m >> 5 & 31); want[2] = 64 + (m & 31); want[3] = 0; MC_CHECK(!strcmp(g, want), "manufacturer %s, expected %s", g, want);
    MC_CHECK(!memcmp(h->id_bcd, b, 4) && !memcmp(h->manufacturer, b + 4, 2) && h->version == b[6] && h->medium == b[7] && h->access_no == b[8] && h->status == b[9] && !memcmp(h->signature, b + 10, 2), "header fields differ from the telegram");
    prod(mbus_data_product_name(h), b); g = mbus_data_variable_medium_lookup(h->medium); MC_CHECK(med_ok(g, b[7]), "medium %02X is named \"%s\"", b[7], g);
}
static void prod_h(const uint8_t *h) { mbus_data_variable_header v; memset(&v, 0, sizeof v); memcpy(v.id_bcd, h, 4); memcpy(v.manufacturer, h + 4, 2); v.version = h[6]; v.medium = h[7]; v.access_no = h[8]; v.status = h[9]; memcpy(v.signature, h + 10, 2); prod(mbus_data_product_name(&v), h); mc_trans(1); }
static void one(const uint8_t *h, int xml)
{
    char want[32], *g; mbus_frame_data *fd = mbus_frame_data_new(); uint8_t s[20]; int i; memcpy(s, h, 12); s[12] = 1; s[13] = 0x13; s[14] = 9; mc_input(h, 12); set(0x72, s, xml & 1 ? 15 : 12);
    MC_CHECK(!mbus_frame_data_parse(&F, fd) && fd->type == MBUS_DATA_TYPE_VARIABLE, "refused"); names(&fd->data_var.header, h); mc_trans(1);
    sprintf(want, "%02X%02X%02X%02X%02X%02X%02X%02X", h[3], h[2], h[1], h[0], h[4], h[5], h[6], h[7]); g = mbus_frame_get_secondary_address(&F); MC_CHECK(g && !strcmp(g, want), "secondary address %s, expected %s", g ? g : "(none)", want);
    if (xml) for (i = 0; i < 3; i++) { char *x = i == 0 ? mbus_frame_data_xml(fd) : i == 1 ? mbus_frame_xml(&F) : mbus_frame_data_xml_normalized(fd); xdoc d; const char *e, *md; int k, q, c; MC_CHECK(x != NULL, "no document"); e = xml_parse(&d, x); MC_CHECK(!e, "document not well formed: %s", e); k = xml_next(&d, 0, -1); md = ""; for (q = xml_next(&d, k, -1); q >= 0; q = xml_next(&d, k, q)) if (!strcmp(d.n[q].name, "Medium")) md = xml_txt(&d, q);
        { char m2[300]; doc_ctl(m2, md, sizeof m2); MC_CHECK(med_ok(m2, h[7]), "document %d: medium %02X is named \"%s\"", i, h[7], m2); c = 0; doc_header(&d, k, h, product(h) ? product(h) : mbus_data_product_name(&fd->data_var.header), m2); (void)c; } xml_free(&d); free(x); mc_trans(1); }
    { int st[2] = { h[7], h[6] }; mc_state(st, sizeof st); } mc_outcome(MED[h[7]] ? "medium known" : "medium reserved"); mbus_frame_data_free(fd);
}
void mc_main(void)
{
    int i, j, a, b, k, n; uint8_t h[16]; memset(&F, 0, sizeof F);
    mc_section("every byte of the header, documents"); for (i = 0; i < 12; i++) for (a = 0; a < 256; a++) for (b = 0; b < 3; b++) if (mc_case()) { memcpy(h, HB, 12); if (b == 1) memset(h, 0, 12); if (b == 2) memset(h, 0xFF, 12); h[i] = a; one(h, 2 - (a & 1)); }
    mc_section("every manufacturer, documents"); for (a = 0; a < 65536; a++) if (mc_case()) { memcpy(h, HB, 12); h[4] = a; h[5] = a >> 8; one(h, 2); }
    mc_section("every medium x version, documents"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { memcpy(h, HB, 12); h[6] = b; h[7] = a; one(h, 1); }
    mc_section("every pair of header bytes"); for (i = 0; i < 12; i++) for (j = i + 1; j < 12; j++) for (a = 0; a < 256; a++) for (b = 0; b < 256; b += mc_thorough ? 1 : 5) if (mc_case()) { memcpy(h, HB, 12); h[i] = a; h[j] = b; one(h, mc_thorough && (a + b) % 16 == 0); }
    mc_section("every listed product x version x medium x identification"); for (i = 0; i < (int)NP; i++) if (!i || strcmp(PRODUCTS[i].man, PRODUCTS[i - 1].man)) for (a = 0; a < 256; a++) if (mc_case()) { memcpy(h, HB, 12); h[4] = pman(i); h[5] = pman(i) >> 8; h[6] = a; mc_input(h, 12); for (b = 0; b < 256; b++) { h[7] = b; for (k = 0; k < 256; k += mc_thorough || b < 16 ? 1 : 51) { h[3] = k; prod_h(h); } } mc_outcome("products"); }
    mc_section("listed products with every other header byte"); for (i = 0; i < (int)NP; i++) for (a = PRODUCTS[i].lo; a <= PRODUCTS[i].hi; a++) for (b = 0; b < 12; b++) if (b != 4 && b != 5 && b != 6 && b != 7 && b != 3 && mc_case()) { int m; memcpy(h, HB, 12); h[4] = pman(i); h[5] = pman(i) >> 8; h[PRODUCTS[i].id ? 3 : 6] = a; for (m = PRODUCTS[i].med < 0 ? 0 : PRODUCTS[i].med; m <= (PRODUCTS[i].med < 0 ? 255 : PRODUCTS[i].med); m += 17) { h[7] = m; for (k = 0; k < 256; k++) { h[b] = k; prod_h(h); } } mc_input(h, 12); mc_outcome("product, other bytes"); }
    mc_section("listed products, documents"); for (i = 0; i < (int)NP; i++) for (a = PRODUCTS[i].lo; a <= PRODUCTS[i].hi; a++) if (mc_case()) { memcpy(h, HB, 12); h[4] = pman(i); h[5] = pman(i) >> 8; h[PRODUCTS[i].id ? 3 : 6] = a; if (PRODUCTS[i].med >= 0) h[7] = PRODUCTS[i].med; MC_CHECK(product(h) != NULL, "reference"); one(h, 1); }
    mc_section("every manufacturer x version of listed products"); for (a = 0; a < 65536; a++) if (mc_case()) { memcpy(h, HB, 12); h[4] = a; h[5] = a >> 8; mc_input(h, 12); for (i = 0; i < (int)NP; i++) { h[PRODUCTS[i].id ? 3 : 6] = PRODUCTS[i].lo; h[7] = PRODUCTS[i].med < 0 ? 7 : PRODUCTS[i].med; prod_h(h); } mc_outcome("manufacturer"); }
    mc_section("identification, all pairs of digits"); for (i = 0; i < 8; i++) for (j = i + 1; j < 8; j++) for (a = 0; a < 16; a++) for (b = 0; b < 16; b++) for (k = 0; k < 2; k++) if (mc_case()) { memcpy(h, HB, 12); memset(h, k ? 0x99 : 0, 4); h[i / 2] = (h[i / 2] & ~(15 << 4 * (i & 1))) | a << 4 * (i & 1); h[j / 2] = (h[j / 2] & ~(15 << 4 * (j & 1))) | b << 4 * (j & 1); one(h, 2); }
    mc_section("application errors"); for (a = -1; a < 256; a++) for (n = 1; n < 4; n++) for (b = 0; b < 2; b++) if (mc_case()) {
        mbus_frame_data *fd = mbus_frame_data_new(); char *x, t[300]; xdoc d; const char *e; int q; mc_input(&a, 4); h[0] = a; h[1] = h[2] = 0x33; set(0x70, h, a < 0 ? 0 : n); if (b) F.control = 0x28; fd->error = 99; MC_CHECK(!mbus_frame_data_parse(&F, fd) && fd->type == MBUS_DATA_TYPE_ERROR, "refused"); MC_CHECK(fd->error == (a < 0 ? 0 : a), "error %d reported as %d", a, fd->error); MC_CHECK(err_ok(mbus_data_error_lookup(fd->error), a < 0 ? 0 : a), "error %d is named \"%s\"", a, mbus_data_error_lookup(fd->error));
        for (k = 0; k < 3; k++) { x = k == 0 ? mbus_frame_data_xml(fd) : k == 1 ? mbus_frame_xml(&F) : mbus_data_error_xml(fd->error); MC_CHECK(x != NULL, "no document"); e = xml_parse(&d, x); MC_CHECK(!e, "document not well formed: %s", e); q = xml_next(&d, 0, -1); q = q < 0 ? q : xml_next(&d, q, -1); MC_CHECK(q >= 0 && !strcmp(d.n[q].name, "Error"), "no error element"); doc_ctl(t, xml_txt(&d, q), sizeof t); MC_CHECK(err_ok(t, a < 0 ? 0 : a), "document: error %d is named \"%s\"", a, t); xml_free(&d); free(x); mc_trans(1); }
        MC_CHECK(!mbus_frame_get_secondary_address(&F), "secondary address of an error telegram"); mbus_frame_data_free(fd); mc_outcome(a >= 0 && a < 10 ? "named error" : "other error"); }
    mc_section("no header"); for (n = 0; n < 12; n++) for (a = 0; a < 2; a++) if (mc_case()) { mbus_frame_data *fd = mbus_frame_data_new(); mc_input(&n, 4); set(0x72, HB, n); F.data_size = n; MC_CHECK(mbus_frame_data_parse(&F, fd) < 0, "header of %d bytes accepted", n); MC_CHECK(!mbus_frame_get_secondary_address(&F) && !mbus_frame_xml(&F), "header of %d bytes reported", n); mbus_frame_data_free(fd); mc_outcome("refused"); }
    for (a = 0; a < 256; a++) if (a != 0x72) if (mc_case()) { mc_input(&a, 4); set(a, HB, 12); MC_CHECK(!mbus_frame_get_secondary_address(&F), "secondary address of a telegram with control information %02X", a); mc_outcome("refused"); }
}
