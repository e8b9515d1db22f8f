/* what a document for variable-format telegrams must say */
#ifndef DOCS_H
#define DOCS_H
#include "util.h"
#include "xml.h"
#include <time.h>
static void doc_ctl(char *o, const char *s, size_t max) { size_t i; for (i = 0; s[i] && i + 1 < max; i++) o[i] = (unsigned char)s[i] < 32 || s[i] == 127 ? ' ' : s[i]; o[i] = 0; }
/* header element i against the 12 header bytes */
static void doc_header(xdoc *d, int i, const uint8_t *h, const char *product, const char *medium)
{
    char id[16], man[8], ver[8], acc[8], st[8], sig[8], pr[200], me[300]; int m = h[4] | h[5] << 8; const char *e;
    sprintf(id, "%X", h[0] | h[1] << 8 | h[2] << 16 | (unsigned)h[3] << 24); man[0] = 64 + (m >> 10 & 31); man[1] = 64 + (m >> 5 & 31); man[2] = 64 + (m & 31); man[3] = 0; sprintf(ver, "%d", h[6]); sprintf(acc, "%d", h[8]); sprintf(st, "%02X", h[9]); sprintf(sig, "%02X%02X", h[11], h[10]); doc_ctl(pr, product, sizeof pr); doc_ctl(me, medium, sizeof me);
    { const char *const k[][2] = { { "Id", id }, { "Manufacturer", man }, { "Version", ver }, { "ProductName", pr }, { "Medium", me }, { "AccessNumber", acc }, { "Status", st }, { "Signature", sig }, { 0 } };
      MC_CHECK(i >= 0 && !strcmp(d->n[i].name, "SlaveInformation") && !d->n[i].nattr, "no slave information"); e = xml_kids(d, i, k); MC_CHECK(!e, "slave information: %s", e); }
}
/* record element i; frame < 0: no frame attribute */
static void doc_record(xdoc *d, int i, mbus_data_record *r, int id, int frame, int norm)
{
    const char *w[12][2]; int n = 0; const char *e, *a; char sto[32], tar[32], dev[32], unit[600], val[1200], ts[40], q[600], num[400]; char want[16]; mbus_record *nr = NULL; int special = r->drh.dib.dif == 0x0F || r->drh.dib.dif == 0x1F;
    MC_CHECK(i >= 0, "record %d has no element", id); MC_CHECK(!strcmp(d->n[i].name, "DataRecord"), "<%s> where record %d is expected", d->n[i].name, id);
    a = xml_attr(d, i, "id"); sprintf(want, "%d", id); MC_CHECK(a && !strcmp(a, want), "record number %s, expected %d", a ? a : "missing", id);
    a = xml_attr(d, i, "frame"); sprintf(want, "%d", frame); MC_CHECK(frame < 0 ? !a : a && !strcmp(a, want), "record %d: telegram number %s, expected %d", id, a ? a : "missing", frame); MC_CHECK(d->n[i].nattr == 1 + (frame >= 0), "record %d has further attributes", id);
    if (norm) { nr = mbus_parse_variable_record(r); if (!nr) { MC_CHECK(d->n[i].nkids == 0, "record %d has content although it cannot be normalised", id); return; } }
    w[n][0] = "Function"; w[n++][1] = norm ? nr->function_medium : r->drh.dib.dif == 0x0F ? "Manufacturer specific" : r->drh.dib.dif == 0x1F ? "More records follow" : mbus_data_record_function(r);
    if (norm || !special) {
        sprintf(sto, "%ld", norm ? nr->storage_number : mbus_data_record_storage_number(r)); w[n][0] = "StorageNumber"; w[n++][1] = sto;
        if (mbus_data_record_tariff(r) >= 0) { sprintf(tar, "%ld", mbus_data_record_tariff(r)); sprintf(dev, "%d", mbus_data_record_device(r)); w[n][0] = "Tariff"; w[n++][1] = tar; w[n][0] = "Device"; w[n++][1] = dev; }
        doc_ctl(unit, norm ? nr->unit ? nr->unit : "" : mbus_vib_unit_lookup(&r->drh.vib), sizeof unit); w[n][0] = "Unit"; w[n++][1] = unit;
        if (norm) { doc_ctl(q, nr->quantity ? nr->quantity : "", sizeof q); w[n][0] = "Quantity"; w[n++][1] = q; }
    }
    if (norm && nr->is_numeric) { snprintf(num, sizeof num, "%f", nr->value.real_val); w[n][0] = "Value"; w[n++][1] = num; }
    else { doc_ctl(val, norm ? nr->value.str_val.value : mbus_data_record_value(r), sizeof val); w[n][0] = "Value"; w[n++][1] = val; }
    if (!norm && r->timestamp > 0) { struct tm t; gmtime_r(&r->timestamp, &t); strftime(ts, sizeof ts, "%Y-%m-%dT%H:%M:%SZ", &t); w[n][0] = "Timestamp"; w[n++][1] = ts; }
    w[n][0] = NULL; e = xml_kids(d, i, w); MC_CHECK(!e, "record %d: %s", id, e);
    if (nr) mbus_record_free(nr);
}
/* parse a document and check root and header; returns index of the header element */
static int doc_open(xdoc *d, const char *xml, mbus_data_variable_header *h, const uint8_t *hb)
{
    const char *e; int i; char pr[200], me[300]; MC_CHECK(xml != NULL, "no document"); e = xml_parse(d, xml); MC_CHECK(!e, "document not well formed: %s at %zu", e, d->errpos);
    MC_CHECK(!strcmp(d->n[0].name, "MBusData") && !d->n[0].nattr, "root element <%s>", d->n[0].name); i = xml_next(d, 0, -1);
    snprintf(pr, sizeof pr, "%s", mbus_data_product_name(h)); snprintf(me, sizeof me, "%s", mbus_data_variable_medium_lookup(h->medium)); doc_header(d, i, hb, pr, me); return i;
}
/* text of a value computed from the telegram itself, for texts and binary data; 0 = other kind */
static int ref_text(mbus_data_record *r, char *o)
{
    int i, k = 0, n = r->data_len; const uint8_t *b = r->data;
    if ((r->drh.dib.dif & 15) == 13) { b++; n--; if (r->data[0] <= 0xBF) { for (i = n - 1; i >= 0; i--) o[k++] = b[i]; o[k] = 0; return 1; } }
    else if ((r->drh.dib.dif & 15) != 15) return 0;
    for (i = n - 1; i >= 0; i--) k += sprintf(o + k, i ? "%02X " : "%02X", b[i]); o[k] = 0; return 1;
}
static int doc_all(xdoc *d, int i, mbus_data_variable *v, int id, int frame, int norm)
{
    mbus_data_record *r; char t[1200], u[1200]; for (r = v->record; r; r = r->next) { i = xml_next(d, 0, i); doc_record(d, i, r, id, frame, norm); if (ref_text(r, t) && d->n[i].nkids) { int k; const char *g = NULL; for (k = xml_next(d, i, -1); k >= 0; k = xml_next(d, i, k)) if (!strcmp(d->n[k].name, "Value")) g = xml_txt(d, k); doc_ctl(u, t, sizeof u); MC_CHECK(g && !strcmp(g, u), "record %d: value \"%.200s\", the telegram carries \"%.200s\"", id, g ? g : "", u); } id++; }
    return i;
}
#endif
