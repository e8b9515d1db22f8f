/* everything a user can do with a telegram or its decoded form */
#ifndef SINKS_H
#define SINKS_H
#include "util.h"
void env_free(void *p);
/* results are appended to a text when sk_out is set, so that two runs can be compared */
static FILE *sk_out;
static void sk(const char *what, const char *s) { if (sk_out) fprintf(sk_out, "%s=%s\n", what, s ? s : "(none)"); else if (s) { volatile size_t n = strlen(s); (void)n; } }
static void ski(const char *what, long long v) { if (sk_out) fprintf(sk_out, "%s=%lld\n", what, v); }
static void skd(const char *what, double v) { if (sk_out) fprintf(sk_out, "%s=%a\n", what, v); }
static void sk_record(mbus_data_record *r)
{
    mbus_record *n; double d = 0; char *s = NULL; int z = 0; char *u = NULL, *q = NULL; double v = 0;
    sk("function", mbus_data_record_function(r)); sk("unit", mbus_data_record_unit(r)); sk("value", mbus_data_record_value(r)); ski("storage", mbus_data_record_storage_number(r)); ski("tariff", mbus_data_record_tariff(r)); ski("device", mbus_data_record_device(r));
    if ((n = mbus_parse_variable_record(r))) { sk("function", n->function_medium); sk("unit", n->unit); sk("quantity", n->quantity); ski("storage", n->storage_number); ski("tariff", n->tariff); ski("device", n->device); ski("numeric", n->is_numeric); if (n->is_numeric) skd("value", n->value.real_val); else { sk("value", n->value.str_val.value); ski("size", n->value.str_val.size); } mbus_record_free(n); } else ski("norm", 0);
    if (mbus_variable_value_decode(r, &d, &s, &z) == 0) { skd("real", d); if (s) { sk("str", s); ski("len", z); } } else ski("decode", -1); env_free(s);
    if (r->drh.dib.dif != 0x0F && r->drh.dib.dif != 0x1F) { if (mbus_vib_unit_normalize(&r->drh.vib, 123.25, &u, &v, &q) == 0) { sk("u", u); sk("q", q); skd("v", v); } else ski("normalize", -1); env_free(u); env_free(q); sk("lookup", mbus_vib_unit_lookup(&r->drh.vib)); }
}
static void sk_data(mbus_frame *f, mbus_frame_data *fd)
{
    char *x; mbus_data_record *r; mbus_frame g; mbus_record *n;
    ski("type", fd->type); x = mbus_frame_data_xml(fd); sk("xml", x); env_free(x); x = mbus_frame_data_xml_normalized(fd); sk("normalised", x); env_free(x); mbus_frame_data_print(fd);
    if (fd->type == MBUS_DATA_TYPE_VARIABLE) {
        mbus_data_variable_header *h = &fd->data_var.header; ski("records", fd->data_var.nrecords); ski("more", fd->data_var.more_records_follow); sk("product", mbus_data_product_name(h)); sk("medium", mbus_data_variable_medium_lookup(h->medium)); sk("header", mbus_data_variable_header_xml(h)); sk("manufacturer", mbus_decode_manufacturer(h->manufacturer[0], h->manufacturer[1])); for (r = fd->data_var.record; r; r = r->next) sk_record(r);
    } else if (fd->type == MBUS_DATA_TYPE_FIXED) {
        mbus_data_fixed *x1 = &fd->data_fix; sk("medium", mbus_data_fixed_medium(x1)); sk("function", mbus_data_fixed_function(x1->status)); sk("unit1", mbus_data_fixed_unit(x1->cnt1_type)); sk("unit2", mbus_data_fixed_unit(x1->cnt2_type));
        { int i; for (i = 0; i < 2; i++) if ((n = mbus_parse_fixed_record(x1->status, i ? x1->cnt2_type : x1->cnt1_type, i ? x1->cnt2_val : x1->cnt1_val))) { sk("function", n->function_medium); sk("unit", n->unit); sk("quantity", n->quantity); ski("numeric", n->is_numeric); if (n->is_numeric) skd("value", n->value.real_val); else sk("value", n->value.str_val.value); mbus_record_free(n); } }
    } else if (fd->type == MBUS_DATA_TYPE_ERROR) { ski("error", fd->error); sk("error", mbus_data_error_lookup(fd->error)); }
    g = *f; g.next = NULL; if (mbus_frame_internal_pack(&g, fd) == 0) { ski("packed", g.data_size); sk("packed", mc_hex(g.data, g.data_size > 252 ? 252 : g.data_size)); }
}
static void sk_frame(mbus_frame *f, int deep)
{
    mbus_frame_data *fd; char *x; uint8_t b[300]; int n; char *a;
    ski("direction", mbus_frame_direction(f)); ski("type", mbus_frame_type(f)); a = mbus_frame_get_secondary_address(f); sk("secondary", a ? a : mbus_error_str()); x = mbus_frame_xml(f); sk("frame xml", x); env_free(x); if (deep) mbus_frame_print(f);
    fd = mbus_frame_data_new(); if (!fd) { ski("new", -1); return; } if (mbus_frame_data_parse(f, fd) == 0) sk_data(f, fd); else sk("error", mbus_error_str()); mbus_frame_data_free(fd);
    n = mbus_frame_pack(f, b, sizeof b); ski("pack", n); if (n > 0) sk("pack", mc_hex(b, n));
}
#endif
