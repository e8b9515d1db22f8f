/* P17: storage number, tariff, device and function from the DIF/DIFE chain. */
#include "util.h"
static mbus_frame F; static int n_old;
static const int LEN[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
static void one(int dif, const uint8_t *e, int ne, int vif)
{
    static const char *fn[] = { "Instantaneous value", "Maximum value", "Minimum value", "Value during error state" };
    int k = 12, i, r; int64_t sto = dif >> 6 & 1, tar = ne ? 0 : -1, dev = ne ? 0 : -1, gs, gt; int gd; const char *f; mbus_frame_data *fd; mbus_data_record *rec; mbus_record *nr; uint8_t in[16];
    for (i = 0; i < ne; i++) { sto |= (int64_t)(e[i] & 15) << (1 + 4 * i); tar |= (int64_t)(e[i] >> 4 & 3) << (2 * i); dev |= (int64_t)(e[i] >> 6 & 1) << i; }
    in[0] = dif; memcpy(in + 1, e, ne); in[ne + 1] = vif; mc_input(in, ne + 2);
    F.data[k++] = (dif & 0x7F) | (ne ? 0x80 : 0); for (i = 0; i < ne; i++) F.data[k++] = (e[i] & 0x7F) | (i + 1 < ne ? 0x80 : 0); F.data[k++] = vif; if (vif & 0x80) F.data[k++] = 0x7F; if ((dif & 15) == 13) { F.data[k++] = 1; F.data[k++] = 'x'; } else { memset(F.data + k, 0x11, LEN[dif & 15]); k += LEN[dif & 15]; }
    memset(F.data + k, 0xFF, n_old > k ? n_old - k : 12); n_old = k; F.data_size = k; F.length1 = F.length2 = k + 3;
    fd = mbus_frame_data_new(); r = mbus_frame_data_parse(&F, fd); MC_CHECK(r == 0, "refused"); rec = fd->data_var.record; mc_trans(1);
    gs = mbus_data_record_storage_number(rec); gt = mbus_data_record_tariff(rec); gd = mbus_data_record_device(rec); f = mbus_data_record_function(rec);
    MC_CHECK(gs == sto, "%d extensions: storage number %lld, expected %lld", ne, (long long)gs, (long long)sto);
    MC_CHECK(gt == tar, "%d extensions: tariff %lld, expected %lld", ne, (long long)gt, (long long)tar);
    MC_CHECK(gd == dev, "%d extensions: device %d, expected %lld", ne, gd, (long long)dev);
    MC_CHECK(f && !strcmp(f, fn[dif >> 4 & 3]), "function \"%s\", expected \"%s\"", f, fn[dif >> 4 & 3]);
    nr = mbus_parse_variable_record(rec);
    if ((dif & 15) != 8) { MC_CHECK(nr != NULL, "no normalised record"); }
    if (nr) {
        MC_CHECK(nr->storage_number == sto, "%d extensions: normalised storage number %ld, expected %lld", ne, nr->storage_number, (long long)sto);
        MC_CHECK(nr->tariff == tar, "%d extensions: normalised tariff %ld, expected %lld", ne, nr->tariff, (long long)tar);
        MC_CHECK(nr->device == dev, "%d extensions: normalised device %d, expected %lld", ne, nr->device, (long long)dev);
        MC_CHECK(nr->function_medium && !strcmp(nr->function_medium, fn[dif >> 4 & 3]), "normalised function \"%s\"", nr->function_medium);
        mbus_record_free(nr);
    }
    { int s[3] = { ne, dif >> 4 & 7, sto > 0x7FFFFFFF }; mc_state(s, sizeof s); } mc_outcome("%d extensions", ne);
    mbus_frame_data_free(fd);
}
void mc_main(void)
{
    static const uint8_t bg[] = { 0x00, 0x7F, 0x55, 0x2A }; int ne, i, j, a, b, c, d; uint8_t e[10];
    memset(&F, 0, sizeof F); F.start1 = F.start2 = 0x68; F.stop = 0x16; F.type = MBUS_FRAME_TYPE_LONG; F.control = 8; F.address = 1; F.control_information = 0x72; memcpy(F.data, "\x78\x56\x34\x12\x24\x40\1\7\x55\0\0\0", 12);
    mc_section("no extension"); for (a = 0; a < 128; a++) for (b = 0; b < 256; b++) if ((b & 127) != 0x7C && (a & 15) != 15) if (mc_case()) { if (b == 0xFD || b == 0xFB) continue; one(a, e, 0, b == 0x7D || b == 0x7B || (b & 127) > 0x7B ? 0x13 : b); }
    mc_section("one and two extensions"); for (a = 0; a < 128; a++) for (b = 0; b < 128; b++) for (c = -1; c < 128; c++) if ((a & 15) == 4 || ((a & 15) != 15 && (b & c & 3) == 3)) if (mc_case()) { e[0] = b; e[1] = c; one(a, e, c < 0 ? 1 : 2, a & 1 ? 0x13 : 0x93); }
    mc_section("longer chains: every value pair at every position pair"); for (ne = 3; ne <= 10; ne++) for (i = 0; i < ne; i++) for (j = i + 1; j < ne; j++) for (d = 0; d < (mc_thorough ? 4 : 2); d++) for (a = 0; a < 128; a++) for (b = 0; b < 128; b++) if (mc_thorough || a == b || (b & (b - 1)) == 0 || (a & (a - 1)) == 0 || a == 127 || b == 127) if (mc_case()) { memset(e, bg[d], 10); e[i] = a; e[j] = b; one(0x04 | (a & 7) << 4, e, ne, 0x13); }
    mc_section("every set of extensions with all bits set"); for (ne = 0; ne <= 10; ne++) for (a = 0; a < 1 << ne; a++) for (d = 0; d < 8; d++) for (b = 0; b < 4; b++) if (mc_case()) { static const uint8_t v[] = { 0x7F, 0x0F, 0x30, 0x40 }; for (i = 0; i < ne; i++) e[i] = a >> i & 1 ? v[b] : 0; one(0x02 | d << 4, e, ne, 0x13); }
    mc_section("every data type with the longest chain"); for (a = 0; a < 128; a++) for (b = 0; b < 256; b++) if ((a & 15) != 15) if (mc_case()) { for (i = 0; i < 10; i++) e[i] = (b >> (i & 7) & 1) ? 0x7F : 0x10 + i; one(a, e, 10, 0x13); }
    mc_section("no record"); if (mc_case()) { mc_input("n", 1); MC_CHECK(mbus_data_record_storage_number(NULL) == -1 && mbus_data_record_tariff(NULL) == -1 && mbus_data_record_device(NULL) == -1 && mbus_data_record_function(NULL) == NULL && mbus_parse_variable_record(NULL) == NULL, "absent record"); }
}
