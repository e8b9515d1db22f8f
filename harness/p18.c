/* P18: raw and normalised view of every value information code against the standard's table. */
#include "util.h"
#include <math.h>
#include <ctype.h>
/* scaled codes: value = raw * factor * 10^(low bits + e0) in the base unit */
typedef struct { int table /*0 main, 1 FD, 2 FB*/, first, last, e0; double factor; const char *raw_q, *raw_units, *nq, *nunit; } row;
#define DEG "\xC2\xB0"
static const row T[] = {
 /* raw_q: text in front of the bracket; raw_units: unit=decimal exponent of that unit in the base unit, separated by '|' */
 { 0, 0x00, 0x07, -3, 1, "Energy", "Wh=0", "Energy", "Wh" }, { 0, 0x08, 0x0F, 0, 1, "Energy", "J=0", "Energy", "J" },
 { 0, 0x10, 0x17, -6, 1, "Volume", "m^3=0", "Volume", "m^3" }, { 0, 0x18, 0x1F, -3, 1, "Mass", "kg=0", "Mass", "kg" },
 { 0, 0x28, 0x2F, -3, 1, "Power", "W=0", "Power", "W" }, { 0, 0x30, 0x37, 0, 1, "Power", "J/h=0", "Power", "J/h" },
 { 0, 0x38, 0x3F, -6, 1, "Volume flow", "m^3/h=0", "Volume flow", "m^3/h" }, { 0, 0x40, 0x47, -7, 1, "Volume flow", "m^3/min=0", "Volume flow", "m^3/min" },
 { 0, 0x48, 0x4F, -9, 1, "Volume flow", "m^3/s=0", "Volume flow", "m^3/s" }, { 0, 0x50, 0x57, -3, 1, "Mass flow", "kg/h=0", "Mass flow", "kg/h" },
 { 0, 0x58, 0x5B, -3, 1, "Flow temperature", "deg C=0", "Flow temperature", DEG "C" }, { 0, 0x5C, 0x5F, -3, 1, "Return temperature", "deg C=0", "Return temperature", DEG "C" },
 { 0, 0x60, 0x63, -3, 1, "Temperature difference", "deg C=0|K=0", "Temperature difference", "K" }, { 0, 0x64, 0x67, -3, 1, "External temperature", "deg C=0", "External temperature", DEG "C" },
 { 0, 0x68, 0x6B, -3, 1, "Pressure", "bar=0", "Pressure", "bar" },
 { 1, 0x00, 0x03, -3, 1, "Credit", "currency=0", "Credit", "Currency units" }, { 1, 0x04, 0x07, -3, 1, "Debit", "currency=0", "Debit", "Currency units" },
 { 1, 0x40, 0x4F, -9, 1, "", "V=0", "Voltage", "V" }, { 1, 0x50, 0x5F, -12, 1, "", "A=0", "Current", "A" },
 { 2, 0x00, 0x01, 5, 1, "Energy", "Wh=0", "Energy", "Wh" }, { 2, 0x08, 0x09, 8, 1, "Energy", "J=0", "Energy", "J" }, { 2, 0x10, 0x11, 2, 1, "Volume", "m3=0|m^3=0", "Volume", "m^3" },
 { 2, 0x18, 0x19, 5, 1, "Mass", "t=3|kg=0", "Mass", "kg" }, { 2, 0x21, 0x21, -1, 1, "Volume", "feet^3=0", "Volume", "feet^3" }, { 2, 0x22, 0x23, -1, 1, "Volume", "american gallon=0", "Volume", "American gallon" },
 { 2, 0x24, 0x24, -3, 1, "Volume flow", "american gallon/min=0", "Volume flow", "American gallon/min" }, { 2, 0x25, 0x25, 0, 1, "Volume flow", "american gallon/min=0", "Volume flow", "American gallon/min" }, { 2, 0x26, 0x26, 0, 1, "Volume flow", "american gallon/h=0", "Volume flow", "American gallon/h" },
 { 2, 0x28, 0x29, 5, 1, "Power", "W=0", "Power", "W" }, { 2, 0x30, 0x31, 8, 1, "Power", "J/h=0", "Power", "J/h" },
 { 2, 0x58, 0x5B, -3, 1, "Flow temperature", "degree F=0", "Flow temperature", DEG "F" }, { 2, 0x5C, 0x5F, -3, 1, "Return temperature", "degree F=0", "Return temperature", DEG "F" },
 { 2, 0x60, 0x63, -3, 1, "Temperature difference", "degree F=0", "Temperature difference", DEG "F" }, { 2, 0x64, 0x67, -3, 1, "External temperature", "degree F=0", "External temperature", DEG "F" },
 { 2, 0x70, 0x73, -3, 1, "Cold / Warm Temperature Limit", "degree F=0", "Cold / Warm Temperature Limit", DEG "F" }, { 2, 0x74, 0x77, -3, 1, "Cold / Warm Temperature Limit", "degree C=0", "Cold / Warm Temperature Limit", DEG "C" },
 { 2, 0x78, 0x7F, -3, 1, "cumul. count max power", "W=0", "Cumul count max power", "W" },
};
/* codes without decimal scale: raw text, normalised quantity, unit, factor */
typedef struct { int table, code; const char *raw, *nq, *nunit; double f; } name;
#define MON 2629743.83
#define YEAR 31556926.0
static const name N[] = {
 { 0, 0x20, "On time (seconds)", "On time", "s", 1 }, { 0, 0x21, "On time (minutes)", "On time", "s", 60 }, { 0, 0x22, "On time (hours)", "On time", "s", 3600 }, { 0, 0x23, "On time (days)", "On time", "s", 86400 },
 { 0, 0x24, "Operating time (seconds)", "Operating time", "s", 1 }, { 0, 0x25, "Operating time (minutes)", "Operating time", "s", 60 }, { 0, 0x26, "Operating time (hours)", "Operating time", "s", 3600 }, { 0, 0x27, "Operating time (days)", "Operating time", "s", 86400 },
 { 0, 0x70, "Averaging Duration (seconds)", "Averaging Duration", "s", 1 }, { 0, 0x71, "Averaging Duration (minutes)", "Averaging Duration", "s", 60 }, { 0, 0x72, "Averaging Duration (hours)", "Averaging Duration", "s", 3600 }, { 0, 0x73, "Averaging Duration (days)", "Averaging Duration", "s", 86400 },
 { 0, 0x74, "Actuality Duration (seconds)", "Actuality Duration", "s", 1 }, { 0, 0x75, "Actuality Duration (minutes)", "Actuality Duration", "s", 60 }, { 0, 0x76, "Actuality Duration (hours)", "Actuality Duration", "s", 3600 }, { 0, 0x77, "Actuality Duration (days)", "Actuality Duration", "s", 86400 },
 { 0, 0x6C, "Time Point (date)", "Time point (date)", "-", 1 }, { 0, 0x6D, "Time Point (time & date)|Time Point (date & time)", "Time point (date & time)", "-", 1 }, { 0, 0x6E, "Units for H.C.A.", "H.C.A.", "Units for H.C.A.", 1 },
 { 0, 0x78, "Fabrication number", "Fabrication No", "", 1 }, { 0, 0x79, "?", "(Enhanced) Identification", "", 1 }, { 0, 0x7A, "Bus Address", "Bus Address", "", 1 }, { 0, 0x7E, "?", "Any VIF", "", 1 }, { 0, 0x7F, "Manufacturer specific", "Manufacturer specific", "", 1 },
 { 1, 0x08, "Access Number (transmission count)", "Access Number (transmission count)", "", 1 }, { 1, 0x09, "Medium (as in fixed header)", "Medium", "", 1 }, { 1, 0x0A, "Manufacturer (as in fixed header)", "Manufacturer", "", 1 }, { 1, 0x0B, "Parameter set identification", "Parameter set identification", "", 1 },
 { 1, 0x0C, "Model / Version", "Model / Version", "", 1 }, { 1, 0x0D, "Hardware version", "Hardware version", "", 1 }, { 1, 0x0E, "Firmware version", "Firmware version", "", 1 }, { 1, 0x0F, "Software version", "Software version", "", 1 },
 { 1, 0x10, "Customer location", "Customer location", "", 1 }, { 1, 0x11, "Customer", "Customer", "", 1 }, { 1, 0x12, "Access Code User", "Access Code User", "", 1 }, { 1, 0x13, "Access Code Operator", "Access Code Operator", "", 1 }, { 1, 0x14, "Access Code System Operator", "Access Code System Operator", "", 1 }, { 1, 0x15, "Access Code Developer", "Access Code Developer", "", 1 },
 { 1, 0x16, "Password", "Password", "", 1 }, { 1, 0x17, "Error flags", "Error flags", "", 1 }, { 1, 0x18, "Error mask", "Error mask", "", 1 }, { 1, 0x1A, "Digital output (binary)", "Digital Output", "", 1 }, { 1, 0x1B, "Digital input (binary)", "Digital Input", "", 1 }, { 1, 0x1C, "Baudrate", "Baudrate", "Baud", 1 }, { 1, 0x1D, "response delay time", "Response delay time", "Bittimes", 1 }, { 1, 0x1E, "Retry", "Retry", "", 1 },
 { 1, 0x20, "First storage # for cyclic storage", "First storage # for cyclic storage", "", 1 }, { 1, 0x21, "Last storage # for cyclic storage", "Last storage # for cyclic storage", "", 1 }, { 1, 0x22, "Size of storage block", "Size of storage block", "", 1 },
 { 1, 0x24, "Storage interval second(s)", "Storage interval", "s", 1 }, { 1, 0x25, "Storage interval minute(s)", "Storage interval", "s", 60 }, { 1, 0x26, "Storage interval hour(s)", "Storage interval", "s", 3600 }, { 1, 0x27, "Storage interval day(s)", "Storage interval", "s", 86400 }, { 1, 0x28, "Storage interval month(s)", "Storage interval", "s", MON }, { 1, 0x29, "Storage interval year(s)", "Storage interval", "s", YEAR },
 { 1, 0x2C, "Duration since last readout second(s)", "Duration since last readout", "s", 1 }, { 1, 0x2D, "Duration since last readout minute(s)", "Duration since last readout", "s", 60 }, { 1, 0x2E, "Duration since last readout hour(s)", "Duration since last readout", "s", 3600 }, { 1, 0x2F, "Duration since last readout day(s)", "Duration since last readout", "s", 86400 },
 { 1, 0x30, "Start (date/time) of tariff", "Start (date/time) of tariff", "", 1 }, { 1, 0x31, "Duration of tariff minute(s)", "Duration of tariff", "s", 60 }, { 1, 0x32, "Duration of tariff hour(s)", "Duration of tariff", "s", 3600 }, { 1, 0x33, "Duration of tariff day(s)", "Duration of tariff", "s", 86400 },
 { 1, 0x34, "Period of tariff second(s)", "Period of tariff", "s", 1 }, { 1, 0x35, "Period of tariff minute(s)", "Period of tariff", "s", 60 }, { 1, 0x36, "Period of tariff hour(s)", "Period of tariff", "s", 3600 }, { 1, 0x37, "Period of tariff day(s)", "Period of tariff", "s", 86400 }, { 1, 0x38, "Period of tariff months(s)|Period of tariff month(s)", "Period of tariff", "s", MON }, { 1, 0x39, "Period of tariff year(s)", "Period of tariff", "s", YEAR },
 { 1, 0x3A, "dimensionless / no VIF", "Dimensionless", "", 1 }, { 1, 0x60, "Reset counter", "Reset counter", "", 1 }, { 1, 0x61, "Cumulation counter", "Cumulation counter", "", 1 }, { 1, 0x62, "Control signal", "Control signal", "", 1 }, { 1, 0x63, "Day of week", "Day of week", "", 1 }, { 1, 0x64, "Week number", "Week number", "", 1 }, { 1, 0x65, "Time point of day change", "Time point of day change", "", 1 }, { 1, 0x66, "State of parameter activation", "State of parameter activation", "", 1 }, { 1, 0x67, "Special supplier information", "Special supplier information", "", 1 },
 { 1, 0x68, "Duration since last cumulation hour(s)", "Duration since last cumulation", "s", 3600 }, { 1, 0x69, "Duration since last cumulation day(s)", "Duration since last cumulation", "s", 86400 }, { 1, 0x6A, "Duration since last cumulation month(s)", "Duration since last cumulation", "s", MON }, { 1, 0x6B, "Duration since last cumulation year(s)", "Duration since last cumulation", "s", YEAR },
 { 1, 0x6C, "Operating time battery hour(s)", "Operating time battery", "s", 3600 }, { 1, 0x6D, "Operating time battery day(s)", "Operating time battery", "s", 86400 }, { 1, 0x6E, "Operating time battery month(s)", "Operating time battery", "s", MON }, { 1, 0x6F, "Operating time battery year(s)", "Operating time battery", "s", YEAR },
 { 1, 0x70, "Date and time of battery change", "Date and time of battery change", "", 1 },
};
/* "<prefix><unit>" -> decimal exponent in the base unit, 99 if it is not one of the units */
static int unit_exp(const char *s, const char *units)
{
    static const struct { const char *p; int e; } pf[] = { { "", 0 }, { "m", -3 }, { "my", -6 }, { "10 ", 1 }, { "100 ", 2 }, { "k", 3 }, { "10 k", 4 }, { "100 k", 5 }, { "M", 6 }, { "G", 9 }, { "0.1 ", -1 }, { "0.1 M", 5 }, { "0.1 G", 8 }, { "0.001 ", -3 }, { "0.01 ", -2 }, { "1 ", 0 } };
    const char *u = units; int i, e, n = 0;
    while (*u) {
        char un[256]; int ue = 0, l = strcspn(u, "="); memcpy(un, u, l); un[l] = 0; u += l + 1; ue = atoi(u); u += strspn(u, "-0123456789"); if (*u == '|') u++;
        for (i = 0; i < (int)(sizeof pf / sizeof *pf); i++) { size_t k = strlen(pf[i].p); if (!strncmp(s, pf[i].p, k)) { const char *r = s + k; while (*r == ' ') r++; if (!strcmp(r, un)) return pf[i].e + ue; } }
        if (sscanf(s, "1e%d %n", &e, &n) == 1 && n > 0) { const char *r = s + n; while (*r == ' ') r++; if (!strcmp(r, un)) return e + ue; }
    }
    return 99;
}
static int raw_exp(const char *raw, const row *r)
{
    char b[256]; size_t l = strlen(r->raw_q), n = strlen(raw); const char *cu = " of the nominal local legal currency units";
    if (strncasecmp(raw, r->raw_q, l)) return 98;
    if (!strcmp(r->raw_units, "currency=0")) { size_t c = strlen(cu); if (strncmp(raw + l, " of ", 4) || n < l + 4 + c - 1 || strcmp(raw + n - c + 1, cu + 1)) return 97; snprintf(b, sizeof b, "%.*scurrency", (int)(n - c + 1 - l - 4), raw + l + 4); while (strstr(b, " currency") && (b[strlen(b) - 9] == ' ')) memmove(b + strlen(b) - 9, "currency", 9); return unit_exp(b, r->raw_units) == 99 ? unit_exp((snprintf(b, sizeof b, "%.*scurrency", (int)(n - c + 1 - l - 4), raw + l + 4), b), r->raw_units) : unit_exp(b, r->raw_units); }
    if (!l) return unit_exp(raw, r->raw_units);
    if (raw[l] != ' ' || raw[l + 1] != '(' || raw[n - 1] != ')') return 97;
    snprintf(b, sizeof b, "%.*s", (int)(n - l - 3), raw + l + 2); return unit_exp(b, r->raw_units);
}
static int alt(const char *s, const char *list) { char b[256], *p; snprintf(b, sizeof b, "%s", list); for (p = strtok(b, "|"); p; p = strtok(NULL, "|")) if (!strcasecmp(s, p)) return 1; return 0; }
static int undef(const char *s) { return !strncmp(s, "Reserved", 8) || !strncmp(s, "Unknown", 7) || !strncmp(s, "Unrecognized", 12) || !*s; }
static mbus_frame F; static int n_old;
static int near(double a, double b) { return a == b || fabs(a - b) <= 1e-11 * fabs(b) || (isnan(a) && isnan(b)); }
/* put a value: 0 int16, 1 int32, 2 bcd8, 3 real, 4 int64 */
static int put(uint8_t *o, int kind, int v, int *dif) { int k = 0; switch (kind) { case 0: *dif = 2; o[k++] = v; o[k++] = v >> 8; break; case 1: *dif = 4; for (; k < 4; k++) o[k] = v >> (8 * k); break; case 2: { int a = abs(v), i; *dif = 12; for (i = 0; i < 4; i++) { o[k++] = a % 10 | (a / 10 % 10) << 4; a /= 100; } if (v < 0) o[3] |= 0xF0; break; } case 3: { float f = v / 8.0f; uint32_t u; *dif = 5; memcpy(&u, &f, 4); for (; k < 4; k++) o[k] = u >> (8 * k); break; } default: *dif = 7; for (; k < 8; k++) o[k] = (int64_t)v >> (8 * k); } return k; }
static void one(const uint8_t *vib, int nv, int table, int code, double mul, double add, int kind, int v)
{
    int dif, k = 12, r, n, i, e; uint8_t val[8], in[24]; mbus_frame_data *fd; mbus_data_record *rec; mbus_record *nr; char raw[256]; double num = kind == 3 ? v / 8.0 : v, want;
    n = put(val, kind, v, &dif); in[0] = kind; memcpy(in + 1, vib, nv); memcpy(in + 1 + nv, val, n); mc_input(in, 1 + nv + n);
    if (table == 0 && ((code == 0x6C && dif == 2) || (code == 0x6D && dif == 4))) { mc_outcome("time stamp"); return; }
    if (table == 1 && dif == 4 && (code == 0x30 || code == 0x70)) { mc_outcome("time stamp"); return; }
    F.data[k++] = dif; memcpy(F.data + k, vib, nv); k += nv; memcpy(F.data + k, val, n); k += n; memset(F.data + k, 0x7D, n_old > k ? n_old - k : 10); n_old = k; F.data_size = k; F.length1 = F.length2 = k + 3;
    fd = mbus_frame_data_new(); r = mbus_frame_data_parse(&F, fd); MC_CHECK(r == 0, "refused"); rec = fd->data_var.record;
    snprintf(raw, sizeof raw, "%s", mbus_data_record_unit(rec)); MC_CHECK(!strcmp(raw, mbus_vib_unit_lookup(&rec->drh.vib)), "unit lookups differ"); nr = mbus_parse_variable_record(rec); mc_trans(2);
    for (i = 0; i < (int)(sizeof T / sizeof *T); i++) if (T[i].table == table && code >= T[i].first && code <= T[i].last) break;
    if (i < (int)(sizeof T / sizeof *T)) {
        int s = T[i].e0 + code - T[i].first; e = raw_exp(raw, &T[i]);
        MC_CHECK(e == s, "code %d/%02X: raw unit \"%s\" is not 10^%d %s", table, code, raw, s, T[i].nunit);
        MC_CHECK(nr && nr->is_numeric && nr->unit && nr->quantity, "code %d/%02X: no normalised number", table, code);
        MC_CHECK(!strcmp(nr->quantity, T[i].nq) && !strcmp(nr->unit, T[i].nunit), "code %d/%02X: normalised \"%s\" in \"%s\", expected %s in %s", table, code, nr->quantity, nr->unit, T[i].nq, T[i].nunit);
        want = num * pow(10, s) * mul + add; MC_CHECK(near(nr->value.real_val, want), "code %d/%02X: normalised value %.15g, expected %.15g", table, code, nr->value.real_val, want);
        mc_outcome("scaled"); e = s;
    } else {
        for (i = 0; i < (int)(sizeof N / sizeof *N); i++) if (N[i].table == table && N[i].code == code) break;
        if (i < (int)(sizeof N / sizeof *N)) {
            MC_CHECK(N[i].raw[0] == '?' ? undef(raw) || alt(raw, N[i].nq) : alt(raw, N[i].raw), "code %d/%02X: raw unit \"%s\", expected %s", table, code, raw, N[i].raw);
            MC_CHECK(nr && nr->is_numeric && nr->unit && nr->quantity, "code %d/%02X: no normalised number", table, code);
            MC_CHECK(!strcasecmp(nr->quantity, N[i].nq) && !strcasecmp(nr->unit, N[i].nunit), "code %d/%02X: normalised \"%s\" in \"%s\", expected %s in %s", table, code, nr->quantity, nr->unit, N[i].nq, N[i].nunit);
            if (table == 0 && code == 0x7F) { mul = 1; add = 0; }
            want = num * N[i].f * mul + add; MC_CHECK(near(nr->value.real_val, want), "code %d/%02X: normalised value %.15g, expected %.15g", table, code, nr->value.real_val, want); mc_outcome("named"); e = 50;
        } else { MC_CHECK(undef(raw), "undefined code %d/%02X shown as \"%s\"", table, code, raw); if (nr) MC_CHECK(nr->unit && nr->quantity && undef(nr->quantity), "undefined code %d/%02X normalised as \"%s\"", table, code, nr->quantity); mc_outcome("undefined"); e = 60; }
    }
    { int s[3] = { table, code, e }; mc_state(s, sizeof s); }
    if (nr) mbus_record_free(nr);
    mbus_frame_data_free(fd);
}
/* plain text VIF: unit is the text; multiplicative correction shows as prefix and scales the number */
static void custom(const char *txt, int vife, int kind, int v)
{
    int dif, k = 12, n, r, l = strlen(txt), i; uint8_t val[8]; mbus_frame_data *fd; mbus_data_record *rec; mbus_record *nr; char raw[256], un[200]; double num = kind == 3 ? v / 8.0 : v, want = num; int in[3] = { vife, kind, v };
    mc_input(in, sizeof in); n = put(val, kind, v, &dif); F.data[k++] = dif; F.data[k++] = vife < 0 ? 0x7C : 0xFC; F.data[k++] = l; for (i = 0; i < l; i++) F.data[k++] = txt[l - 1 - i]; if (vife >= 0) { F.data[k++] = vife; if (vife & 128) F.data[k++] = 0; } memcpy(F.data + k, val, n); k += n; memset(F.data + k, 0x7D, n_old > k ? n_old - k : 10); n_old = k; F.data_size = k; F.length1 = F.length2 = k + 3;
    fd = mbus_frame_data_new(); r = mbus_frame_data_parse(&F, fd); MC_CHECK(r == 0, "refused"); rec = fd->data_var.record; snprintf(raw, sizeof raw, "%s", mbus_data_record_unit(rec)); nr = mbus_parse_variable_record(rec); mc_trans(2);
    vife = vife < 0 ? -1 : vife & 127; snprintf(un, sizeof un, "%s=0", txt);
    if (vife >= 0x70 && vife <= 0x77) { want = num * pow(10, vife - 0x76); MC_CHECK(unit_exp(raw, un) == vife - 0x76, "text unit \"%s\" with correction %02X shown as \"%s\"", txt, vife, raw); }
    else { MC_CHECK(!strcmp(raw, txt), "text unit \"%s\" with extension %02X shown as \"%s\"", txt, vife, raw); if (vife >= 0x78 && vife <= 0x7B) want = num + pow(10, vife - 0x7B); if (vife == 0x7D) want = num * 1000; }
    MC_CHECK(nr && nr->is_numeric && nr->unit && nr->quantity && !strcmp(nr->quantity, txt), "text unit \"%s\" normalised as \"%s\"", txt, nr ? nr->quantity : "nothing"); MC_CHECK(near(nr->value.real_val, want), "text unit: normalised value %.15g, expected %.15g", nr->value.real_val, want);
    mc_outcome("text unit"); { int s[2] = { 9, vife }; mc_state(s, sizeof s); } mbus_record_free(nr); mbus_frame_data_free(fd);
}
static void corr(int vife, double *mul, double *add) { vife &= 127; *mul = 1; *add = 0; if (vife >= 0x70 && vife <= 0x77) *mul = pow(10, vife - 0x76); else if (vife >= 0x78 && vife <= 0x7B) *add = pow(10, vife - 0x7B); else if (vife == 0x7D) *mul = 1000; }
/* a record that need not be a number: both views say the same, numbers up to the scale sc */
static void same(const uint8_t *b, int n, double mul, double add)
{
    int k = 12, r, z; mbus_frame_data *fd; mbus_data_record *rec; mbus_record *nr; char raw[1024], *e; mc_input(b, n);
    memcpy(F.data + k, b, n); k += n; memset(F.data + k, 0x7D, n_old > k ? n_old - k : k < 240 ? 10 : 252 - k); n_old = k; F.data_size = k; F.length1 = F.length2 = k + 3;
    fd = mbus_frame_data_new(); r = mbus_frame_data_parse(&F, fd); MC_CHECK(r == 0 && fd->data_var.record && !fd->data_var.record->next, "refused"); rec = fd->data_var.record; snprintf(raw, sizeof raw, "%s", mbus_data_record_value(rec)); nr = mbus_parse_variable_record(rec); mc_trans(2);
    if ((b[0] & 15) == 8) { MC_CHECK(!nr || !nr->is_numeric, "a record without a value is normalised to the number %g", nr->value.real_val); mc_outcome("no value defined"); }
    else {
        MC_CHECK(nr, "no normalised record, raw value \"%s\"", raw);
        if (nr->is_numeric) { double v = strtod(raw, &e); MC_CHECK(*raw && !*e, "raw value \"%s\", normalised number %g", raw, nr->value.real_val); v = v * mul + add; if ((b[0] & 15) != 5) MC_CHECK(near(nr->value.real_val, v), "raw value \"%s\", normalised number %.15g, expected %.15g", raw, nr->value.real_val, v); mc_outcome("number"); }
        else { size_t l = strlen(raw); char *t = nr->value.str_val.value; MC_CHECK(t, "no text"); z = strlen(t); if (z > 10 && t[z - 1] == 'Z' && t[10] == 'T' && l == (size_t)z - 1) l++; else MC_CHECK((size_t)z == l, "raw value \"%s\", normalised \"%s\"", raw, t); MC_CHECK(!strncmp(raw, t, strlen(raw)), "raw value \"%s\", normalised \"%s\"", raw, t);
            if (memchr(b, 0, n) == NULL || z) MC_CHECK(nr->value.str_val.size == z || nr->value.str_val.size == z + 1 || memchr(b + 2, 0, n - 2), "text \"%s\" of %d characters is given the size %d", t, z, (int)nr->value.str_val.size); mc_outcome(!z ? "empty" : "text"); }
    }
    { int s[3] = { 77, b[0] & 15, nr ? nr->is_numeric : -1 }; mc_state(s, sizeof s); } if (nr) mbus_record_free(nr); mbus_frame_data_free(fd);
}
void mc_main(void)
{
    static const int vals[] = { 0, 1, -1, 7, 123, -32768, 32767, 9999, -4321 }; int t, c, x, kind, i, n, m; uint8_t v[6]; double mul, add;
    memset(&F, 0, sizeof F); F.start1 = F.start2 = 0x68; F.stop = 0x16; F.type = MBUS_FRAME_TYPE_LONG; F.control = 8; F.address = 1; F.control_information = 0x72; memcpy(F.data, "\x78\x56\x34\x12\x24\x40\1\7\x55\0\0\0", 12);
    mc_section("every code of every table"); for (t = 0; t < 3; t++) for (c = 0; c < 128; c++) for (x = 0; x < (t ? 3 : 1); x++) for (kind = 0; kind < 5; kind++) for (i = 0; i < 9; i++) if (t || (c != 0x7C && c != 0x7B && c != 0x7D)) if (mc_case()) { n = 0; if (t == 1) v[n++] = 0xFD; if (t == 2) v[n++] = 0xFB; v[n++] = c | (x ? 0x80 : 0); if (x) v[n++] = x == 1 ? 0x00 : 0x39; one(v, n, t, c, 1, 0, kind, vals[i]); }
    mc_section("every main code with every extension"); for (c = 0; c < 128; c++) for (x = 0; x < 256; x++) for (kind = 0; kind < 5; kind++) for (i = 0; i < (mc_thorough ? 9 : 3); i++) if (c != 0x7C && c != 0x7B && c != 0x7D) if (mc_case()) { n = 0; v[n++] = c | 0x80; v[n++] = x; if (x & 128) v[n++] = 0; corr(x, &mul, &add); one(v, n, 0, c, mul, add, kind, vals[(3 + i) % 9]); }
    mc_section("reserved main codes"); for (x = 0; x < 2; x++) for (kind = 0; kind < 5; kind++) if (mc_case()) { v[0] = x ? 0x7B : 0x7D; one(v, 1, 0, v[0], 1, 0, kind, 5); }
    mc_section("text units"); for (x = -1; x < 256; x++) for (kind = 0; kind < 5; kind++) for (i = 0; i < 9; i++) for (m = 0; m < 4; m++) if (mc_case()) { static const char *tx[] = { "bar", "x", "kWh per tariff period", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345" }; custom(tx[m], x, kind, vals[i]); }
    mc_section("values: every 16 bit integer"); for (i = -32768; i < 32768; i++) for (c = 0; c < 0x6C; c += (mc_thorough ? 1 : 7)) if (mc_case()) { v[0] = c; one(v, 1, 0, c, 1, 0, 0, i); }
    mc_section("corrections followed by further extensions"); for (c = 0; c < 128; c += (mc_thorough ? 1 : 3)) for (x = 0x60; x < 0x80; x++) for (n = 2; n <= 10; n++) for (m = 0; m < 4; m++) if (c != 0x7C && c != 0x7B && c != 0x7D) if (mc_case()) { uint8_t w[12]; w[0] = c | 0x80; w[1] = x | 0x80; for (i = 2; i <= n; i++) w[i] = (m == 0 ? 0x00 : m == 1 ? 0x39 : m == 2 ? 0x3A : 0x10 + i) | (i < n ? 0x80 : 0); corr(x, &mul, &add); one(w, n + 1, 0, c, mul, add, m, vals[4 + m]); }
    mc_section("data of every kind, variable length of every size"); { static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 }; static const uint8_t vf[] = { 0x13, 0x78, 0x6C, 0x6D, 0x90, 0x7F }; uint8_t b[256]; int p, j;
        for (t = 0; t < 64; t++) for (m = 0; m < 6; m++) for (p = 0; p < 12; p++) if ((t & 15) != 13 && (t & 15) != 15 && mc_case()) { n = 0; b[n++] = t; b[n++] = vf[m]; if (vf[m] & 0x80) b[n++] = 0x74; for (j = 0; j < len[t & 15]; j++) b[n++] = (t & 15) >= 9 ? (p * 7 + j * 3) % 10 | (p + j) % 10 << 4 : p == 0 ? 0 : p == 1 ? 0xFF : p == 2 ? 0x80 : p * 37 + j * 91; if ((t & 0x3F) >= 0x30 && (t & 15) >= 9) { mc_input(b, n); mc_outcome("hexadecimal digits shown"); continue; } mul = vf[m] == 0x13 ? 1e-3 : vf[m] == 0x90 ? 1e-6 * 1e-2 : 1; same(b, n, mul, 0); }
        for (c = 0; c < 256; c++) for (t = 0; t < 64; t += 16) for (m = 0; m < 6; m++) for (p = 0; p < 4; p++) { int l = c <= 0xBF ? c : c >= 0xC0 && c <= 0xC9 ? c - 0xC0 : c >= 0xD0 && c <= 0xD9 ? c - 0xD0 : c >= 0xE0 && c <= 0xEF ? c - 0xE0 : c >= 0xF0 && c <= 0xF4 ? 4 * (c - 0xEC) : c == 0xF5 ? 48 : c == 0xF6 ? 64 : -1; if (l < 0 || l > 200) continue; if (mc_case()) { n = 0; b[n++] = 13 | t; b[n++] = vf[m]; if (vf[m] & 0x80) b[n++] = 0x74; b[n++] = c; for (j = 0; j < l; j++) b[n++] = p == 0 ? 'a' + j % 26 : p == 1 ? 0x30 + j % 10 : p == 2 ? 1 + j % 255 : 0xFF - j; same(b, n, 1, 0); } }
        for (t = 0; t < 2; t++) for (i = 0; i <= 230; i++) for (p = 0; p < 3; p++) if (mc_case()) { n = 0; b[n++] = t ? 0x1F : 0x0F; for (j = 0; j < i; j++) b[n++] = p ? 1 + (j * p * 31) % 255 : 0; same(b, n, 1, 0); } }
    mc_section("units asked for directly"); for (c = 0; c < 256; c++) for (x = 0; x < 256; x++) if (mc_case()) { mbus_value_information_block b; char *u = NULL, *q = NULL; double o = 7; int r; memset(&b, 0, sizeof b); b.vif = c; b.vife[0] = x; b.nvife = 0; mc_input(&b, 2); if (x && c != 0xFD && c != 0xFB) { mc_outcome("-"); continue; } r = mbus_vib_unit_normalize(&b, 3, &u, &o, &q); if (c == 0xFD || c == 0xFB) MC_CHECK(r != 0, "unit found although the extension is absent"); mc_outcome(r ? "none" : "unit"); mc_trans(1); env_free(u); env_free(q); }
    if (mc_case()) { mbus_value_information_block b; char *u = NULL, *q = NULL; double o; mc_input("n", 1); memset(&b, 0, sizeof b); MC_CHECK(mbus_vib_unit_normalize(NULL, 1, &u, &o, &q) && mbus_vib_unit_normalize(&b, 1, NULL, &o, &q) && mbus_vib_unit_normalize(&b, 1, &u, NULL, &q) && mbus_vib_unit_normalize(&b, 1, &u, &o, NULL) && mbus_vif_unit_normalize(0, 1, NULL, &o, &q) && mbus_vif_unit_normalize(0, 1, &u, NULL, &q) && mbus_vif_unit_normalize(0, 1, &u, &o, NULL) && !u && !q && !mbus_parse_variable_record(NULL), "absent arguments accepted"); }
}
