/* P24: the result of decoding a telegram depends on that telegram only. */
#include "sinks.h"
#include "frames.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <alloca.h>
#include <unistd.h>
#include <sys/types.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MS 1
#endif
#endif
static uint8_t HB[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0xAB, 0xCD };
/* ---- the telegrams of the histories ---- */
#define TMAX 64
static struct { uint8_t b[300]; int n; } T[TMAX]; static int NT;
static void add(const uint8_t *b, int n) { memcpy(T[NT].b, b, n); T[NT++].n = n; }
static void tel(int c, int ci, const char *d, int n) { uint8_t s[300]; add(s, mk_long(s, c, 5, ci, (const uint8_t *)d, n)); }
static void rec(const char *d, int n, int man, int med) { uint8_t h[256]; memcpy(h, HB, 12); h[4] = man; h[5] = man >> 8; h[7] = med; memcpy(h + 12, d, n); tel(8, 0x72, (char *)h, n + 12); }
static void corpus(void)
{
    uint8_t s[300]; int k; char b[256]; s[0] = 0xE5; add(s, 1); add(s, mk_short(s, 0x5B, 3)); tel(8, 0x50, NULL, 0); tel(0x53, 0x51, "\x01\x7A\x05", 3);
    rec("\x01\x13\x2A", 3, 0x4024, 7); rec("", 0, 0x1CAE, 4); rec("\x2F\x2F", 2, 0x10AC, 0x99); rec("\x84\x10\x13\x01\x02\x03\x04", 7, 0x2C2D, 2); rec("\x82\x55\x93\x74\x06\x34", 6, 0x4024, 0x37); rec("\x02\x6C\x95\x2A\x04\x6D\x1E\x0C\x95\x2A", 10, 0x4024, 7); rec("\x06\x6D\x01\x9E\x0C\x95\x2A\x33", 8, 1, 1); rec("\x02\x6C\xFF\xFF\x04\x6D\xFF\xFF\xFF\xFF", 10, 1, 1);
    memset(b, 'w', sizeof b); b[0] = 0x0D; b[1] = 0x78; b[2] = (char)0xBF; rec(b, 194, 0x4024, 7); rec("\x0D\x78\x02no", 5, 0x4024, 7); rec("\x0D\x78\x00", 3, 0x4024, 7); b[0] = 1; b[1] = 0x7C; b[2] = 127; rec(b, 131, 0x4024, 7); rec("\x01\x7C\x03xyz\x05", 7, 0x4024, 7); rec("\x01\x7C\x00\x05", 4, 0x4024, 7); rec("\x01\xFC\x02kg\x74\x05", 7, 0x4024, 7);
    rec("\x0D\x13\xC4\x12\x34\x56\x78", 7, 0x4024, 7); rec("\x0D\x13\xE6\xFF\xFE\xFD\xFC\xFB\xFA", 9, 0x4024, 7); rec("\x0F\x01\x02\x03", 4, 0x4024, 7); rec("\x01\x13\x07\x1F\xAA", 5, 0x4024, 7); rec("\x0F", 1, 0x4024, 7); rec("\x05\x2B\x00\x00\x80\x3F", 6, 0x4024, 7); rec("\x05\x2B\x00\x00\xC0\x7F", 6, 0x4024, 7); rec("\x0C\x13\x78\x56\x34\x12\x0E\x13\x99\x99\x99\x99\x99\x99", 14, 0x4024, 7); rec("\x3C\x13\xBA\xDC\xFE\xF1", 6, 0x4024, 7); rec("\x07\x13\xFF\xFF\xFF\xFF\xFF\xFF\xFF\x7F", 10, 0x4024, 7);
    rec("\x04\xFD\x17\x05\x00\x00\x00", 7, 0x4024, 7); rec("\x04\xFD\x30\x1E\x0C\x95\x2A", 7, 0x4024, 7); rec("\x01\xFB\x7F\x05", 4, 0x4024, 7); rec("\x01\x7D\x05\x01\x7B\x05", 6, 0x4024, 7); rec("\x00\x13\x08\x13", 4, 0x4024, 7); rec("\x8F\x81\x13\x05", 4, 0x4024, 7); rec("\x01\xFF\x85\x81\x01\x05", 6, 0x4024, 7); rec("\x01\x6F\x05\x01\xEE\x21\x05", 7, 0x4024, 7);
    b[0] = 0x0F; rec(b, 240, 0x4024, 7); for (k = 0; k < 78; k++) memcpy(b + 3 * k, "\x01\x13\x2A", 3); rec(b, 234, 0x4024, 7);
    tel(8, 0x73, "\x78\x56\x34\x12\x0A\x00\xE9\x7E\x01\x00\x00\x00\x35\x01\x00\x00", 16); tel(8, 0x73, "\x78\x56\x34\x12\x0B\xC0\x38\x01\xFF\xFF\xFF\xFF\x35\x01\x00\x80", 16); tel(8, 0x73, "\x78\x56\x34\x12\x0B\x00\x3C\x00\xAF\xFF\xFF\xFF\x35\x01\x00\x80", 16); tel(8, 0x70, "\x05", 1); tel(8, 0x70, "", 0); tel(8, 0x70, "\xEE\x01", 2);
    /* refused ones */ rec("\x01\x13\x2A\x04\x13\x01", 6, 0x4024, 7); rec("\x84", 1, 0x4024, 7); rec("\x01\x7C\x09" "ab", 5, 0x4024, 7); rec("\x0D\x78\x09" "ab", 5, 0x4024, 7); rec("\x01\x93", 2, 0x4024, 7); tel(8, 0x72, "\x78\x56", 2); tel(8, 0x73, "\x78\x56", 2); tel(8, 0x99, "\x78\x56", 2); rec("\x81\x81\x81\x81\x81\x81\x81\x81\x81\x81\x81\x81\x01\x13\x05", 15, 0x4024, 7);
    k = mk_long(s, 8, 5, 0x72, (uint8_t *)HB, 12); s[k - 2] ^= 1; add(s, k); add(s, 7); s[k - 2] ^= 1; s[k - 1] = 0; add(s, k); s[0] = 0x77; add(s, 1);
}
/* ---- one decoding, everything it shows ---- */
typedef struct { uint64_t h; int n; } dig;
static char *txt; static size_t txtn;
static __attribute__((noinline)) void dirt(int fill) { volatile uint8_t *p = alloca(49152); int i; for (i = 0; i < 49152; i += 1) p[i] = fill; }
typedef struct { mbus_frame *f; mbus_frame_data *fd; } objs;
static int dbg; static FILE *null;     /* parse with debugging output, which goes elsewhere */
static void dbg_on(void) { if (dbg) { if (!null) null = fopen("/dev/null", "w"); stdout = null; mbus_parse_set_debug(1); } }
static void dbg_off(void) { if (dbg) { mbus_parse_set_debug(0); stdout = sk_out; } }
static void show_data(mbus_frame *f, mbus_frame_data *fd) { int r; dbg_on(); r = mbus_frame_data_parse(f, fd); dbg_off(); ski("parse", r); if (r == 0) sk_data(f, fd); else sk("error", mbus_error_str()); }
static dig decode(const uint8_t *b, int n, int fill, objs *o, int want)
{
    dig d; FILE *so = stdout; mbus_frame own, *f = o && o->f ? o->f : &own; int r; if (txt) { free(txt); txt = NULL; } sk_out = open_memstream(&txt, &txtn); stdout = sk_out;
#ifndef MS
    if (f == &own) memset(f, fill, sizeof *f); dirt(fill);
#endif
    dbg_on(); r = mbus_parse(f, guard_copy(0, b, n), n); dbg_off(); ski("parsed", r); f->next = NULL; f->timestamp = 1700000000;
    if (r == 0) { ski("t", f->type); if (f->type != MBUS_FRAME_TYPE_ACK) { ski("c", f->control); ski("a", f->address); } if (f->type >= MBUS_FRAME_TYPE_CONTROL) { ski("ci", f->control_information); ski("n", f->data_size); }
        sk_frame(f, 1); if (o && o->fd) { show_data(f, o->fd); if (o->fd->type == MBUS_DATA_TYPE_VARIABLE && o->fd->data_var.record) { mbus_data_record_free(o->fd->data_var.record); o->fd->data_var.record = NULL; } }
        else { mbus_frame_data *fd = mbus_frame_data_new(); show_data(f, fd); mbus_frame_data_free(fd); } }
    else if (r < 0) sk("error", mbus_error_str());
    stdout = so; fclose(sk_out); sk_out = NULL; d.h = want ? mc_hash(txt, txtn, 1) : 0; d.n = txtn; mc_trans(1); return d;
}
/* the result in a process in which nothing has been decoded yet */
static dig *base; static char *basetxt[TMAX];
static void pristine(void)
{
    int i; base = mmap(0, TMAX * sizeof *base, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (i = 0; i < NT; i++) { char *m = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pid_t p = fork(); if (!p) { mem_begin(0xA5); base[i] = decode(T[i].b, T[i].n, 0xA5, NULL, 1); memcpy(m, txt, txtn < (1 << 20) ? txtn : 1 << 20); _exit(0); } { int st; waitpid(p, &st, 0); if (st) base[i].n = -1; } basetxt[i] = m; }
}
static void differs(const char *a, size_t an, const char *b, size_t bn, const char *what) { size_t i = 0, s; while (i < an && i < bn && a[i] == b[i]) i++; for (s = i; s > 0 && a[s - 1] != '\n' && i - s < 200; s--) ; mc_fail("%s: \"%.*s\", otherwise \"%.*s\"", what, (int)(an - s < 160 ? an - s : 160), a + s, (int)(bn - s < 160 ? bn - s : 160), b + s); }
static void same(int t, dig d, const char *what) { if (d.n != base[t].n || d.h != base[t].h) differs(txt, txtn, basetxt[t], base[t].n < (1 << 20) ? base[t].n : 1 << 20, what); }
static const int FILLS[] = { 0x00, 0xFF, 0x5A };
static void history(const int *h, int n, int pol, int fill)
{
    mbus_frame fr; mbus_frame_data *fd = NULL; objs o; int i; dig d; mem_begin(fill);
#ifndef MS
    memset(&fr, fill, sizeof fr);
#endif
    o.f = pol ? &fr : NULL; if (pol == 2) { fd = mbus_frame_data_new();
#ifndef MS
        memset(fd, fill, sizeof *fd);
#endif
        fd->data_var.record = NULL; } o.fd = fd;
    for (i = 0; i < n; i++) { d = decode(T[h[i]].b, T[h[i]].n, fill, &o, i == n - 1); }
    same(h[n - 1], d, pol == 0 ? "after another telegram" : pol == 1 ? "with a used telegram object" : "with used telegram and data objects"); if (fd) mbus_frame_data_free(fd); MC_CHECK(mem_live() == 0 && !M.bad_free, "memory not released: %s", mem_describe());
    { int s[3] = { h[n - 1], n > 1 ? h[n - 2] : -1, pol }; mc_state(s, sizeof s); } mc_outcome(pol == 0 ? "fresh objects" : pol == 1 ? "used telegram" : "used telegram and data");
}
/* two decodings with different pasts and different memory contents */
static void twice(const uint8_t *d, int n)
{
    char *a; size_t an; static int q; uint8_t s[300]; int l = mk_long(s, 8, 5, 0x72, d, n); dig x, y; mem_begin(0x00); 
    x = decode(s, l, 0x00, NULL, 1); a = txt; an = txtn; txt = NULL;
    q = (q + 7) % NT; mem_begin(0xFF); decode(T[q].b, T[q].n, 0xFF, NULL, 0); dbg = mc_cur->idx & 1; y = decode(s, l, 0xFF, NULL, 1); dbg = 0; if (x.n != y.n || x.h != y.h) differs(txt, txtn, a, an, "with other memory contents"); free(a); mc_outcome("decoded twice");
}
static void var(const uint8_t *b, int n) { uint8_t s[256]; if (n > 240) n = 240; mc_input(b, n); memcpy(s, HB, 12); memcpy(s + 12, b, n); twice(s, n + 12); }
/* ---- receptions ---- */
static void on_line(int tcp, const int *h, int n, int pol)
{
    mbus_handle *l; mbus_frame fr; int i, k, r; char *a = NULL; size_t an; FILE *so;
    for (k = 0; k < 2; k++) { mem_begin(k ? 0xFF : 0); l = line_open(tcp, -1);
#ifndef MS
        memset(&fr, k ? 0xFF : 0, sizeof fr);
#endif
        for (i = k ? 0 : n - 1; i < n; i++) { int g = h[i]; env_clear_rx(); if (g < NT) rx_bytes(T[g].b, T[g].n); else if (g == NT) rx_bytes(T[5].b, T[5].n / 2); else if (g == NT + 1) rx_bytes("\x68\x05\x05\x68garbage", 11); r = mbus_recv_frame(l, &fr); mc_trans(1); }
        if (txt) free(txt); txt = NULL; sk_out = open_memstream(&txt, &txtn); so = stdout; stdout = sk_out; ski("received", r); if (r == 0) { ski("timestamp", fr.timestamp); MC_CHECK(!fr.next, "a received telegram has a successor"); sk_frame(&fr, 1); } stdout = so; fclose(sk_out); sk_out = NULL; line_close(l); if (k == 0) { a = txt; an = txtn; txt = NULL; } }
    if (an != txtn || memcmp(a, txt, an)) differs(txt, txtn, a, an, "received after other telegrams"); free(a); mc_outcome("received: %d", r); (void)pol;
}
void mc_main(void)
{
    int a, b, c, i, j, k, l, n, h[4]; uint8_t s[300]; static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 }; corpus(); pristine();
    mc_section("first telegram of a process"); for (a = 0; a < NT; a++) if (mc_case()) { mc_input(T[a].b, T[a].n); mem_begin(0x00); dig d = decode(T[a].b, T[a].n, 0, NULL, 1); MC_CHECK(base[a].n != -1, "decoding this telegram ends the process"); same(a, d, "in a later process"); mc_outcome("first"); }
    mc_section("debugging output"); for (a = 0; a < NT + N_FRAMES; a++) for (k = 0; k < 3; k++) if (mc_case()) { const uint8_t *t = a < NT ? T[a].b : FRAMES[a - NT].b; int tn = a < NT ? T[a].n : FRAMES[a - NT].n; char *x; size_t xn; mc_input(t, tn); mem_begin(0); decode(t, tn, 0, NULL, 1); x = txt; xn = txtn; txt = NULL; dbg = 1; if (k) decode(T[(a * 7 + k) % NT].b, T[(a * 7 + k) % NT].n, 0, NULL, 0); dbg = k < 2; decode(t, tn, 0, NULL, 1); dbg = 0; if (xn != txtn || memcmp(x, txt, xn)) differs(txt, txtn, x, xn, "with debugging output"); free(x); mc_outcome("debugging output"); }
    mc_section("new objects"); { static const int ft[] = { MBUS_FRAME_TYPE_ANY, MBUS_FRAME_TYPE_ACK, MBUS_FRAME_TYPE_SHORT, MBUS_FRAME_TYPE_CONTROL, MBUS_FRAME_TYPE_LONG }; for (i = 0; i < 5; i++) for (k = 0; k < 3; k++) for (j = 0; j < 3; j++) if (mc_case()) { int q[3] = { i, k, j }, v; mbus_frame *f[2]; mbus_record *r[2]; mbus_data_record *dr[2]; mbus_frame_data *fd[2]; mc_input(q, sizeof q);
        for (v = 0; v < 2; v++) { mem_begin(FILLS[v ? k : j]); f[v] = mbus_frame_new(ft[i]); r[v] = mbus_record_new(); dr[v] = mbus_data_record_new(); fd[v] = mbus_frame_data_new(); M.on = 0; }
#define EQ(o, m) MC_CHECK(!memcmp(&o[0]->m, &o[1]->m, sizeof o[0]->m), "a new object's " #m " holds what was in memory")
        EQ(f, start1); EQ(f, start2); EQ(f, length1); EQ(f, length2); EQ(f, control); EQ(f, address); EQ(f, control_information); EQ(f, checksum); EQ(f, stop); EQ(f, data); EQ(f, data_size); EQ(f, type); EQ(f, timestamp); EQ(f, next);
        EQ(r, value.real_val); EQ(r, is_numeric); EQ(r, unit); EQ(r, function_medium); EQ(r, quantity); EQ(r, device); EQ(r, tariff); EQ(r, storage_number);
        EQ(dr, drh.dib.dif); EQ(dr, drh.dib.dife); EQ(dr, drh.dib.ndife); EQ(dr, drh.vib.vif); EQ(dr, drh.vib.vife); EQ(dr, drh.vib.nvife); EQ(dr, drh.vib.custom_vif); EQ(dr, data); EQ(dr, data_len); EQ(dr, timestamp); EQ(dr, next);
        EQ(fd, type); EQ(fd, error); EQ(fd, data_var.header); EQ(fd, data_var.record); EQ(fd, data_var.nrecords); EQ(fd, data_var.data); EQ(fd, data_var.data_len); EQ(fd, data_var.more_records_follow); EQ(fd, data_fix);
        for (v = 0; v < 2; v++) { mbus_frame_free(f[v]); mbus_record_free(r[v]); mbus_data_record_free(dr[v]); mbus_frame_data_free(fd[v]); } mc_outcome("new objects"); } }
    mc_section("pairs of telegrams"); for (a = 0; a < NT; a++) for (b = 0; b < NT; b++) for (k = 0; k < 3; k++) for (c = 0; c < 3; c++) if (mc_case()) { int q[4] = { a, b, k, c }; mc_input(q, sizeof q); h[0] = a; h[1] = b; history(h, 2, k, FILLS[c]); }
#ifndef MS
    mc_section("triples of telegrams"); for (a = 0; a < NT; a++) for (b = 0; b < NT; b++) for (c = 0; c < NT; c++) for (k = mc_thorough ? 0 : 2; k < 3; k++) if (mc_thorough || (a + b + c) % 3 == 0) if (mc_case()) { int q[4] = { a, b, c, k }; mc_input(q, sizeof q); h[0] = a; h[1] = b; h[2] = c; history(h, 3, k, FILLS[(a + c) % 3]); }
#endif
    mc_section("receptions"); for (k = 0; k < 2; k++) for (a = 0; a < NT + 3; a++) for (b = 0; b < NT + 3; b++) for (c = -1; c < (mc_thorough ? NT + 3 : 4); c++) if (mc_case()) { int q[4] = { k, a, b, c }; mc_input(q, sizeof q); h[0] = a; h[1] = b; h[2] = c < 0 ? 0 : c < 4 && !mc_thorough ? NT + (c + a) % 3 : c; if (c < 0) on_line(k, h, 2, 0); else { h[3] = h[1]; h[1] = h[2]; h[2] = h[3]; on_line(k, h, 3, 0); } }
    mc_section("every DIF x VIF"); for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) if (mc_case()) { k = 0; s[k++] = a; if (a != 15 && a != 31 && a != 47) { if (a & 0x80) { s[k++] = 0x95; s[k++] = 0x31; } s[k++] = b; if ((b & 127) == 0x7C) { s[k++] = 2; s[k++] = 'y'; s[k++] = 'z'; } if (b & 0x80) { s[k++] = 0xA2 + (a >> 5); s[k++] = 0x0C; } if ((a & 15) == 13) { s[k++] = 3; l = 3; } else l = len[a & 15]; for (i = 0; i < l; i++) s[k++] = 0x2F + i; } memcpy(s + k, "\x01\x13\x2A", 3); var(s, k + 3); }
    mc_section("extension bytes"); for (a = 0; a < 3; a++) for (b = 0; b < 256; b++) for (c = 0; c < 4; c++) if (mc_case()) { static const uint8_t v[] = { 0xFD, 0xFB, 0x93, 0xFF }; k = 0; s[k++] = a == 0 ? 0x01 : a == 1 ? 0x0C : 0x05; s[k++] = v[c]; s[k++] = b; if (b & 0x80) s[k++] = 0x01; for (i = 0; i < 4; i++) s[k++] = 0x11; if (a == 0) k -= 3; var(s, k); }
    mc_section("structures"); { static const uint8_t ST[] = { 0x00, 0x01, 0x0D, 0x0F, 0x1F, 0x2F, 0x80, 0xFF, 0x7C, 0xFC, 0xFD, 0x6D, 0xE2 }; for (n = 0; n <= (mc_thorough ? 5 : 4); n++) { int ix[8] = {0}; for (;;) { if (mc_case()) { for (i = 0; i < n; i++) s[i] = ST[ix[i]]; var(s, n); } for (i = n - 1; i >= 0 && ++ix[i] == (int)sizeof ST; i--) ix[i] = 0; if (i < 0) break; } } }
    mc_section("variable length and texts"); for (c = 0; c < 256; c++) for (j = -1; j < 2; j++) if (mc_case()) { l = c <= 0xBF ? c : c & 15; if (c >= 0xF0) l = c == 0xF5 ? 48 : c == 0xF6 ? 64 : (c - 0xEC) * 4; k = 0; s[k++] = 0x0D; s[k++] = 0x78; s[k++] = c; for (i = 0; i < l + j && k < 240; i++) s[k++] = '0' + i % 10; var(s, k); if (c < 128) { k = 0; s[k++] = 0x01; s[k++] = 0x7C; s[k++] = c; for (i = 0; i < c; i++) s[k++] = '0' + i % 10; for (i = 0; i <= j; i++) s[k++] = 7; var(s, k); } }
    mc_section("manufacturer data"); for (n = 0; n < 240; n++) for (a = 0; a < 2; a++) if (mc_case()) { s[0] = a ? 0x1F : 0x0F; for (i = 0; i < n; i++) s[1 + i] = i; var(s, n + 1); }
    mc_section("dates"); for (i = 0; i < 6; i++) for (a = 0; a < 256; a++) for (b = 0; b < 3; b++) for (c = 0; c < 3; c++) if (mc_case()) { int L = b == 0 ? 2 : b == 1 ? 4 : 6; if (i >= L) continue; s[0] = L == 6 ? 6 : L; s[1] = b ? 0x6D : 0x6C; memset(s + 2, c == 0 ? 0x21 : c == 1 ? 0xFF : 0, L); s[2 + i] = a; var(s, L + 2); }
    mc_section("other telegrams"); for (a = 0; a < 256; a++) for (n = 0; n < 20; n++) if (mc_case()) { char *x; size_t xn; int z = mk_long(s, a & 1 ? 8 : 0x53, 5, a, HB, n > 12 ? 12 : n); uint8_t q[2] = { a, n }; uint8_t u[300]; memset(u, 0x33, n); memcpy(u, HB, n < 12 ? n : 12); z = mk_long(s, (n & 1) ? 0x53 : 8, 5, a, u, n); mc_input(q, 2); mem_begin(0); decode(s, z, 0, NULL, 1); x = txt; xn = txtn; txt = NULL; mem_begin(0xFF); decode(T[(a + n) % NT].b, T[(a + n) % NT].n, 0xFF, NULL, 0); decode(s, z, 0xFF, NULL, 1); if (xn != txtn || memcmp(x, txt, xn)) differs(txt, txtn, x, xn, "with other memory contents"); free(x); mc_outcome("decoded twice"); }
    mc_section("real telegrams"); for (i = 0; i < N_FRAMES; i++) for (a = 0; a < NT; a++) if (mc_case()) { char *x; size_t xn; uint8_t q[2] = { i, a }; mc_input(q, 2); mem_begin(0); decode(FRAMES[i].b, FRAMES[i].n, 0, NULL, 1); x = txt; xn = txtn; txt = NULL; mem_begin(0xFF); decode(T[a].b, T[a].n, 0xFF, NULL, 0); decode(FRAMES[i].b, FRAMES[i].n, 0xFF, NULL, 1); if (xn != txtn || memcmp(x, txt, xn)) differs(txt, txtn, x, xn, "with other memory contents"); free(x); mc_outcome("decoded twice"); }
    mc_section("date decoder"); for (a = 0; a < 65536; a++) if (mc_case()) { struct tm x, y; uint8_t d[8] = { a, a >> 8, a, a >> 8, a >> 4, a, 0, 0 }; mc_input(d, 2); for (k = 2; k <= 6; k += 2) {
#ifndef MS
        memset(&x, 0, sizeof x); memset(&y, 0xFF, sizeof y);
#endif
        mbus_data_tm_decode(&x, d, k); mbus_data_tm_decode(&y, d, k); MC_CHECK(x.tm_year == y.tm_year && x.tm_mon == y.tm_mon && x.tm_mday == y.tm_mday && x.tm_hour == y.tm_hour && x.tm_min == y.tm_min && x.tm_sec == y.tm_sec && x.tm_isdst == y.tm_isdst, "time %d depends on what was there before", k); } mc_outcome("dates"); }
}
