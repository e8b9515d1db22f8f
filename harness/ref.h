/* Boring reference model of the M-Bus link layer (EN 13757-2 / IEC 870-5 FT1.2). */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <string.h>
enum { RT_ACK = 1, RT_SHORT = 2, RT_CONTROL = 3, RT_LONG = 4 };
typedef struct { int type, c, a, ci, n; uint8_t d[256]; } rframe;
enum { RV_BAD = -1, RV_OK = 0, RV_PART = 1 };
static inline int ref_ctl_short(int c) { return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static inline int ref_ctl_long(int c) { return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }
/* RV_OK: exactly one telegram; RV_PART: proper prefix of some telegram (*need = bytes certain to be
 * missing, i.e. missing bytes of the shortest completion for what is known); RV_BAD otherwise.
 * Bytes after a lone E5h are outside the grammar: *loose is set, either verdict is tolerated. */
static inline int ref_parse(const uint8_t *b, int n, rframe *f, int *need, int *loose)
{
    int i, L, s = 0;
    *loose = 0; *need = 0; memset(f, 0, sizeof *f);
    if (n <= 0) return RV_BAD;
    if (b[0] == 0xE5) { if (n > 1) { *loose = 1; } f->type = RT_ACK; return RV_OK; }
    if (b[0] == 0x10) {
        if (n > 5) return RV_BAD;
        if (n > 1 && !ref_ctl_short(b[1])) return RV_BAD;
        if (n > 3 && b[3] != ((b[1] + b[2]) & 0xFF)) return RV_BAD;
        if (n > 4 && b[4] != 0x16) return RV_BAD;
        if (n < 5) { *need = 5 - n; return RV_PART; }
        f->type = RT_SHORT; f->c = b[1]; f->a = b[2]; return RV_OK;
    }
    if (b[0] != 0x68) return RV_BAD;
    if (n > 1 && b[1] < 3) return RV_BAD;
    if (n > 2 && b[1] != b[2]) return RV_BAD;
    if (n > 3 && b[3] != 0x68) return RV_BAD;
    if (n > 4 && !ref_ctl_long(b[4])) return RV_BAD;
    if (n == 1) { *need = 8; return RV_PART; }
    L = b[1];
    if (n > L + 6) return RV_BAD;
    for (i = 4; i < 4 + L && i < n; i++) s += b[i];
    if (n > L + 4 && b[L + 4] != (s & 0xFF)) return RV_BAD;
    if (n > L + 5 && b[L + 5] != 0x16) return RV_BAD;
    if (n < L + 6) { *need = L + 6 - n; return RV_PART; }
    f->type = L == 3 ? RT_CONTROL : RT_LONG; f->c = b[4]; f->a = b[5]; f->ci = b[6]; f->n = L - 3; memcpy(f->d, b + 7, L - 3);
    return RV_OK;
}
static inline int ref_pack(const rframe *f, uint8_t *o)
{
    int i, s, k = 0;
    switch (f->type) {
    case RT_ACK: o[0] = 0xE5; return 1;
    case RT_SHORT: o[0] = 0x10; o[1] = f->c; o[2] = f->a; o[3] = f->c + f->a; o[4] = 0x16; return 5;
    default:
        o[k++] = 0x68; o[k++] = f->n + 3; o[k++] = f->n + 3; o[k++] = 0x68; o[k++] = f->c; o[k++] = f->a; o[k++] = f->ci;
        s = f->c + f->a + f->ci;
        for (i = 0; i < f->n; i++) { o[k++] = f->d[i]; s += f->d[i]; }
        o[k++] = s; o[k++] = 0x16; return k;
    }
}
#endif
