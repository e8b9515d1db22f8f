/* reference decomposition of a variable-format telegram's user data (EN 13757-3 record grammar) */
#ifndef REFVAR_H
#define REFVAR_H
#include <stdint.h>
#include <string.h>
typedef struct { uint8_t dif, dife[10], vif, vife[10]; int ndife, nvife, special, clen, dlen; uint8_t cust[128]; uint8_t data[256]; } rrec;
typedef struct { uint8_t h[12]; int n, more; rrec r[244]; } rvar;
static inline int ref_lvar(int x) { if (x <= 0xBF) return x; if (x >= 0xC0 && x <= 0xC9) return x - 0xC0; if (x >= 0xD0 && x <= 0xD9) return x - 0xD0; if (x >= 0xE0 && x <= 0xEF) return x - 0xE0; if (x >= 0xF0 && x <= 0xF4) return 4 * (x - 0xEC); if (x == 0xF5) return 48; if (x == 0xF6) return 64; return -1; }
/* 0 accepted, -1 rejected, -2 outside the defined grammar (reserved variable length): either verdict */
static int ref_var(const uint8_t *d, int n, rvar *o)
{
    static const int len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, -1, 6, 8 }; int i = 12, j, l;
    o->n = o->more = 0; if (n < 12) return -1; memcpy(o->h, d, 12);
    while (i < n) {
        rrec *r = &o->r[o->n];
        if (d[i] == 0x2F) { i++; continue; }
        r->ndife = r->nvife = r->clen = r->special = r->dlen = 0; r->vif = 0; r->cust[0] = 0;
        r->dif = d[i++];
        if (r->dif == 0x0F || r->dif == 0x1F) { r->special = 1; if (r->dif == 0x1F) o->more = 1; r->dlen = n - i; memcpy(r->data, d + i, n - i); o->n++; return 0; }
        if (r->dif & 0x80) do { if (i >= n || r->ndife == 10) return -1; r->dife[r->ndife++] = d[i]; } while (d[i++] & 0x80);
        if (i >= n) return -1;
        r->vif = d[i++];
        if ((r->vif & 0x7F) == 0x7C) {
            if (i >= n) return -1;
            l = d[i++]; if (l > 127 || i + l > n) return -1;
            for (j = 0; j < l; j++) r->cust[j] = d[i + l - 1 - j];
            r->cust[l] = 0; r->clen = l; i += l;
        }
        if (r->vif & 0x80) do { if (i >= n || r->nvife == 10) return -1; r->vife[r->nvife++] = d[i]; } while (d[i++] & 0x80);
        l = len[r->dif & 15];
        if (l < 0) { if (i >= n) return -1; l = ref_lvar(d[i]); if (l < 0) return -2; l++; }
        if (i + l > n) return -1;
        memcpy(r->data, d + i, l); r->dlen = l; i += l; o->n++;
    }
    return 0;
}
#endif
