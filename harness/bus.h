/* a simulated M-Bus with meters: selection with wildcards, frame count, collisions */
#ifndef BUS_H
#define BUS_H
#include "util.h"
typedef struct { uint8_t id[8]; int prim, sel; } meter;     /* id: 4 BCD bytes LSB first, manufacturer, version, medium */
static meter bm[8]; static int bn, bus_style, bus_dev, bus_tx, bus_link_at, bus_link_kind, bus_failed, bus_sel; static int bus_lost_at, bus_lost_n, bus_lost_kind; 
static int bus_answer(uint8_t *o, const meter *m, int tag) { uint8_t d[20]; memcpy(d, m->id, 8); memset(d + 8, 0, 4); d[12] = 1; d[13] = 0x13; d[14] = tag; return mk_long(o, 0x08, m->prim, 0x72, d, 15); }
static int bus_match(const meter *m, const uint8_t *s)
{
    int i;
    for (i = 0; i < 4; i++) { if ((s[i] >> 4) != 0xF && (s[i] >> 4) != (m->id[i] >> 4)) return 0; if ((s[i] & 15) != 0xF && (s[i] & 15) != (m->id[i] & 15)) return 0; }
    if (!(s[4] == 0xFF && s[5] == 0xFF) && !(s[4] == m->id[4] && s[5] == m->id[5])) return 0;
    return (s[6] == 0xFF || s[6] == m->id[6]) && (s[7] == 0xFF || s[7] == m->id[7]);
}
static void bus_ack(int n) { int st = bus_style; if (!n) return; if (n == 1) { rx_bytes("\xE5", 1); return; } if (bus_dev) st = (st + mc_choose_dev(4)) % 4; if (st == 0) rx_bytes("\xE5", 1); else if (st == 1) rx_bytes("\xE5\xE5\xE5\xE5", n); else if (st == 2) rx_bytes("\xE1\xA5", 2); else rx_bytes("\xE1\xE5\xE5\xE5", 4); }
static void bus_data(int n, const meter *who)
{
    uint8_t t[64]; int k, st = bus_style; if (!n) return; k = bus_answer(t, who, 1); if (n == 1) { rx_bytes(t, k); return; }
    if (bus_dev) st = (st + mc_choose_dev(4)) % 4;
    if (st == 0) { t[9] ^= 0x11; rx_bytes(t, k); } else if (st == 1) { rx_bytes(t, k); rx_bytes(t, k); } else if (st == 2) { rx_bytes("\x68\x09\x68\x01", 4); } else { t[9] ^= 0x11; rx_bytes(t, k); t[9] ^= 0x11; rx_bytes(t, k); rx_bytes("\xE5", 1); }
}
static void bus_write(const uint8_t *b, int n)
{
    int i, c = 0; meter *w = NULL;
    bus_tx++;
    if (bus_link_at && bus_tx >= bus_link_at && bus_link_kind >= 2) { bus_failed = 1; rx_event(bus_link_kind == 2 ? RX_ERR : RX_EOF); if (bus_link_kind == 2) return; return; }
    if (n == 5 && b[0] == 0x10) {
        int ctl = b[1] & 0x4F;
        for (i = 0; i < bn; i++) if (b[2] == bm[i].prim || b[2] == 0xFE || (b[2] == 0xFD && bm[i].sel)) { c++; w = &bm[i]; }
        if (ctl == 0x40) { bus_ack(c); if (b[2] == 0xFD) for (i = 0; i < bn; i++) bm[i].sel = 0; return; }
        if (ctl == 0x4B) { bus_data(c, w); return; }
        mc_fail("unexpected telegram %s", mc_hex(b, n));
    }
    if (n == 17 && b[0] == 0x68 && b[5] == 0xFD && b[6] == 0x52) { bus_sel++; for (i = 0; i < bn; i++) { bm[i].sel = bus_match(&bm[i], b + 7); c += bm[i].sel; } if (bus_lost_n && c && bus_sel >= bus_lost_at && bus_sel < bus_lost_at + bus_lost_n) { if (!bus_lost_kind) return; if ((b[7] & 15) == 15) { rx_bytes("\x65", 1); return; } } bus_ack(c); return; }
    if (bus_failed) return;
    mc_fail("unexpected telegram %s", mc_hex(b, n));
}
static int bus_wout(int n) { (void)n; if (bus_link_at && bus_link_kind < 2 && bus_tx + 1 >= bus_link_at) { bus_failed = 1; bus_tx++; return bus_link_kind == 0 ? W_ERR : n - 1; } return W_FULL; }
static void bus_addr(char *o, const meter *m) { sprintf(o, "%02X%02X%02X%02X%02X%02X%02X%02X", m->id[3], m->id[2], m->id[1], m->id[0], m->id[4], m->id[5], m->id[6], m->id[7]); }
static void bus_meter(int k, const char *id8, int man, int ver, int med, int prim) { int i; for (i = 0; i < 4; i++) bm[k].id[3 - i] = (id8[2 * i] - '0') << 4 | (id8[2 * i + 1] - '0'); bm[k].id[4] = man & 0xFF; bm[k].id[5] = man >> 8; bm[k].id[6] = ver; bm[k].id[7] = med; bm[k].prim = prim; bm[k].sel = 0; }
/* does a mask string match the meter */
static int bus_mask(const char *m, const meter *x) { uint8_t s[8]; int i, v[16]; for (i = 0; i < 16; i++) v[i] = m[i] <= '9' ? m[i] - '0' : (m[i] | 32) - 'a' + 10; for (i = 0; i < 4; i++) s[3 - i] = v[2 * i] << 4 | v[2 * i + 1]; for (i = 4; i < 8; i++) s[i] = v[2 * i] << 4 | v[2 * i + 1]; return bus_match(x, s); }
#endif
