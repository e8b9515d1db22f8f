/* helpers shared by the harnesses */
#ifndef UTIL_H
#define UTIL_H
#include "mc.h"
#include "env.h"
#include "ref.h"
#include "mbus/mbus.h"
#include "mbus/mbus-protocol.h"
#include "mbus/mbus-protocol-aux.h"
#include "mbus/mbus-serial.h"
#include "mbus/mbus-tcp.h"
/* copy of b[0..n) that ends exactly at an inaccessible page; slot 0..3 */
uint8_t *guard_copy(int slot, const void *b, size_t n);
/* n writable bytes ending at an inaccessible page, preceded by a canary */
uint8_t *guard_buf(int slot, size_t n);
int guard_canary_ok(int slot, size_t n);
void frame_fill(mbus_frame *f, int fill);
/* build a telegram: returns size */
int mk_long(uint8_t *o, int c, int a, int ci, const uint8_t *d, int n);
int mk_short(uint8_t *o, int c, int a);
/* data bytes with a position dependent pattern; kind selects the pattern */
void pat(uint8_t *d, int n, int kind);
/* mbus_parse of exactly these bytes into *f (fresh: filled with a pattern first) */
int parse_fresh(mbus_frame *f, const uint8_t *b, int n, int fill);
#endif
#ifndef UTIL2_H
#define UTIL2_H
/* a connected handle on the simulated line; purge: option value, or -1 = leave default */
mbus_handle *line_open(int tcp, int purge);
void line_again(mbus_handle *h); void line_close(mbus_handle *h);
/* events recorded by the registered callbacks */
extern uint8_t ev_rx[65536], ev_tx[65536]; extern int ev_rx_n, ev_tx_n, ev_rx_calls, ev_tx_calls, ev_type_bad;
void ev_reset(void);
int frame_is(const mbus_frame *f, const rframe *r);     /* same telegram */
/* reference receive loop over a copy of the current rx queue: verdict per the documented rules */
typedef struct { int verdict, consumed_items; uint8_t bytes[4096]; int n; rframe f; } rxref;
void ref_receive(int tcp, int from_item, rxref *o);
/* selection telegram for a mask */
__attribute__((unused)) static int ref_select(uint8_t *o, const char *m)
{
    uint8_t d[8]; int i, v[16]; for (i = 0; i < 16; i++) v[i] = m[i] <= '9' ? m[i] - '0' : (m[i] | 32) - 'a' + 10;
    for (i = 0; i < 4; i++) d[3 - i] = v[2 * i] << 4 | v[2 * i + 1];
    for (i = 4; i < 8; i++) d[i] = v[2 * i] << 4 | v[2 * i + 1];
    return mk_long(o, 0x73, 0xFD, 0x52, d, 8);
}
#endif
