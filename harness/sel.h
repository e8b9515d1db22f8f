/* line answers to a selection or a request, and the verdicts the standard allows for them */
#include "util.h"
enum { S_SILENT, S_ACK, S_ACK2, S_ACKX, S_GARBAGE, S_BAD, S_TRUNC, S_LONG, S_SHORT, S_ECHO_ACK, S_EIO, S_EOF, S_ACK_EIO, S_LONG2, S_ERRTEL, S_FIXED, S_ECHO_LONG, S_LONG_CUT, S_CTRL, S_M2S, S_LONGTAIL, S_ACKS, S_BADX, NS };
static const char *sn[NS] = { "silence", "ack", "ack ack", "ack garbage", "garbage", "bad checksum", "truncated", "answer", "short(m2s)", "echo ack", "EIO", "EOF", "ack EIO", "answer answer", "error telegram", "fixed answer", "echo answer", "answer+truncated", "control telegram", "long(m2s)", "answer garbage", "ack ack ack answer", "bad checksum, ack, answer" };
enum { VN = 1, VS = 2, VC = 4, VE = 8 };       /* nothing, single, collision, error */
static const char *vname(int m) { static char b[64]; b[0] = 0; if (m & VN) strcat(b, "nothing "); if (m & VS) strcat(b, "single "); if (m & VC) strcat(b, "collision "); if (m & VE) strcat(b, "error "); return b; }
static int vmask(int r) { return r == MBUS_PROBE_NOTHING ? VN : r == MBUS_PROBE_SINGLE ? VS : r == MBUS_PROBE_COLLISION ? VC : r == MBUS_PROBE_ERROR ? VE : 0; }
static uint8_t sh[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0, 0, 0, 0 };
static int answer(uint8_t *o, int c) { uint8_t d[32]; memcpy(d, sh, 12); d[12] = 0x01; d[13] = 0x13; d[14] = 0x55; return mk_long(o, c, 5, 0x72, d, 15); }
static int torn;                               /* so many further pieces on the line where several meters answer */
static void pieces(void) { int i; for (i = 0; i < torn; i++) rx_bytes(i & 1 ? "\x33" : "\xE5", 1); }
static void put_answer(int k, const uint8_t *echo, int en)
{
    uint8_t t[300]; int n = answer(t, 0x08); static const uint8_t fx[16] = { 1, 2, 3, 4, 5, 0, 0x29, 0x29, 1, 0, 0, 0, 5, 0, 0, 0 };
    switch (k) {
    case S_ACK: rx_bytes("\xE5", 1); break;
    case S_ACK2: rx_bytes("\xE5\xE5", 2); break;
    case S_ACKS: rx_bytes("\xE5\xE5\xE5", 3); pieces(); rx_bytes(t, n); break;
    case S_BADX: t[n - 2] ^= 1; rx_bytes(t, n); rx_bytes("\xE5", 1); pieces(); t[n - 2] ^= 1; rx_bytes(t, n); break;
    case S_ACKX: rx_bytes("\xE5\x33", 2); break;
    case S_GARBAGE: rx_bytes("\x33\xCC", 2); break;
    case S_BAD: t[n - 2] ^= 1; rx_bytes(t, n); break;
    case S_TRUNC: rx_bytes(t, n - 4); rx_event(RX_SILENCE); break;
    case S_LONG: rx_bytes(t, n); break;
    case S_LONG2: rx_bytes(t, n); rx_bytes(t, n); break;
    case S_LONGTAIL: rx_bytes(t, n); rx_bytes("\x33", 1); break;
    case S_LONG_CUT: rx_bytes(t, n); rx_bytes(t, n - 2); break;
    case S_SHORT: n = mk_short(t, 0x40, 5); rx_bytes(t, n); break;
    case S_ECHO_ACK: rx_bytes(echo, en); rx_bytes("\xE5", 1); break;
    case S_ECHO_LONG: rx_bytes(echo, en); rx_bytes(t, n); break;
    case S_EIO: rx_event(RX_ERR); break;
    case S_EOF: if (E.tcp) rx_event(RX_EOF); break;
    case S_ACK_EIO: rx_bytes("\xE5", 1); rx_event(RX_ERR); break;
    case S_ERRTEL: n = mk_long(t, 0x08, 5, 0x70, (const uint8_t *)"\x01", 1); rx_bytes(t, n); break;
    case S_FIXED: n = mk_long(t, 0x08, 5, 0x73, fx, 16); rx_bytes(t, n); break;
    case S_CTRL: n = mk_long(t, 0x08, 5, 0x72, fx, 0); rx_bytes(t, n); break;
    case S_M2S: n = answer(t, 0x53); rx_bytes(t, n); break;
    default: break; }
}
static void ref_addr(char *o) { sprintf(o, "%02X%02X%02X%02X%02X%02X%02X%02X", sh[3], sh[2], sh[1], sh[0], sh[4], sh[5], sh[6], sh[7]); }
/* verdicts allowed when the line answers k to a selection */
static int sel_verdict(int tcp, int k)
{
    switch (k) {
    case S_SILENT: return VN;
    case S_ACK: case S_ECHO_ACK: return VS;
    case S_ACK2: case S_ACKX: case S_ACKS: case S_BADX: case S_GARBAGE: case S_BAD: return VC;
    case S_TRUNC: return tcp ? VN | VC : VC;
    case S_EIO: return VE;
    case S_EOF: return tcp ? VE : VN;
    case S_ACK_EIO: return VS | VE;
    case S_SHORT: case S_M2S: return VN;                /* indistinguishable from an echo */
    default: return VN | VC; }                          /* a telegram that is no confirmation of a selection */
}
/* ... and to the request that follows a successful selection */
static int req_verdict(int tcp, int k)
{
    switch (k) {
    case S_SILENT: return VN;
    case S_LONG: case S_ECHO_LONG: return VS;
    case S_LONG2: case S_LONGTAIL: case S_BADX: case S_GARBAGE: case S_BAD: return VC;
    case S_LONG_CUT: return tcp ? VS | VC : VC;
    case S_TRUNC: return tcp ? VN | VC : VC;
    case S_EIO: return VE;
    case S_EOF: return tcp ? VE : VN;
    case S_ACK2: case S_ACKX: case S_ACKS: return VC;
    case S_ACK_EIO: return VN | VE;
    case S_SHORT: case S_M2S: return VN;
    default: return VN | VC; }                          /* not an answer that carries an address */
}
