/* Helpers of the demonstrations: telegrams and a scripted bus behind a handle. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/time.h>
#include "mbus/mbus.h"
#define EXPECT(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
static int fb_long(unsigned char *o, int c, int a, int ci, const void *d, int n)
{
    int i, s = 0; o[0] = o[3] = 0x68; o[1] = o[2] = n + 3; o[4] = c; o[5] = a; o[6] = ci; memcpy(o + 7, d, n);
    for (i = 4; i < n + 7; i++) s += o[i]; o[n + 7] = s; o[n + 8] = 0x16; return n + 9;
}
static int fb_short(unsigned char *o, int c, int a) { o[0] = 0x10; o[1] = c; o[2] = a; o[3] = c + a; o[4] = 0x16; return 5; }
/* a variable telegram of meter 12345678 made from the given records */
static int fb_var(unsigned char *o, const void *rec, int n)
{
    unsigned char b[300] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0x10, 0, 0 }; memcpy(b + 12, rec, n); return fb_long(o, 0x08, 5, 0x72, b, n + 12);
}
static mbus_frame *fb_parse(const unsigned char *b, int n)
{
    mbus_frame *f = calloc(1, sizeof *f); unsigned char c[300]; memcpy(c, b, n); EXPECT(mbus_parse(f, c, n) == 0, "telegram refused: %s", mbus_error_str()); return f;
}
static mbus_frame_data *fb_data(const void *rec, int n)
{
    unsigned char o[300]; int l = fb_var(o, rec, n); mbus_frame *f = fb_parse(o, l); mbus_frame_data *d = mbus_frame_data_new();
    EXPECT(mbus_frame_data_parse(f, d) == 0, "data refused: %s", mbus_error_str()); return d;
}
/* scripted bus: fb_answer[i] is read after the (i+1)th telegram sent; every telegram of a step is one reception */
typedef struct { int kind; unsigned char b[300]; int n; } fb_rx; /* kind: 0 telegram, else the result of the reception */
static fb_rx fb_q[4000]; static int fb_head, fb_tail; static unsigned char fb_sent[4000][300]; static int fb_sentn[4000], fb_nsent;
static void (*fb_on_send)(const unsigned char *b, int n);
static void fb_push(const unsigned char *b, int n) { fb_q[fb_tail].kind = 0; memcpy(fb_q[fb_tail].b, b, n); fb_q[fb_tail++].n = n; }
static void fb_push_result(int r) { fb_q[fb_tail++].kind = r; }
static int fb_send(mbus_handle *h, mbus_frame *f)
{
    unsigned char b[300]; int n = mbus_frame_pack(f, b, sizeof b); (void)h; if (n < 0) return -1;
    memcpy(fb_sent[fb_nsent], b, n); fb_sentn[fb_nsent++] = n; if (fb_on_send) fb_on_send(b, n); return 0;
}
static int fb_recv(mbus_handle *h, mbus_frame *f)
{
    fb_rx *r; (void)h; if (fb_head == fb_tail) return MBUS_RECV_RESULT_TIMEOUT; r = &fb_q[fb_head++]; if (r->kind) return r->kind;
    return mbus_parse(f, r->b, r->n) == 0 ? MBUS_RECV_RESULT_OK : MBUS_RECV_RESULT_INVALID;
}
static mbus_handle *fb_bus(void) { mbus_handle *h = mbus_context_tcp("127.0.0.1", 1); h->send = fb_send; h->recv = fb_recv; return h; }
/* a TCP handle on one end of a socket pair; the other end is *peer; reads time out after 0.2 s */
static mbus_handle *fb_tcp(int *peer)
{
    int s[2]; struct timeval tv = { 0, 200000 }; mbus_handle *h = mbus_context_tcp("127.0.0.1", 1); EXPECT(socketpair(AF_UNIX, SOCK_STREAM, 0, s) == 0, "socketpair");
    setsockopt(s[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); h->fd = s[0]; *peer = s[1]; return h;
}
