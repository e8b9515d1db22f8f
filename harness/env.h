/* Simulated environment: every system call and allocation of the code under test
 * (its object files have these symbols redirected with objcopy --redefine-sym). */
#ifndef ENV_H
#define ENV_H
#include "mc.h"
#include <sys/types.h>
#include <termios.h>
enum { RX_BYTE, RX_SILENCE, RX_EINTR, RX_EAGAIN, RX_EOF, RX_ERR };
enum { W_FULL = -1, W_ERR = -2, W_EINTR = -3, W_EAGAIN = -4 };   /* >=0: short count */
#define RXMAX 65536
typedef struct {
    int tcp;
    struct { uint8_t kind, byte; } rx[RXMAX]; int rx_h, rx_t;
    int (*chunk)(int avail, int want);          /* how many bytes this read delivers (1..avail) */
    int (*write_outcome)(int len);              /* W_* or short count */
    void (*on_write)(const uint8_t *b, int n);  /* the simulated bus */
    uint8_t tx[RXMAX]; int tx_n;                /* everything written */
    int tx_ofs[4096], tx_cnt;                   /* start of each write */
    uint8_t tx_cut[4096];                       /* not everything was accepted */
    uint8_t rxlog[RXMAX]; int rxlog_n, rxlog_over, brk[4096], brk_n; /* everything read; where a reception ended without a telegram */
    int reads, read_budget, silences, drained_at;
    int max_over;                               /* largest (requested - available) */
    /* descriptors */
    int fd_open[64], fd_kind[64], fd_fl[64], fd_dom[64], fd_type[64], n_fd, n_open_now;
    int bad_fd;                                 /* uses of a descriptor that is not open */
    char bad_fd_what[64];
    int fault_errno;                            /* what a failing step sets errno to (0: its usual reason) */
    int fd_base, neg_fd;                        /* number of the first descriptor; uses of -1 */
    int rx_fd, w_fd, cross;                     /* the connection the queued bytes belong to (-1 any); last one written to; reads elsewhere */
    /* faults in connect path, by call index of each kind */
    int (*fault)(const char *what);             /* nonzero: make this call fail */
    int tcset_n, tcset_fd; struct termios tcset; int tcset_act; struct termios fd_tc[64]; uint8_t fd_tcn[64];   /* last setting, and that of each descriptor */
    int sockopt_n; long rcvtimeo_us, sndtimeo_us; int saw_rcv, saw_snd;
    char open_path[5000]; int open_flags; char gai_host[5000], gai_port[32]; int gai_n, gai_live, naddr;
    int conn_addr;                              /* index of the address connected */
    /* time */
    long now;
} env_t;
extern env_t E;
void env_reset(int tcp);
void env_clear_rx(void);
void rx_bytes(const void *p, int n);
void rx_event(int kind);
int  rx_left(void);             /* bytes not consumed */
int  rx_items(void);            /* items not consumed */
/* the k-th telegram written since the last reset */
const uint8_t *tx_frame(int k, int *n);

/* allocation */
typedef struct { long count, fail_at, fail_at2, fail_from, failed; long live; int fill; int on; long bad_free; } mem_t;
extern mem_t M;
void mem_begin(int fill);       /* start tracking: forget all, live = 0 */
long mem_live(void);
const char *mem_describe(void);
/* return 1 if any live block's address range covers p (used by checks of ownership) */
int mem_is_live(const void *p);
#endif
