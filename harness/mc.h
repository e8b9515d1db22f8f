/* Bounded exhaustive exploration core: case enumeration with sharding, crash
 * attribution, replay, choice explorer with deviation bound, statistics. */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    volatile uint64_t idx;          /* current case (0 = none yet) */
    volatile uint64_t beat;
    char section[64];
    volatile uint32_t in_len;
    uint8_t input[4096];
    char note[1024];
    /* explorer state lives here too, so that forked children can extend it */
    int ch_len, ch_pos, ch_choice[512], ch_n[512], ch_isdev[512];
    int ch_maxdev, ch_devs, ch_active, ch_overflow;
    uint64_t ch_runs;
    uint64_t n_eval, n_trans, n_trace, n_states;
    /* failure raised inside a forked child */
    volatile int failed; char fail_msg[2048];
} mc_shm_t;
extern mc_shm_t *mc_cur;

extern int mc_thorough;             /* tier */
extern unsigned long mc_seed;
extern uint64_t mc_only;            /* replay: only this case (0 = all) */
extern int mc_verbose;              /* replay narration on */
extern FILE *mc_log;                /* harness log (never the library's stdout) */

void mc_main(void);                 /* provided by each harness */

void mc_section(const char *name);
int mc_case(void);                  /* next case: 1 if this shard runs it */
/* current case's canonical content: recorded for crash attribution, counted as distinct */
void mc_input(const void *p, size_t n);
void mc_input_trivial(const void *p, size_t n);   /* recorded, not counted as non-trivial */
void mc_note(const char *fmt, ...) __attribute__((format(printf,1,2)));
void mc_state(const void *p, size_t n);           /* a state reached (counted once if distinct) */
void mc_trans(unsigned n);
void mc_trace(unsigned n);
void mc_outcome(const char *fmt, ...) __attribute__((format(printf,1,2)));
void mc_eval(unsigned n);                         /* further evaluations inside the case */
void mc_fail(const char *fmt, ...) __attribute__((format(printf,1,2),noreturn));
/* a failure with a stable signature; returns only if the signature is a listed known finding */
void mc_fail_key(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));
extern const char *mc_judged;        /* if set, only failures whose message begins so are judged; any other ends the exploration quietly (another check reports it) */
#define MC_CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

/* explorer */
void mc_explore_begin(int max_deviations);
int mc_explore_next(void);          /* 1: run one more execution */
int mc_choose(int n);               /* free choice 0..n-1 */
int mc_choose_dev(int n);           /* 0 = default; others cost one deviation */
const char *mc_choices(void);

uint64_t mc_hash(const void *p, size_t n, uint64_t h);
const char *mc_hex(const void *p, size_t n);
void mc_child_begin(void);          /* in a forked child: mc_fail() reports to the parent */
#endif
