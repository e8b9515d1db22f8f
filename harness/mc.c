#define _GNU_SOURCE
#include "mc.h"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>

mc_shm_t *mc_cur;
int mc_thorough, mc_verbose;
unsigned long mc_seed = 1;
uint64_t mc_only;
FILE *mc_log;

static const char *out_path = "/dev/null", *shm_path, *bm_path, *known_path;
static uint64_t shard, nshards = 1, upto;
static uint64_t c_idx, c_nontriv;
static uint64_t *bm_in, *bm_st;          /* shared bitmaps (all shards) */
#define BM_BITS (1ULL << 28)
static char sec[64];
static int is_child;
static uint64_t cur_recorded;
static char *knownbuf;
static struct { char key[160]; uint64_t n; } known_hit[64];
static int n_known_hit;

static struct { char s[96]; uint64_t n; } outc[512];
static int n_outc;
static char *samples[64]; static int n_samples, sec_samples;
static struct { char s[64]; uint64_t n; } secs[128]; static int n_secs;

uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
    const uint8_t *b = p; h ^= 0x9E3779B97F4A7C15ULL + n;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0xff51afd7ed558ccdULL; h ^= h >> 32; b += 8; n -= 8; }
    while (n--) { h = (h ^ *b++) * 0x100000001b3ULL; h ^= h >> 29; }
    h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h;
}
static int bm_set(uint64_t *bm, uint64_t h)
{
    uint64_t bit = h & (BM_BITS - 1), m = 1ULL << (bit & 63);
    if (bm[bit >> 6] & m) return 0;
    return !(__atomic_fetch_or(&bm[bit >> 6], m, __ATOMIC_RELAXED) & m);
}
const char *mc_hex(const void *p, size_t n)
{
    static char b[4][4096 * 2 + 8]; static int k; char *o = b[k = (k + 1) & 3]; const uint8_t *s = p; size_t i;
    if (n > 4000) n = 4000;
    for (i = 0; i < n; i++) sprintf(o + 2 * i, "%02X", s[i]);
    o[2 * n] = 0; return o;
}
void mc_section(const char *name)
{
    snprintf(sec, sizeof sec, "%s", name); memcpy(mc_cur->section, sec, sizeof sec);
    sec_samples = 0;
    if (n_secs < 128) { snprintf(secs[n_secs].s, 64, "%s", name); secs[n_secs++].n = 0; }
}
int mc_case(void)
{
    c_idx++;
    if (mc_only ? c_idx != mc_only : c_idx % nshards != shard) return 0;
    if (upto && c_idx > upto) return 0;
    mc_cur->idx = c_idx; mc_cur->beat++; mc_cur->in_len = 0; mc_cur->note[0] = 0;
    mc_cur->n_eval++; cur_recorded = 0;
    if (n_secs) secs[n_secs - 1].n++;
    return 1;
}
void mc_eval(unsigned n) { mc_cur->n_eval += n; mc_cur->beat++; }
void mc_input_trivial(const void *p, size_t n)
{
    if (n > sizeof mc_cur->input) n = sizeof mc_cur->input;
    memcpy(mc_cur->input, p, n); mc_cur->in_len = n;
}
void mc_input(const void *p, size_t n)
{
    mc_input_trivial(p, n);
    if (bm_in && bm_set(bm_in, mc_hash(p, n, 7))) c_nontriv++;
    if (sec_samples < 2 && n_samples < 60 && (c_idx & 7) == (shard & 7)) {
        char *s; if (asprintf(&s, "%s#%llu: %s", sec, (unsigned long long)c_idx, mc_hex(p, n > 96 ? 96 : n)) > 0) { samples[n_samples++] = s; sec_samples++; }
    }
}
void mc_note(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(mc_cur->note, sizeof mc_cur->note, fmt, ap); va_end(ap);
    if (sec_samples < 2 && n_samples < 60) {
        char *s; if (asprintf(&s, "%s#%llu: %s", sec, (unsigned long long)c_idx, mc_cur->note) > 0) { samples[n_samples++] = s; sec_samples++; }
    }
    if (mc_verbose) fprintf(mc_log, "  note: %s\n", mc_cur->note);
}
void mc_state(const void *p, size_t n) { if (bm_st && bm_set(bm_st, mc_hash(p, n, 11))) mc_cur->n_states++; }
void mc_trans(unsigned n) { mc_cur->n_trans += n; }
void mc_trace(unsigned n) { mc_cur->n_trace += n; }
void mc_outcome(const char *fmt, ...)
{
    char b[96]; va_list ap; int i; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (i = 0; i < n_outc; i++) if (!strcmp(outc[i].s, b)) { outc[i].n++; return; }
    if (n_outc < 512) { strcpy(outc[n_outc].s, b); outc[n_outc++].n = 1; }
}
static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void write_out(const char *status, const char *msg)
{
    int i; FILE *f = fopen(out_path, "w"); if (!f) _exit(3);
    fprintf(f, "{\"status\":"); jstr(f, status); fprintf(f, ",\"msg\":"); jstr(f, msg);
    fprintf(f, ",\"case\":%llu,\"section\":", (unsigned long long)mc_cur->idx); jstr(f, sec);
    fprintf(f, ",\"input\":"); jstr(f, mc_hex(mc_cur->input, mc_cur->in_len));
    fprintf(f, ",\"note\":"); jstr(f, mc_cur->note);
    fprintf(f, ",\"choices\":"); jstr(f, mc_cur->ch_active ? mc_choices() : "");
    fprintf(f, ",\"evaluations\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu",
            (unsigned long long)mc_cur->n_eval, (unsigned long long)c_nontriv, (unsigned long long)mc_cur->n_states, (unsigned long long)mc_cur->n_trans, (unsigned long long)mc_cur->n_trace);
    fprintf(f, ",\"outcomes\":{"); for (i = 0; i < n_outc; i++) { if (i) fputc(',', f); jstr(f, outc[i].s); fprintf(f, ":%llu", (unsigned long long)outc[i].n); }
    fprintf(f, "},\"sections\":{"); for (i = 0; i < n_secs; i++) { if (i) fputc(',', f); jstr(f, secs[i].s); fprintf(f, ":%llu", (unsigned long long)secs[i].n); }
    fprintf(f, "},\"known\":{"); for (i = 0; i < n_known_hit; i++) { if (i) fputc(',', f); jstr(f, known_hit[i].key); fprintf(f, ":%llu", (unsigned long long)known_hit[i].n); }
    fprintf(f, "},\"samples\":["); for (i = 0; i < n_samples; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
    fprintf(f, "]}\n"); fclose(f);
}
const char *mc_judged;
static void vfail(const char *fmt, va_list ap)
{
    char b[2048]; vsnprintf(b, sizeof b, fmt, ap);
    if (mc_judged && strncmp(b, mc_judged, strlen(mc_judged))) { write_out("ok", ""); _exit(0); }
    if (is_child) { memcpy(mc_cur->fail_msg, b, sizeof b); mc_cur->failed = 1; _exit(10); }
    if (mc_verbose) fprintf(mc_log, "FAIL %s#%llu: %s\n", sec, (unsigned long long)mc_cur->idx, b), fflush(mc_log);
    write_out("fail", b); _exit(10);
}
void mc_fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(fmt, ap); va_end(ap); abort(); }
void mc_fail_key(const char *key, const char *fmt, ...)
{
    va_list ap; int i;
    if (knownbuf) {
        char line[200]; snprintf(line, sizeof line, "\n%s\n", key);
        if (strstr(knownbuf, line)) {
            for (i = 0; i < n_known_hit; i++) if (!strcmp(known_hit[i].key, key)) { known_hit[i].n++; return; }
            if (n_known_hit < 64) { snprintf(known_hit[n_known_hit].key, 160, "%s", key); known_hit[n_known_hit++].n = 1; }
            return;
        }
    }
    va_start(ap, fmt); vfail(fmt, ap); va_end(ap);
}
/* ---- explorer ---- */
void mc_explore_begin(int maxdev)
{
    mc_cur->ch_len = mc_cur->ch_pos = 0; mc_cur->ch_maxdev = maxdev; mc_cur->ch_active = 1; mc_cur->ch_runs = 0; mc_cur->ch_devs = 0;
}
int mc_explore_next(void)
{
    mc_shm_t *c = mc_cur; c->beat++;
    if (c->ch_runs == 0) { c->ch_runs = 1; c->ch_pos = c->ch_devs = 0; c->ch_len = 0; return 1; }
    c->ch_len = c->ch_pos;                       /* choices beyond were not made */
    while (c->ch_len > 0) {
        int k = c->ch_len - 1;
        if (c->ch_choice[k] + 1 < c->ch_n[k]) {
            c->ch_choice[k]++; c->ch_pos = 0; c->ch_devs = 0; c->ch_runs++; c->n_eval++; cur_recorded = 0; return 1;
        }
        c->ch_len--;
    }
    c->ch_active = 0; return 0;
}
static int choose(int n, int dev)
{
    mc_shm_t *c = mc_cur; int v;
    if (n <= 1 || (dev && c->ch_devs >= c->ch_maxdev)) return 0;
    if (c->ch_pos < c->ch_len) v = c->ch_choice[c->ch_pos];
    else {
        if (c->ch_len >= 512) mc_fail("explorer: more than 512 choices in one execution (runaway loop in the code under test)");
        v = 0; c->ch_choice[c->ch_len] = 0; c->ch_n[c->ch_len] = n; c->ch_isdev[c->ch_len] = dev; c->ch_len++;
    }
    c->ch_pos++; if (dev && v) c->ch_devs++;
    return v;
}
int mc_choose(int n) { return choose(n, 0); }
int mc_choose_dev(int n) { return choose(n, 1); }
const char *mc_choices(void)
{
    static char b[4096]; int i, n = 0; b[0] = 0;
    for (i = 0; i < mc_cur->ch_pos && n < 4000; i++) n += sprintf(b + n, "%s%d/%d", i ? "," : "", mc_cur->ch_choice[i], mc_cur->ch_n[i]);
    return b;
}
void mc_child_begin(void)
{
    struct itimerval it = { {2, 0}, {2, 0} };
    is_child = 1; setitimer(ITIMER_PROF, &it, NULL);
}

/* ---- hang detector: CPU time without progress ---- */
static void on_vtalrm(int s)
{
    static uint64_t last; static int same;
    (void)s;
    if (mc_cur->beat != last) { last = mc_cur->beat; same = 0; return; }
    if (++same >= 6 && mc_cur->idx) {
        const char m[] = "the code under test did not terminate (12 s of CPU time in one case)";
        if (is_child) { memcpy(mc_cur->fail_msg, m, sizeof m); mc_cur->failed = 1; _exit(10); }
        write_out("fail", m); _exit(10);
    }
}
static void *map_file(const char *path, size_t n)
{
    void *p; int fd;
    if (!path) { p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }
    fd = open(path, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, n)) { perror(path); _exit(3); }
    p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); return p;
}
int main(int argc, char **argv)
{
    int i; struct itimerval it = { {2, 0}, {2, 0} }; struct sigaction sa; int lf;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--shard")) sscanf(argv[i + 1], "%lu/%lu", &shard, &nshards);
        else if (!strcmp(argv[i], "--tier")) mc_thorough = !strcmp(argv[i + 1], "deep") ? 2 : !strcmp(argv[i + 1], "thorough");
        else if (!strcmp(argv[i], "--out")) out_path = argv[i + 1];
        else if (!strcmp(argv[i], "--shm")) shm_path = argv[i + 1];
        else if (!strcmp(argv[i], "--bitmap")) bm_path = argv[i + 1];
        else if (!strcmp(argv[i], "--known")) known_path = argv[i + 1];
        else if (!strcmp(argv[i], "--only")) mc_only = strtoull(argv[i + 1], 0, 10), mc_verbose = 1;
        else if (!strcmp(argv[i], "--upto")) upto = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--seed")) mc_seed = strtoul(argv[i + 1], 0, 10);
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
    }
    lf = dup(2); fcntl(lf, F_SETFD, FD_CLOEXEC); mc_log = fdopen(lf, "w");
    if (!getenv("MC_KEEP_STDIO")) {
        int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); dup2(n, 0); close(n);
        setvbuf(stderr, malloc(65536), _IOFBF, 65536); setvbuf(stdout, malloc(65536), _IOFBF, 65536);
    }
    setenv("TZ", "UTC", 1);
    mc_cur = map_file(shm_path, sizeof *mc_cur);
    memset(mc_cur, 0, sizeof *mc_cur);
    if (bm_path) { bm_in = map_file(bm_path, BM_BITS / 8 * 2); bm_st = bm_in + BM_BITS / 64; }
    else { bm_in = map_file(NULL, BM_BITS / 8 * 2); bm_st = bm_in + BM_BITS / 64; }
    if (known_path) {
        FILE *f = fopen(known_path, "r"); if (f) { knownbuf = calloc(1, 1 << 20); knownbuf[0] = '\n'; if (fread(knownbuf + 1, 1, (1 << 20) - 3, f)) {} fclose(f); strcat(knownbuf, "\n"); }
    }
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_vtalrm; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, NULL);
    setitimer(ITIMER_PROF, &it, NULL);
    mc_main();
    write_out("ok", "");
    _exit(0);
}
