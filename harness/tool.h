/* run one of the command line programs (its main renamed tool_main) in a forked child on the simulated line */
#ifndef TOOL_H
#define TOOL_H
#include "util.h"
#include <setjmp.h>
#include <unistd.h>
#include <sys/wait.h>
static jmp_buf tool_jb; static int tool_st; static char *tool_out, *tool_err; static size_t tool_outn, tool_errn; static FILE *tool_fo, *tool_fe;
int tool_main(int, char **);
/* where the programs are told to connect to */
#define N_DEST 10
static const char *tool_dev = "/dev/sim", *tool_host = "gateway", *tool_port = "8000";
static void tool_to(int i) { static const char *P[N_DEST] = { "8000", "1", "80", "255", "256", "10001", "32767", "32768", "50505", "65535" }, *D[N_DEST] = { "/dev/sim", "/dev/ttyUSB0", "/dev/ttyS12", "x", "/dev/serial/by-id/usb-Silicon_Labs_CP2102_USB_to_UART_Bridge_Controller_0001-if00-port0", "-", "5", "/dev/tty 1", "12345678FFFFFFFF", "%s%d" }, *N[N_DEST] = { "gateway", "10.0.0.1", "::1", "m-bus.example.org", "a", "gateway.very.long.name.of.a.sub.domain.somewhere.in.a.building.automation.network.example.org", "5", "12345678FFFFFFFF", "%s%d", "255.255.255.255" }; tool_dev = D[i]; tool_host = N[i]; tool_port = P[i]; }
/* what earlier calls left on the stack */
__attribute__((noinline, no_sanitize_address)) static void tool_dirt(int k) { volatile int b[16384]; for (size_t i = 0; i < sizeof b / sizeof *b; i++) b[i] = k ? MBUS_FRAME_TYPE_ACK : 0x36363636; }
static long tool_case = -1; static int tool_k;
void env_exit(int s) { tool_st = s; longjmp(tool_jb, 1); }
void env__exit(int s) { env_exit(s); }
/* child: setup() on the fresh line, run, check(); parent: failures are passed on */
static void tool_run(char **argv, int tcp, void (*setup)(void), void (*check)(void))
{
    pid_t p; int st, argc = 0; if (tool_case != (long)mc_cur->idx) { tool_case = mc_cur->idx; tool_k = tool_case & 1; } tool_k ^= 1; while (argv[argc]) argc++;
    fflush(NULL); p = fork(); if (p < 0) mc_fail("fork failed");
    if (!p) {
        FILE *so = stdout, *se = stderr; mc_child_begin(); env_reset(tcp); setup();
        tool_fo = stdout = open_memstream(&tool_out, &tool_outn); tool_fe = stderr = open_memstream(&tool_err, &tool_errn);
        tool_dirt(tool_k); if (!setjmp(tool_jb)) tool_st = tool_main(argc, argv);
        fclose(tool_fo); fclose(tool_fe); stdout = so; stderr = se; tool_st &= 0xFF;
        if (mc_verbose) fprintf(mc_log, "  status %d, stdout <<%s>>, stderr <<%s>>\n", tool_st, tool_out, tool_err), fflush(mc_log);
        check(); _exit(0);
    }
    while (waitpid(p, &st, 0) < 0) ;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { char m[2048]; memcpy(m, mc_cur->fail_msg, sizeof m); mc_fail("%s", m); }
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    _exit(WEXITSTATUS(st));
}
#endif
