/* programs: a failing step of setting up the line, and memory that runs out */
#ifndef SETUP_H
#define SETUP_H
/* the step of setting up the line that fails */
static int st_at, st_n; static const char *st_what;
static int st_fault(const char *w) { if (!strcmp(w, "close") || !strcmp(w, "tcdrain")) return 0; if (++st_n != st_at) return 0; st_what = w; return 1; }
static int st_verdict(void)     /* 1: judged here */
{
    if (!st_what) return 0;
    if (E.tx_cnt > 0) { MC_CHECK(!strcmp(st_what, "socket") || !strcmp(st_what, "connect"), "goes on although %s failed", st_what); return 0; }
    MC_CHECK(tool_st != 0, "success although %s failed", st_what); MC_CHECK(tool_err[0], "no message about the failing %s", st_what);
    MC_CHECK(!strstr(tool_out, "Found") && !strstr(tool_out, "Collision"), "reports a meter although %s failed", st_what); mc_outcome("no connection"); return 1;
}
/* memory that runs out while the program works */
static int oom_at, oom_hit;
static void st_setup(void) { st_n = 0; st_what = NULL; E.fault = st_at ? st_fault : NULL; mem_begin(0x5A); if (oom_at) M.fail_at = oom_at; }
#endif
