/* P02: the parser asks for exactly the missing bytes, on every prefix of every telegram. */
#include "util.h"
static mbus_frame *F;
static void feed(const uint8_t *b, int full, int start)
{
    int have = start, k, guard = 0;
    mc_input(b, full); mc_note("telegram of %d bytes fed from %d", full, start);
    for (;;) {
        k = parse_fresh(F, b, have, 0xA5); mc_trans(1); { int st[3] = { b[0], b[1] * (have > 1), have }; mc_state(st, sizeof st); }
        if (have == full) { MC_CHECK(k == 0, "complete telegram of %d bytes: answer %d", full, k); break; }
        MC_CHECK(k > 0, "%d of %d bytes present: answer %d instead of a number of missing bytes", have, full, k);
        MC_CHECK(k <= full - have, "%d of %d bytes present: asks for %d bytes, beyond the end of the telegram", have, full, k);
        have += k; if (++guard > 300) mc_fail("does not finish");
    }
    mc_outcome("%d requests", guard); mc_trace(1);
}
void mc_main(void)
{
    static const uint8_t ctl[] = { 0x53, 0x73, 0x08, 0x18, 0x28, 0x38 }, sctl[] = { 0x40, 0x5A, 0x7A, 0x5B, 0x7B };
    uint8_t b[600], d[256]; int n, k, t, full, c;
    F = malloc(sizeof *F);
    mc_section("short telegrams");
    for (c = 0; c < 5; c++) for (k = 0; k < 256; k++) { full = mk_short(b, sctl[c], k); for (t = 1; t <= full; t++) if (mc_case()) feed(b, full, t); }
    mc_section("acknowledge"); if (mc_case()) { b[0] = 0xE5; feed(b, 1, 1); }
    mc_section("control and long telegrams: every prefix");
    for (n = 0; n <= 252; n++) for (k = 0; k < (mc_thorough ? 6 : 3); k++) for (c = 0; c < 6; c++) {
        if (!mc_thorough && c != (n + k) % 6 && n > 16) continue;
        pat(d, n, k); full = mk_long(b, ctl[c], k * 85 + n, c & 1 ? 0x72 : 0x51, d, n);
        for (t = 1; t <= full; t++) if (mc_case()) feed(b, full, t);
    }
    mc_section("one byte at a time");
    for (n = 0; n <= 252; n++) {
        if (!mc_case()) continue;
        pat(d, n, 1); full = mk_long(b, 0x08, n, 0x72, d, n); mc_input(b, full);
        frame_fill(F, 0);
        for (t = 1; t <= full; t++) {    /* the object is reused across calls, as a receive loop does */
            k = mbus_parse(F, guard_copy(0, b, t), t); mc_trans(1);
            MC_CHECK(t == full ? k == 0 : (k > 0 && k <= full - t), "%d of %d bytes present: answer %d", t, full, k);
        }
    }
}
