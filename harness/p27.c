/* P27: hex text is read exactly or refused. */
#include "util.h"
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
/* bytes spelled: white space between pairs is skipped, anything that is not a pair of hex digits ends the text */
static int ref(const uint8_t *s, int n, uint8_t *o, int cap)
{
    int i = 0, k = 0;
    while (i < n && k < cap) {
        if (sp(s[i])) { i++; continue; }
        if (i + 1 >= n || hv(s[i]) < 0 || hv(s[i + 1]) < 0) break;
        o[k++] = hv(s[i]) << 4 | hv(s[i + 1]); i += 2;
    }
    return k;
}
static void one(const uint8_t *s, int n, int cap)
{
    uint8_t e[64], *d; int k, r, i; const uint8_t *g;
    mc_input(s, n); mc_note("\"%.*s\" into %d bytes", n, s, cap); if (cap > 64) cap = 64;
    k = ref(s, n, e, cap); d = guard_buf(1, cap); g = guard_copy(2, s, n);
    r = (int)mbus_hex2bin(d, cap, g, n); mc_trans(1);
    MC_CHECK(guard_canary_ok(1, cap), "wrote in front of the buffer");
    MC_CHECK(r <= k, "%d bytes read from \"%.*s\", it spells %d (%s)", r, n, s, k, mc_hex(d, r < cap ? r : cap));
    MC_CHECK(r == k && !memcmp(d, e, k), "\"%.*s\" read as %s, it spells %s", n, s, mc_hex(d, r), mc_hex(e, k));
    mc_outcome("%d bytes", r);
}
void mc_main(void)
{
    static const uint8_t al[] = { '0', '9', 'A', 'F', 'a', 'f', 'G', 'x', 'X', '-', '+', ' ', '\n', 0, 0xC4, '.', '1' };
    uint8_t s[64]; int n, i, j, ix[8], cap, na = sizeof al;
    for (n = 0; n <= 5 + mc_thorough; n++) { char b[32]; sprintf(b, "strings of %d characters", n); mc_section(b); memset(ix, 0, sizeof ix);
        for (;;) { for (cap = 0; cap <= 3; cap++) if ((cap == 3 || n <= 4) && mc_case()) { for (i = 0; i < n; i++) s[i] = al[ix[i]]; one(s, n, cap); }
            for (i = n - 1; i >= 0 && ++ix[i] == na; i--) ix[i] = 0; if (i < 0) break; } }
    mc_section("all character pairs"); for (i = 0; i < 256; i++) for (j = 0; j < 256; j++) for (n = 0; n < 3; n++) if (mc_case()) { memcpy(s, "12 34 56 78", 11); s[n * 3] = i; s[n * 3 + 1] = j; one(s, 11, 8); }
    mc_section("separator characters"); for (i = 0; i < 256; i++) for (n = 0; n < 5; n++) if (mc_case()) { memcpy(s, "12 34 56 ", 9); s[n == 0 ? 2 : n == 1 ? 5 : n == 2 ? 8 : n == 3 ? 0 : 1] = i; one(s, 9, 8); }
    mc_section("buffer sizes"); for (n = 0; n <= 40; n++) for (cap = 0; cap <= 24; cap++) if (mc_case()) { for (i = 0; i < n; i++) s[i] = "0123456789abcdefABCDEF"[(i * 7 + n) % 22]; one(s, n, cap); }
    mc_section("absent arguments"); if (mc_case()) { mc_input("n", 1); MC_CHECK(mbus_hex2bin(NULL, 5, (void *)"1234", 4) == 0 && mbus_hex2bin(s, 5, NULL, 4) == 0, "absent argument converted"); }
}
