/* What the instrumentation of a guided run (see guide.rs) calls: counters of edges, and for every
   comparison its outcomes so far and, while its operands were never equal, a pair of them. */
#include <stdint.h>
#include <string.h>

#define MODULES 256
static uint8_t *from[MODULES], *to[MODULES];
static uint32_t modules;
void __sanitizer_cov_8bit_counters_init(uint8_t *s, uint8_t *e) {
    for (uint32_t i = 0; i < modules; i++) if (from[i] == s) return;
    if (s != e && modules < MODULES) { from[modules] = s; to[modules++] = e; }
}
void __sanitizer_cov_pcs_init(const uintptr_t *s, const uintptr_t *e) { (void)s; (void)e; }

#define SITES (1u << 16)
static uint8_t outcomes[SITES]; /* over all cases; 1 equal, 2 less, 4 greater */
static uint32_t stamp[SITES];
static struct { uint64_t a, b; } pair[SITES]; /* of this case the nearest */
#define PAIRS 512
static uint32_t touched[PAIRS], n_touched, now = 1, found;
static int active;

static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b) {
    if (!active) return;
    uint32_t s = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 48);
    uint8_t o = a == b ? 1 : a < b ? 2 : 4;
    if (!(outcomes[s] & o)) { outcomes[s] |= o; found++; }
    if (outcomes[s] & 1) return;
    uint64_t d = a > b ? a - b : b - a;
    if (stamp[s] != now) {
        if (n_touched >= PAIRS) return;
        stamp[s] = now;
        touched[n_touched++] = s;
    } else if (d >= (pair[s].a > pair[s].b ? pair[s].a - pair[s].b : pair[s].b - pair[s].a)) return;
    pair[s].a = a;
    pair[s].b = b;
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { (void)a; (void)b; }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(PC, b, a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, b, a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, b, a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, b, a); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
    for (uint64_t i = 0; i < cases[0] && i < 64; i++) cmp(PC + i, v, cases[2 + i]);
}

void pbt_cov_begin(void) {
    for (uint32_t m = 0; m < modules; m++) memset(from[m], 0, to[m] - from[m]);
    now++;
    n_touched = found = 0;
    active = 1;
}
#define EDGES (1u << 20)
static uint8_t seen[EDGES];
/* How much of the case since `pbt_cov_begin` is new; and of the comparisons without equal operands
   up to `max`, each with its two operands. */
uint32_t pbt_cov_end(uint64_t *out, uint32_t max, uint32_t *pairs) {
    active = 0;
    uint32_t at = 0, new = found;
    for (uint32_t m = 0; m < modules; m++) {
        uint8_t *p = from[m], *e = to[m];
        for (; p < e; p++, at++) {
            while (((uintptr_t)p & 7) == 0 && p + 8 <= e && *(uint64_t *)p == 0) { p += 8; at += 8; }
            if (p >= e) break;
            uint8_t c = *p;
            if (!c) continue;
            uint8_t b = c < 2 ? 1 : c < 4 ? 2 : c < 16 ? 4 : 8;
            if (!(seen[at % EDGES] & b)) { seen[at % EDGES] |= b; new++; }
        }
    }
    uint32_t n = 0;
    for (uint32_t i = 0; i < n_touched && n < max; i++) {
        uint32_t s = touched[i];
        if (outcomes[s] & 1) continue;
        out[3 * n] = s; out[3 * n + 1] = pair[s].a; out[3 * n + 2] = pair[s].b; n++;
    }
    *pairs = n;
    return new;
}
int pbt_cov_solved(uint64_t site) { return outcomes[site % SITES] & 1; }
