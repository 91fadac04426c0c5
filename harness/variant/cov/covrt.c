/* Run-time part of the coverage instrumentation (linked into each coverage build): edge counters as the compiler
   lays them out, and for every comparison how close its two sides came (libFuzzer's value profile, and the smallest
   difference). */
#include <stdint.h>
#include <stddef.h>
#include <string.h>

static uint8_t *first, *last;

struct site {
    /* bits 0..63: Hamming distances seen, 64..127: magnitudes of the difference */
    uint64_t hamming, magnitude;
    uint64_t smallest;
    /* position in the code, the same in every copy of the library */
    uint64_t key;
    uint64_t hits;
};
#define SITES (1 << 14)
/* a comparison in an inner loop is looked at this often */
#define OFTEN 250
static struct site sites[SITES];
static uint32_t nsites = 1;
static struct { uint64_t key; uint32_t id; } table[4 * SITES];
static uint32_t touched[SITES], ntouched;

void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) { first = a; last = b; }
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_indir(uintptr_t x) { (void)x; }

static __attribute__((noinline)) uint32_t enlist(uint32_t h, uint64_t key) {
    if (nsites == SITES) return 0;
    table[h].key = key;
    table[h].id = nsites;
    sites[nsites].key = key;
    return nsites++;
}

static __attribute__((noinline)) void record(uint32_t id, uint64_t a, uint64_t b) {
    struct site *s = &sites[id];
    uint64_t d = a ^ b, e = a > b ? a - b : b - a;
    uint32_t n = 0;
    if (s->hits++ == 0) {
        s->smallest = UINT64_MAX;
        touched[ntouched++] = id;
    }
    for (uint64_t x = d; x; x &= x - 1) n++;
    s->hamming |= 1ull << (n & 63);
    s->magnitude |= 1ull << (e ? 63 - __builtin_clzll(e) : 63);
    if (e < s->smallest) s->smallest = e;
}

static inline void seen(uint64_t pc, uint64_t a, uint64_t b) {
    uint64_t key = pc - (uint64_t)first + (1ull << 48);
    uint32_t h = (key * 0x9E3779B97F4A7C15ull) >> 48, id;
    while (table[h].key != key && table[h].key) h = (h + 1) & (4 * SITES - 1);
    id = table[h].key ? table[h].id : enlist(h, key);
    if (sites[id].hits < OFTEN) record(id, a, b);
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define CMP(n, t)                                                                                                    \
    void __sanitizer_cov_trace_cmp##n(t a, t b) { seen(PC, a, b); }                                                  \
    void __sanitizer_cov_trace_const_cmp##n(t a, t b) { seen(PC, a, b); }
CMP(1, uint8_t)
CMP(2, uint16_t)
CMP(4, uint32_t)
CMP(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
    for (uint64_t i = 0; i < c[0]; i++) seen(PC * 64 + i, v, c[2 + i]);
}
void __sanitizer_cov_trace_div4(uint32_t v) { (void)v; }
void __sanitizer_cov_trace_div8(uint64_t v) { (void)v; }
void __sanitizer_cov_trace_gep(uintptr_t v) { (void)v; }

void cov_reset(void) {
    memset(first, 0, last - first);
    for (uint32_t i = 0; i < ntouched; i++) {
        struct site *s = &sites[touched[i]];
        s->hamming = s->magnitude = 0;
        s->hits = 0;
    }
    ntouched = 0;
}
const uint8_t *cov_counters(size_t *n) { *n = last - first; return first; }
/* the comparisons executed since the reset */
const void *cov_sites(const uint32_t **t, size_t *n) { *t = touched; *n = ntouched; return sites; }
