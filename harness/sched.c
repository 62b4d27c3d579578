// Runtime of the "sched" build: the library calls one of these functions before each of its memory accesses (compiler
// instrumentation, -fsanitize-coverage=trace-loads,trace-stores); threads are delayed at random accesses.
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
static volatile int active = 0; static uint32_t period = 0, mask = 0; // mean number of accesses between delays; fraction of the sites that are delayed often
static uint64_t seed = 1; static uint64_t threads = 0; static uint32_t salt = 0;
volatile long sched_delays = 0;
struct S { uint64_t rng; int64_t left; int depth; unsigned char often[256]; };
static __thread struct S me __attribute__((tls_model("initial-exec")));
void sched_set(uint32_t p, uint32_t m, uint64_t s) { seed = s * 2654435761u + 1; salt = (uint32_t) (seed * 0x9E3779B97F4A7C15ull >> 32); period = p; mask = m; active = 1; }
static inline uint64_t next(void) {
    if (!me.rng) { me.rng = (seed + 1) * 0x9E3779B97F4A7C15ull * (2 * __sync_add_and_fetch(&threads, 1) + 1); if (!me.rng) me.rng = 1; }
    me.rng ^= me.rng << 13; me.rng ^= me.rng >> 7; me.rng ^= me.rng << 17; return me.rng;
}
static __attribute__((noinline)) void slow(int site, uint32_t h) {
    if (me.depth) return;
    me.depth = 1; uint64_t r = next(); int go = 1;
    if (site) { unsigned char* c = me.often + (h >> 24); go = *c < 20 ? (r >> 57) % 4 == 0 : (r >> 50) % 512 == 0; if (go && *c < 255) ++*c; }
    else { int burst = (r >> 50) % 8 == 0; me.left = 1 + (int64_t) ((r >> 20) % (2 * (uint64_t) period)) / (burst ? 16 : 1); }   // sometimes a phase with many delays
    if (go) {
        unsigned k = (r >> 12) % 16; ++sched_delays;
        if (k < 6) sched_yield();
        else if (k < 12) { for (volatile unsigned i = 0, n = (r >> 40) % 3000; i < n; ++i) {} }
        else { struct timespec t = { 0, 1000 * (1 + (r >> 33) % (k == 15 ? 300 : 40)) }; nanosleep(&t, 0); }
    }
    me.depth = 0;
}
static inline void access(void* pc) {
    if (!active) return;
    uint32_t h = (uint32_t) (uintptr_t) pc * 2654435761u;
    if (mask && ((h >> 8 ^ salt) & mask) == 0) slow(1, h);
    else if (period && --me.left <= 0) slow(0, 0);
}
#define CB(n) void __sanitizer_cov_load##n(void* p) { (void) p; access(__builtin_return_address(0)); } void __sanitizer_cov_store##n(void* p) { (void) p; access(__builtin_return_address(0)); }
CB(1) CB(2) CB(4) CB(8) CB(16)
// VERIF_SCHED=<period>,<mask>,<seed>: active from the start
__attribute__((constructor)) static void start(void) {
    const char* e = getenv("VERIF_SCHED"); if (!e) return;
    char* q = 0; uint32_t p = (uint32_t) strtoul(e, &q, 10), m = 0; uint64_t s = 1; if (q && *q) m = (uint32_t) strtoul(q + 1, &q, 10); if (q && *q) s = strtoull(q + 1, 0, 10);
    sched_set(p, m, s);
}
