/* Seam for the C-level nondeterminism of the Cython extensions: rand(), srand() and time().
 * Off (transparent PRNG of its own) until the simulator selects a mode; see sim/world.py. */
#include <stddef.h>
#include <time.h>
#include <stdint.h>
#define RMAX 2147483647

static int mode = 0;             /* 0 uniform, 1 constant, 2 increasing, 3 decreasing, 4 low entropy, 5 honest srand */
static uint64_t state = 88172645463325252ULL, base = 88172645463325252ULL;
static long calls = 0, srands = 0;
static long vtime = 1700000000L;

static uint64_t next(void) {
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    return state;
}
void sim_rand_setup(int m, uint64_t seed) {
    mode = m; base = seed | 1; state = base; calls = 0; srands = 0;
    for (int i = 0; i < 8; i++) next();
}
void sim_set_time(long t) { vtime = t; }
long sim_rand_calls(void) { return calls; }
long sim_srand_calls(void) { return srands; }

int rand(void) {
    calls++;
    switch (mode) {
    case 1: return (int)(base % 1000);
    case 2: return (int)(calls & RMAX);
    case 3: return (int)((RMAX - calls) & RMAX);
    case 4: return (int)(next() % 3);
    default: return (int)(next() & RMAX);
    }
}
void srand(unsigned int seed) {
    srands++;
    if (mode == 5) { state = (base ^ ((uint64_t)seed * 0x9E3779B97F4A7C15ULL)) | 1; for (int i = 0; i < 4; i++) next(); }
}
time_t time(time_t *t) { if (t) *t = vtime; return vtime; }
